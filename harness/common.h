// Shared pieces of the bounded differential harness. Every case is a pure function of
// (mode, seed, iteration), so a failing case is replayed by naming those three.
#pragma once
#include "db.h"
#include "dict.h"
#include "error.h"
#include "mabain_consts.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
using std::map; using std::string; using std::vector; using std::set; using std::to_string;

struct Rng {
    std::mt19937_64 g;
    void seed(uint64_t a, uint64_t b) { std::seed_seq s { (uint32_t)a, (uint32_t)(a >> 32), (uint32_t)b, (uint32_t)(b >> 32) }; g.seed(s); }
    uint64_t u() { return g(); }
    int operator()(int n) { return n <= 1 ? 0 : (int)(g() % (uint64_t)n); }
    bool p(int n) { return (*this)(n) == 0; }
};

struct Failure { string what; };
struct Ctx {
    Rng R;
    uint64_t seed, it;
    bool thorough = false;
    string dir;          // scratch directory of this process
    int dbn = 0;
    string log;          // operations so far
    enum { SHLOG = 1 << 18 };
    char* shlog = nullptr; volatile size_t* shlen = nullptr; // the same, where it survives a crash
    long ops = 0;        // operations compared with the model
    uint64_t sig = 0;    // shape of the case (used to count distinct cases)
    string newdir()
    {
        string d = dir + "/db" + to_string(dbn++) + "/";
        struct stat st;
        if (stat(d.c_str(), &st) == 0) { string c = "rm -rf " + d; if (system(c.c_str())) { } } // left by a failed case
        mkdir(d.c_str(), 0700);
        return d;
    }
    void rmdirs()
    {
        for (int i = 0; i < dbn; i++) {
            string d = dir + "/db" + to_string(i) + "/";
            DB::ClearResources(d);
            string c = "rm -rf " + d;
            if (system(c.c_str())) { }
        }
        dbn = 0;
    }
    void L(const char* f, ...)
    {
        char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (log.size() < 200000) log += b, log += "\n";
        if (shlog) { size_t n = strlen(b), o = *shlen; if (o + n + 2 < SHLOG) { memcpy(shlog + o, b, n); shlog[o + n] = '\n'; *shlen = o + n + 1; } }
        for (char* q = b; *q; q++) sig = (sig ^ (uint8_t)*q) * 1099511628211ull;
    }
    [[noreturn]] void fail(const char* f, ...)
    {
        char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        throw Failure { b };
    }
};
static inline string esc(const string& s, size_t max = 600)
{
    string r;
    for (unsigned char c : s) {
        if (r.size() > max) { r += "..."; break; }
        char b[8];
        if (c > 32 && c < 127 && c != '\\') r += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
typedef void (*ModeFn)(Ctx&);
struct Mode { const char* name; ModeFn fn; int cpu_limit; };
extern Mode diff_modes[], conc_modes[], unit_modes[];

// A copy of bytes that ends at an unmapped page (over-reads fault) or is followed by chosen bytes.
struct KeyBuf {
    uint8_t* m = nullptr; size_t page = 4096;
    KeyBuf() { m = (uint8_t*)mmap(0, 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 2 * page, page, PROT_NONE); }
    ~KeyBuf() { munmap(m, 3 * page); }
    const char* guarded(const string& s) { uint8_t* p = m + 2 * page - s.size(); memcpy(p, s.data(), s.size()); return (const char*)p; }
};
