#include "db.h"
#include "dict.h"
#include "error.h"
#include "mabain_consts.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mabain;
using std::string; using std::map; using std::vector;
static string g_dir;
static MBConfig conf(int opt = 0, size_t block = 0, size_t cap = 64 << 20)
{
    MBConfig c; memset(&c, 0, sizeof c);
    c.options = CONSTS::ACCESS_MODE_WRITER | opt; c.mbdir = g_dir.c_str(); c.queue_dir = g_dir.c_str();
    c.block_size_index = c.block_size_data = block; c.memcap_index = c.memcap_data = cap;
    return c;
}
#define REQUIRE(x) do { if (!(x)) { printf("FAIL line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
static string val(DB& d, const string& k) { MBData m; int r = d.Find(k.data(), k.size(), m); if (r) return "!" + std::to_string(r); return string((char*)m.buff, m.data_len); }
static void checkall(DB& d, const map<string, string>& M)
{
    for (auto& p : M) if (val(d, p.first) != p.second) { printf("FAIL: key %s gives %s, expected %s\n", p.first.c_str(), val(d, p.first).substr(0, 60).c_str(), p.second.substr(0, 60).c_str()); exit(1); }
    map<string, string> G; for (auto i = d.begin(); i != d.end(); ++i) G[i.key] = string((char*)i.value.buff, i.value.data_len);
    if (G != M) { printf("FAIL: iteration gives %zu pairs, expected %zu\n", G.size(), M.size()); exit(1); }
    if (d.Count() != (int64_t)M.size()) { printf("FAIL: count %lld, expected %zu\n", (long long)d.Count(), M.size()); exit(1); }
}
