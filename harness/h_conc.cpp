// A writer killed at any store (C11), and lookups interleaved with one writer operation (C13). Both need the
// traced build of the library (see trace.h).
#include "diff.h"
#include "trace.h"
#include <condition_variable>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <thread>

static bool copyfile(const string& a, const string& b)
{
    int i = open(a.c_str(), O_RDONLY); if (i < 0) return false;
    struct stat st; fstat(i, &st);
    int o = open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (o < 0) { close(i); return false; }
    bool ok = ftruncate(o, st.st_size) == 0;
    static char buf[1 << 16];
    off_t p = 0;
    while (ok && p < st.st_size) {
        off_t d = lseek(i, p, SEEK_DATA); if (d < 0) break;
        off_t e = lseek(i, d, SEEK_HOLE); if (e < 0) e = st.st_size;
        for (p = d; p < e && ok;) {
            ssize_t n = pread(i, buf, std::min<off_t>(sizeof buf, e - p), p);
            if (n <= 0) { ok = false; break; }
            for (ssize_t z = 0; z < n; z += 4096) { ssize_t q = std::min<ssize_t>(4096, n - z); bool nz = false; for (ssize_t k = 0; k < q; k++) if (buf[z + k]) { nz = true; break; } if (nz && pwrite(o, buf + z, q, p + z) != q) ok = false; }
            p += n;
        }
    }
    close(i); close(o); return ok;
}
static void copydir(const string& a, const string& b)
{
    DIR* D = opendir(a.c_str()); if (!D) return;
    while (dirent* e = readdir(D)) { string n = e->d_name; struct stat st; if (n == "." || n == "..") continue; if (stat((a + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) copyfile(a + n, b + n); }
    closedir(D);
}

static struct Snap { Ctx* c; string src; vector<string> dirs; vector<int> at; int n, first, step, max; bool on; } SN;
static void snap_hook(int kind)
{
    if (kind != TR_WRITE || !SN.on) return;
    int k = SN.n++;
    if (k < SN.first || (k - SN.first) % SN.step || (int)SN.dirs.size() >= SN.max) return;
    g_hook = nullptr;
    string d = SN.c->newdir();
    copydir(SN.src, d);
    SN.dirs.push_back(d); SN.at.push_back(k);
    g_hook = snap_hook;
}
static void m_crash(Ctx& c)
{
    static const int kinds[] = { 0, 0, 0, 6, 1 }; int kind = kinds[c.R(5)];
    static const int vs[] = { 20, 20, 300 };
    Diff d(c, kind, W_FIND, vs[c.R(3)]);
    if (kind == 1) { d.bulk(5 << 20, 20); }
    int warm = c.R(2) ? 12 : 60;
    for (int i = 0; i < warm; i++) { if (c.R(4)) d.add(d.g.key(), d.g.val(d.maxv), true); else if (d.M.size()) { auto q = d.M.begin(); advance(q, c.R(std::min<size_t>(d.M.size(), 50))); d.remove(string(q->first)); } }
    for (int rep = 0; rep < 8; rep++) {
        auto pre = d.M; string k = d.g.key(); int w = c.R(3); bool isrm = false;
        if (w) { if (d.M.size()) { auto q = d.M.lower_bound(k); if (q == d.M.end()) q = d.M.begin(); k = q->first; } }
        SN = Snap(); SN.c = &c; SN.src = d.db.d; SN.max = c.thorough ? 60 : 14; SN.step = 1 + c.R(c.R(2) ? 2 : 6); SN.first = c.R(c.R(2) ? 12 : 40);
        c.L("-- kill the writer at a store of:");
        string v = d.g.val(d.maxv); if (w == 1 && pre.count(k) && c.R(2)) { v = pre[k]; for (char& x : v) x ^= 0x5a; }
        trace_refresh(c.dir.c_str());
        SN.on = true; g_hook = snap_hook;
        try { if (w == 2 && d.M.count(k)) { isrm = true; d.remove(k); } else d.add(k, v, true); } catch (...) { g_hook = nullptr; SN.on = false; throw; }
        g_hook = nullptr; SN.on = false;
        auto post = d.M;
        for (size_t s = 0; s < SN.dirs.size(); s++) {
            string sd = SN.dirs[s]; if (getenv("KEEP")) { string kd = string(getenv("KEEP")) + "/"; mkdir(kd.c_str(), 0700); copydir(sd, kd); }
            MBConfig cf = d.db.cfg; cf.mbdir = sd.c_str(); cf.queue_dir = sd.c_str();
            string where = "writer killed before store " + to_string(SN.at[s]) + " of " + (isrm ? "remove " : pre.count(k) ? "overwrite " : "add ") + esc(k);
            {
                DB b(cf); if (!b.is_open()) c.fail("%s: the database does not open again: %d", where.c_str(), b.Status());
                string state; // what the key being modified holds
                auto check = [&](map<string, string>& M, const char* when) {
                    for (auto& p : M) { if (p.first == k) continue; MBData m; int r = b.Find(p.first, m); if (r || VS(m) != p.second) c.fail("%s: %s, key %s %s", where.c_str(), when, esc(p.first).c_str(), r ? "is lost" : "has a wrong value"); }
                };
                check(pre, "after reopening");
                MBData m; int r = b.Find(k, m); bool in0 = pre.count(k), in1 = post.count(k);
                bool okold = in0 ? (r == 0 && VS(m) == pre[k]) : r == MBError::NOT_EXIST, oknew = in1 ? (r == 0 && VS(m) == post[k]) : r == MBError::NOT_EXIST;
                if (!okold && !oknew) c.fail("%s: after reopening the key has neither its old nor its new state (status %d, %d bytes)", where.c_str(), r, r == 0 ? m.data_len : -1);
                map<string, string> M = pre; if (r == 0) M[k] = VS(m); else M.erase(k);
                // nothing else is stored
                map<string, string> G; long n = 0; for (auto i = b.begin(); i != b.end() && n < (long)M.size() + 50; ++i, n++) G[i.key] = VS(i.value);
                if (G != M) { string df; for (auto& p : M) if (!G.count(p.first)) { df = "misses " + esc(p.first); break; } if (df.empty()) for (auto& p : G) if (!M.count(p.first)) { df = "invents " + esc(p.first); break; } c.fail("%s: after reopening iteration yields %zu pairs, expected %zu (%s)", where.c_str(), G.size(), M.size(), df.c_str()); }
                // the recovered database works
                for (int o = 0; o < 6; o++) {
                    string q = c.R(2) ? d.g.key() : k; if (c.R.p(3)) q = q.substr(0, 1 + c.R(q.size()));
                    if (c.R(3)) { string v2 = d.g.val(20); int e = b.Add(q, v2, true); if (e) c.fail("%s: a later add of %s returned %d", where.c_str(), esc(q).c_str(), e); M[q] = v2; }
                    else { int e = b.Remove(q); if (e != (M.count(q) ? 0 : MBError::NOT_EXIST)) c.fail("%s: a later remove of %s returned %d", where.c_str(), esc(q).c_str(), e); M.erase(q); }
                }
                for (auto& p : M) { MBData m2; int e = b.Find(p.first, m2); if (e || VS(m2) != p.second) c.fail("%s: after later operations key %s %s", where.c_str(), esc(p.first).c_str(), e ? "is lost" : "has a wrong value"); }
                b.Close();
            }
            DB::ClearResources(sd);
            string cmd; DIR* D = opendir(sd.c_str()); if (D) { while (dirent* e = readdir(D)) unlink((sd + e->d_name).c_str()); closedir(D); }
            rmdir(sd.c_str());
            c.ops++;
        }
        if (d.M.size() > 400) break;
    }
}

// ---- two threads under a deterministic schedule: exactly one runs between schedule points
namespace sched {
static std::mutex mu; static std::condition_variable cv;
static int turn; static bool fin[2]; static bool freerun; static Rng rng; static int prob; static long since, points[2], switches;
static thread_local int me = -1;
static void hand(int to)
{
    std::unique_lock<std::mutex> l(mu);
    turn = to; since = 0; switches++; cv.notify_all();
    while (turn != me && !fin[1 - me] && !freerun)
        if (cv.wait_for(l, std::chrono::seconds(3)) == std::cv_status::timeout && turn != me) { freerun = true; cv.notify_all(); }
    turn = me;
}
static void point(int)
{
    if (me < 0 || freerun) return;
    points[me]++;
    if (fin[1 - me]) return;
    if (++since > 3000 || rng(prob) == 0) hand(1 - me);
}
static void start(int id) { me = id; std::unique_lock<std::mutex> l(mu); while (turn != me && !freerun) cv.wait_for(l, std::chrono::seconds(3)); g_hook = point; }
static void stop() { g_hook = nullptr; std::unique_lock<std::mutex> l(mu); fin[me] = true; turn = 1 - me; cv.notify_all(); }
}
struct Q { int kind; string key; int r; string val; int match; string bound; };
static void ask(DB& h, Q& q)
{
    MBData m; q.match = 0;
    if (q.kind == 0) q.r = h.Find(q.key, m);
    else if (q.kind == 1) { q.r = h.FindLongestPrefix(q.key, m); if (q.r == 0) q.match = m.match_len; }
    else q.r = h.FindLowerBound(q.key, m, &q.bound);
    if (q.r == 0) q.val = VS(m);
}
static bool agrees(const Q& q, map<string, string>& M)
{
    if (q.kind == 0) { auto i = M.find(q.key); return i == M.end() ? q.r == MBError::NOT_EXIST : q.r == 0 && q.val == i->second; }
    if (q.kind == 1) { for (int l = q.key.size(); l > 0; l--) { auto i = M.find(q.key.substr(0, l)); if (i != M.end()) return q.r == 0 && q.val == i->second && q.match == l; } return q.r == MBError::NOT_EXIST; }
    auto u = M.upper_bound(q.key); if (u == M.begin()) return q.r == MBError::NOT_EXIST; --u; return q.r == 0 && q.val == u->second && q.bound == u->first;
}
static void conc(Ctx& c, int kinds_)
{
    static const int kinds[] = { 0, 0, 0, 1, 3 }; int kind = kinds[c.R(5)];
    static const int vs[] = { 20, 20, 300 };
    Diff d(c, kind, W_FIND, vs[c.R(3)]);
    if (kind == 1) d.bulk(5 << 20, 20);
    int warm = c.R(2) ? 12 : 60;
    for (int i = 0; i < warm; i++) { if (c.R(4)) d.add(d.g.key(), d.g.val(d.maxv), true); else if (d.M.size()) { auto q = d.M.begin(); advance(q, c.R(std::min<size_t>(d.M.size(), 50))); d.remove(string(q->first)); } }
    d.db.reader();
    { MBData m; d.db.r->Find(d.g.key(), m); }
    for (int rep = 0; rep < 60; rep++) {
        auto pre = d.M; string k = d.g.key(); int w = c.R(3); bool rm = false;
        if (w && d.M.size()) { auto q = d.M.lower_bound(k); if (q == d.M.end()) q = d.M.begin(); k = q->first; }
        string v = d.g.val(d.maxv);
        rm = w == 2 && d.M.count(k);
        vector<Q> qs; int nq = 1 + c.R(3);
        for (int i = 0; i < nq; i++) {
            Q q; q.kind = kinds_ == 2 ? 2 : c.R(2) ? 0 : kinds_; int z = c.R(4); q.key = k;
            if (z == 1 && d.M.size()) { auto i2 = d.M.lower_bound(k.substr(0, 1 + c.R(k.size()))); if (i2 == d.M.end()) i2 = d.M.begin(); q.key = i2->first; }
            if (z == 2) { q.key = k.substr(0, 1 + c.R(k.size())); if (c.R(2)) q.key += d.g.key(); q.key = q.key.substr(0, 255); }
            if (z == 3 && d.M.size()) { auto i2 = d.M.upper_bound(k); if (i2 == d.M.end()) i2 = d.M.begin(); q.key = i2->first; }
            qs.push_back(q);
        }
        trace_refresh(c.dir.c_str());
        using namespace sched;
        fin[0] = fin[1] = freerun = false; since = points[0] = points[1] = switches = 0; turn = c.R(2); rng.seed(c.R.u(), 1);
        static const int pr[] = { 2, 4, 8, 20, 60 }; prob = pr[c.R(5)];
        string ql; for (auto& q : qs) ql += string(" ") + (q.kind == 0 ? "find " : q.kind == 1 ? "longest-prefix " : "lower-bound ") + esc(q.key);
        c.L("-- writer: %s %s (value of %zu bytes), interleaved with%s, 1 in %d", rm ? "remove" : pre.count(k) ? "overwrite" : "add", esc(k).c_str(), v.size(), ql.c_str(), prob);
        int wr = -99;
        std::thread tw([&] { start(0); try { wr = rm ? d.db.w->Remove(k) : d.db.w->Add(k, v, true); } catch (int e) { wr = -e; } stop(); });
        std::thread tr([&] { start(1); for (auto& q : qs) { try { ask(*d.db.r, q); } catch (int e) { q.r = -e; } } stop(); });
        tw.join(); tr.join();
        if (wr) c.fail("the writer's operation returned %d", wr);
        if (rm) d.M.erase(k); else d.M[k] = v;
        if (freerun) { c.L("(schedule abandoned: a thread waited for a lock)"); continue; }
        for (auto& q : qs)
            if (!agrees(q, pre) && !agrees(q, d.M))
                c.fail("%s of %s beside %s of %s returned status %d (%zu bytes, match %d, bound %s): neither the answer before the operation nor after it (%ld switches)", q.kind == 0 ? "find" : q.kind == 1 ? "longest-prefix" : "lower-bound", esc(q.key).c_str(), rm ? "remove" : pre.count(k) ? "overwrite" : "add", esc(k).c_str(), q.r, q.val.size(), q.match, esc(q.bound).c_str(), switches);
        c.ops++;
        if (d.M.size() > 500) break;
    }
    d.full();
}
static void m_lockfree(Ctx& c) { conc(c, 0); }
static void m_lockfree2(Ctx& c) { conc(c, 1); }
static void m_lockfree3(Ctx& c) { conc(c, 2); }
Mode conc_modes[] = { { "crash", m_crash, 200 }, { "lockfree", m_lockfree, 200 }, { "lockfree2", m_lockfree2, 200 }, { "lockfree3", m_lockfree3, 200 }, { nullptr, nullptr, 0 } };
