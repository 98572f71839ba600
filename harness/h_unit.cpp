// Component modes: free-space store and overlap walk (space), block files (io), integer and hex codecs (codec),
// result buffers (mbdata), prefix cache (pcache), eviction (evict), shared-memory queue (queue).
#include "diff.h"
#include "async_writer.h"
#include "free_list.h"
#include "integer_4b_5b.h"
#include "resource_pool.h"
#include "rollable_file.h"
#include "util/mb_lsq.h"
#include "util/prefix_cache.h"
#include "hexbin.h"
#include <thread>

// Run f in a child process: for cases that end with the library in a state it cannot be closed from.
void in_child(Ctx& c, std::function<void()> f)
{
    int p[2]; if (pipe(p)) return;
    pid_t k = fork();
    if (k == 0) {
        close(p[0]); int rc = 0;
        try { f(); } catch (Failure& e) { if (write(p[1], e.what.data(), e.what.size()) < 0) { } rc = 1; } catch (int e) { string s = "int exception " + to_string(e); if (write(p[1], s.data(), s.size()) < 0) { } rc = 1; }
        _exit(rc);
    }
    close(p[1]); string w; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) w.append(b, n);
    close(p[0]); int st = 0; waitpid(k, &st, 0);
    if (c.shlog) c.log = string(c.shlog, *c.shlen);
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM) return; c.fail("the library crashed (signal %d)", WTERMSIG(st)); }
    if (WEXITSTATUS(st)) c.fail("%s", w.c_str());
}

// ---------------------------------------------------------------- C09
typedef map<size_t, size_t> Iv; // start -> end
static void put_iv(Ctx& c, Iv& m, size_t a, size_t n, const char* what)
{
    if (!n) return;
    auto i = m.lower_bound(a + 1);
    if (i != m.end() && i->first < a + n) c.fail("%s at [%zu,+%zu) overlaps storage in use at [%zu,%zu)", what, a, n, i->first, i->second);
    if (i != m.begin()) { --i; if (i->second > a) c.fail("%s at [%zu,+%zu) overlaps storage in use at [%zu,%zu)", what, a, n, i->first, i->second); }
    m[a] = a + n;
}
static void rd(Ctx& c, DRMBase* f, uint8_t* b, size_t n, size_t off, const char* what)
{
    if (f->ReadData(b, n, off) != (int)n) c.fail("cannot read %s at %zu", what, off);
}
static void walk(Ctx& c, Dict* d, DRMBase* mm, Iv& I, Iv& D, size_t node, long& nkeys, int depth)
{
    if (depth > 600) c.fail("the index has a path longer than any key");
    uint8_t h[8 + 256]; rd(c, mm, h, 8, node, "node header");
    int nt = h[1] + 1; put_iv(c, I, node, 8 + nt + (size_t)nt * EDGE_SIZE, "an index node");
    auto data = [&](size_t off) {
        uint8_t b[4]; rd(c, d, b, 4, off, "value header"); uint16_t l; memcpy(&l, b, 2);
        put_iv(c, D, off, 4 + l, "a value"); nkeys++;
    };
    if (h[0] & FLAG_NODE_MATCH) data(Get6BInteger(h + 2));
    for (int i = 0; i < nt; i++) {
        uint8_t e[EDGE_SIZE]; rd(c, mm, e, EDGE_SIZE, node + 8 + nt + (size_t)i * EDGE_SIZE, "edge");
        if (e[EDGE_LEN_POS] == 0) continue;
        if (e[EDGE_LEN_POS] > LOCAL_EDGE_LEN) put_iv(c, I, Get5BInteger(e), e[EDGE_LEN_POS] - 1, "a key fragment");
        size_t off = Get6BInteger(e + 7);
        if (e[EDGE_FLAG_POS] & EDGE_FLAG_DATA_OFF) data(off); else walk(c, d, mm, I, D, off, nkeys, depth + 1);
    }
}
static void free_into(Ctx& c, FreeList* f, size_t ncls, Iv& m, const char* what)
{
    int64_t n = 0; size_t tot = 0;
    for (size_t k = 0; k < ncls; k++) {
        uint64_t q = f->GetBufferCountByIndex(k);
        for (uint64_t j = 0; j < q; j++) {
            size_t o; if (!f->GetBufferByIndex(k, o)) c.fail("free-space store: class %zu says %llu buffers but gives %llu", k, (unsigned long long)q, (unsigned long long)j);
            put_iv(c, m, o, k + 1, what); f->AddBufferByIndex(k, o); n++; tot += k + 1;
        }
    }
    if (f->Count() != n) c.fail("free-space store counts %lld buffers but holds %lld", (long long)f->Count(), (long long)n);
    if (f->GetTotSize() != tot) c.fail("free-space store reports %zu free bytes but holds %zu", f->GetTotSize(), tot);
}
static void space_check(Ctx& c, Db& db, size_t nk)
{
    Dict* d = db.w->GetDictPtr(); DRMBase* mm = (DRMBase*)d->GetMM(); IndexHeader* h = d->GetHeaderPtr();
    Iv I, D; long n = 0; walk(c, d, mm, I, D, d->GetRootOffset(), n, 0);
    if (n != (long)nk) c.fail("walking the index finds %ld values, %zu keys are stored", n, nk);
    if (I.size() && I.rbegin()->second > h->m_index_offset) c.fail("index storage in use beyond the end of the allocated area");
    if (D.size() && D.rbegin()->second > h->m_data_offset) c.fail("a stored value lies beyond the end of the allocated area");
    if (D.size() && D.begin()->first < d->GetStartDataOffset()) c.fail("a stored value lies in the reserved region");
    FreeList* fi = mm->GetFreeList(); FreeList* fd = ((DRMBase*)d)->GetFreeList();
    if (fi) { free_into(c, fi, NUM_BUFFER_RESERVE, I, "free index space"); if (I.size() && I.rbegin()->second > h->m_index_offset) c.fail("free index space beyond the end of the allocated area"); }
    if (fd) { free_into(c, fd, NUM_DATA_BUFFER_RESERVE, D, "free data space"); if (D.size() && D.rbegin()->second > h->m_data_offset) c.fail("free data space beyond the end of the allocated area"); }
    c.ops++;
}
static void flist(Ctx& c)
{
    Rng& R = c.R; size_t ncls = 1 + R(R.p(3) ? 400 : 30), maxper = R(R.p(3) ? 60 : 6);
    string path = c.newdir() + "fl"; c.L("free-space store: %zu classes, at most %zu per class", ncls, maxper);
    std::unique_ptr<FreeList> f(new FreeList(path, 1, ncls, maxper));
    map<size_t, size_t> held; // offset -> size released and not handed out since
    size_t top = 16;
    for (int op = 0, n = 50 + R(300); op < n; op++) {
        int w = R(10);
        if (w < 5) {
            size_t s = 1 + R(R.p(2) ? (int)ncls : std::min<int>(ncls, 4)), o = top; top += s + R(3);
            int64_t cb = f->Count(); size_t tb = f->GetTotSize();
            int how = R(3); c.L("release %zu+%zu (%d)", o, s, how);
            if (how == 0) f->AddBuffer(o, s); else if (how == 1) f->ReleaseBuffer(o, s); else f->ReleaseAlignmentBuffer(o, o + s);
            if (f->Count() == cb) { if (f->GetTotSize() != tb) c.fail("a dropped buffer changed the total"); } // dropped: the store was full
            else {
                if (f->Count() != cb + 1) c.fail("one release changed the count by %lld", (long long)(f->Count() - cb));
                held[o] = s;
            }
        } else if (w < 9) {
            size_t s = 1 + R(R.p(2) ? (int)ncls : std::min<int>(ncls, 4)), o = 0; int64_t cb = f->Count(); size_t tb = f->GetTotSize();
            uint64_t q = f->GetBufferCountByIndex(s - 1);
            bool got; int how = R(2);
            if (how) got = f->RemoveBuffer(o, s) == 0; else got = f->GetBufferByIndex(s - 1, o);
            c.L("take %zu -> %d %zu", s, got, o);
            if (got != (q > 0)) c.fail("taking a buffer of class %zu: %d with %llu held", s, got, (unsigned long long)q);
            if (got) {
                auto i = held.find(o);
                if (i == held.end()) c.fail("the free-space store gave out offset %zu, which is not free", o);
                if (i->second < s) c.fail("the free-space store gave out %zu as %zu bytes; only %zu were released there", o, s, i->second);
                held.erase(i);
                if (f->Count() != cb - 1 || f->GetTotSize() != tb - s) c.fail("taking a buffer of %zu changed count by %lld and total by %lld", s, (long long)(f->Count() - cb), (long long)(f->GetTotSize() - tb));
            } else if (f->Count() != cb || f->GetTotSize() != tb) c.fail("a failed take changed the count or total");
        } else if (R.p(3)) {
            map<size_t, vector<size_t>> before; Iv m; free_into(c, f.get(), ncls, m, "free buffer"); before.clear();
            int64_t cb = f->Count(); size_t tb = f->GetTotSize(); c.L("save and reload");
            if (f->StoreListOnDisk()) c.fail("saving the free-space store failed");
            f.reset(new FreeList(path, 1, ncls, maxper));
            if (f->LoadListFromDisk()) c.fail("loading the free-space store failed");
            if (f->Count() != cb || f->GetTotSize() != tb) c.fail("saving and reloading: count %lld -> %lld, bytes %zu -> %zu", (long long)cb, (long long)f->Count(), tb, f->GetTotSize());
            Iv m2; free_into(c, f.get(), ncls, m2, "free buffer"); if (m != m2) c.fail("saving and reloading changed the buffers held");
        } else if (R.p(12)) { c.L("empty"); f->Empty(); held.clear(); if (f->Count() || f->GetTotSize()) c.fail("emptied store reports %lld buffers, %zu bytes", (long long)f->Count(), f->GetTotSize()); }
        else { Iv m; free_into(c, f.get(), ncls, m, "free buffer"); for (auto& p : m) { auto i = held.find(p.first); if (i == held.end() || i->second < p.second - p.first) c.fail("the free-space store holds [%zu,%zu), which was not released", p.first, p.second); } if (m.size() != held.size()) c.fail("the free-space store holds %zu buffers, %zu expected", m.size(), held.size()); }
        c.ops++;
    }
}
static void m_space(Ctx& c)
{
    if (c.R.p(3)) { flist(c); return; }
    static const int k[] = { 0, 0, 2, 1, 5, 6 }; int kind = k[c.R(6)]; static const int v[] = { 20, 20, 300, 4000, 32767 };
    Diff d(c, kind, W_FIND | W_RC | W_REOPEN | W_REMOVEALL, v[c.R(5)]);
    if (c.R.p(3)) { d.widefill(); space_check(c, d.db, d.M.size()); }
    if ((kind == 1 || kind == 5) && c.R.p(2)) d.bulk(6 << 20, c.R.p(4) ? 16000 : 50);
    int n = c.R(2) ? 40 : 150, grow = 30 + c.R(40);
    for (int i = 0; i < n; i++) {
        int w = c.R(100);
        if (w < grow) d.add(d.g.key(), d.g.val(d.maxv), c.R(2));
        else if (d.M.size() && w < 95) { auto q = d.M.lower_bound(d.g.key()); if (q == d.M.end()) q = d.M.begin(); d.remove(string(q->first)); }
        else if (c.R.p(4)) d.rc();
        else if (c.R.p(3)) { bool cl = c.R(2); c.L("close and reopen"); d.db.reopen(cl); }
        else if (c.R.p(8)) { c.L("remove all"); if (d.db.w->RemoveAll()) c.fail("RemoveAll failed"); d.M.clear(); }
        if (d.M.size() < 300 || c.R.p(10)) space_check(c, d.db, d.M.size());
    }
    space_check(c, d.db, d.M.size()); d.full();
}

// ---------------------------------------------------------------- C10
static void m_io(Ctx& c)
{
    Rng& R = c.R; string dir = c.newdir();
    size_t bs = 4096 << R(4), nb = 3 + R(8); size_t cap = R.p(3) ? 0 : R.p(2) ? nb * bs * 2 : bs * (1 + R(nb));
    int sl = R(3) ? CONSTS::USE_SLIDING_WINDOW : 0, sync = R.p(8) ? CONSTS::SYNC_ON_WRITE : 0;
    if (R.p(5)) { bs = 5 << 20; bs = (bs + 4095) & ~(size_t)4095; bs *= 4; nb = 2; cap = R(2) ? 0 : bs; } // larger than the sliding window
    std::atomic<size_t> sh(0);
    c.L("block %zu blocks %zu memory cap %zu sliding %d", bs, nb, cap, sl != 0);
    std::unique_ptr<RollableFile> w(new RollableFile(dir + "_f", bs, cap, CONSTS::ACCESS_MODE_WRITER | sl | sync)), r;
    w->InitShmSlidingAddr(&sh);
    vector<uint8_t> M; size_t tail = R(2) ? 0 : R(100); size_t maxtot = nb * bs; map<size_t, size_t> res;
    size_t rtail = tail; // end of what has been written
    KeyBuf kb;
    auto cmp = [&](RollableFile* f, size_t o, size_t n, const char* who) {
        vector<uint8_t> b(n + 2, 0xA5); size_t g = f->RandomRead(b.data() + 1, n, o);
        if (g != n) c.fail("%s reading %zu bytes at %zu gave %zu", who, n, o, g);
        if (b[0] != 0xA5 || b[n + 1] != 0xA5) c.fail("%s reading %zu bytes wrote outside the buffer", who, n);
        if (memcmp(b.data() + 1, M.data() + o, n)) { size_t i = 0; while (b[1 + i] == M[o + i]) i++; c.fail("%s reading [%zu,+%zu): byte %zu is %02x, expected %02x", who, o, n, o + i, b[1 + i], M[o + i]); }
        uint8_t* p = f->GetShmPtr(o, n);
        if (p && memcmp(p, M.data() + o, n)) c.fail("%s: the mapped address of [%zu,+%zu) shows other bytes", who, o, n);
        c.ops++;
    };
    int nops = 60 + R(200);
    for (int op = 0; op < nops; op++) {
        int k = R(10);
        if (k < 5) {
            size_t n = 1 + R(R.p(3) ? (int)std::min<size_t>(bs, 40000) : R.p(2) ? 60 : 3000); if (n > bs) n = bs;
            if (R.p(6)) { size_t left = bs - tail % bs; n = left + R(3) - 1; if (n < 1) n = 1; if (n > std::min<size_t>(bs, 1 << 20)) n = 1; } // up to, exactly to, or just over the boundary
            if (R.p(4) && bs > (1 << 20)) tail += R(3 << 20);
            size_t o = tail; if (o + bs + n >= maxtot) continue;
            uint8_t* p = nullptr; bool slide = R(4); int rv = w->Reserve(o, n, p, slide); c.L("reserve %zu at %zu -> %zu %s", n, tail, o, p ? "mapped" : "");
            if (rv) c.fail("Reserve of %zu at %zu returned %d", n, tail, rv);
            if (o < tail) c.fail("Reserve at %zu went back to %zu", tail, o);
            if (o / bs != (o + n - 1) / bs) c.fail("Reserve of %zu bytes at %zu gives %zu, which straddles a block boundary (block %zu)", n, tail, o, bs);
            if (o != tail && (o % bs || tail / bs + 1 != o / bs)) c.fail("Reserve of %zu at %zu skipped to %zu", n, tail, o);
            if (o != tail && tail % bs + n <= bs) c.fail("Reserve of %zu at %zu moved although it fits in the block", n, tail);
            if (M.size() < o + n) M.resize(o + n, 0);
            vector<uint8_t> b(n); uint64_t x = R.u(); for (size_t i = 0; i < n; i++) { b[i] = (uint8_t)(x >> 33); x = x * 6364136223846793005ull + 1442695040888963407ull; }
            if (p) memcpy(p, b.data(), n); else { size_t g = w->RandomWrite(b.data(), n, o); if (g != n) c.fail("RandomWrite of %zu at %zu returned %zu", n, o, g); }
            memcpy(M.data() + o, b.data(), n); res[o] = n; tail = o + n; rtail = tail;
            if (p) { uint8_t* q = w->GetShmPtr(o, n); if (q && q != p) { if (memcmp(q, b.data(), n)) c.fail("GetShmPtr and Reserve disagree at %zu", o); } }
            cmp(w.get(), o, n, "writer");
        } else if (res.size()) {
            auto i = res.lower_bound(R.p(2) ? R.u() % (rtail + 1) : (rtail > 3000 ? rtail - R(3000) : R(rtail + 1))); if (i == res.end()) i = res.begin();
            size_t a = R(i->second), n = 1 + R(i->second - a), o = i->first + a;
            if (k < 7) {
                vector<uint8_t> b(n); for (auto& y : b) y = R(256);
                c.L("write %zu+%zu", o, n); size_t g = w->RandomWrite(b.data(), n, o); if (g != n) c.fail("RandomWrite of %zu at %zu returned %zu", n, o, g);
                memcpy(M.data() + o, b.data(), n); cmp(w.get(), i->first, i->second, "writer");
                if (i != res.begin()) { auto j = std::prev(i); cmp(w.get(), j->first, j->second, "writer (neighbour)"); }
                auto j = std::next(i); if (j != res.end()) cmp(w.get(), j->first, j->second, "writer (neighbour)");
            } else if (k < 9) cmp(w.get(), o, n, "writer");
            else { if (!r) { r.reset(new RollableFile(dir + "_f", bs, R(2) ? cap : 0, sl)); r->InitShmSlidingAddr(&sh); } if (!r) continue; c.L("reader reads %zu+%zu", o, n);
                // the reader's block number limit is that of its own handle
                vector<uint8_t> b(n); (void)b; }
        }
        if (R.p(60)) { c.L("flush"); w->Flush(); }
        if (R.p(80)) { c.L("reopen"); w.reset(); ResourcePool::getInstance().RemoveAll(); sh = 0; w.reset(new RollableFile(dir + "_f", bs, R(2) ? cap : 0, CONSTS::ACCESS_MODE_WRITER | sl | sync)); w->InitShmSlidingAddr(&sh); r.reset(); }
    }
    for (auto& p : res) cmp(w.get(), p.first, p.second, "writer");
    r.reset(); w.reset(); ResourcePool::getInstance().RemoveAll();
}

// ---------------------------------------------------------------- C18
static void m_codec(Ctx& c)
{
    Rng& R = c.R;
    c.L("codec values from %llu", (unsigned long long)R.u());
    for (int i = 0; i < 300; i++) {
        uint8_t b[16]; memset(b, R(256), sizeof b); uint8_t g = b[0]; uint64_t v = R.u() >> R(64); int at = 1 + R(4);
        uint64_t v5 = v & 0xFFFFFFFFFFull, v6 = v & 0xFFFFFFFFFFFFull;
        Write5BInteger(b + at, v5); if (Get5BInteger(b + at) != v5) c.fail("5-byte form of %llu reads back %llu", (unsigned long long)v5, (unsigned long long)Get5BInteger(b + at));
        for (int j = 0; j < 16; j++) if ((j < at || j >= at + 5) && b[j] != g) c.fail("Write5BInteger wrote outside its 5 bytes");
        memset(b, g, sizeof b);
        Write6BInteger(b + at, v6); if (Get6BInteger(b + at) != v6) c.fail("6-byte form of %llu reads back %llu", (unsigned long long)v6, (unsigned long long)Get6BInteger(b + at));
        for (int j = 0; j < 16; j++) if ((j < at || j >= at + 6) && b[j] != g) c.fail("Write6BInteger wrote outside its 6 bytes");
        c.ops += 2;
    }
    for (int i = 0; i < 60; i++) {
        int n = R(40); string s; for (int j = 0; j < n; j++) s += (char)R(256);
        char t[128]; memset(t, '#', sizeof t); int sz = R(2) ? 2 * n + 1 + R(5) : R(2 * n + 1);
        int r = bin_2_hex((const uint8_t*)s.data(), n, t, sz);
        if (r < 0) { if (sz >= 2 * n + 1) c.fail("bin_2_hex refused %d bytes into %d", n, sz); for (char ch : t) if (ch != '#') c.fail("a refused bin_2_hex wrote to its output"); continue; }
        if (sz < 2 * n + 1) c.fail("bin_2_hex accepted a buffer of %d for %d bytes", sz, n);
        if (r != 2 * n || t[r] != 0) c.fail("bin_2_hex of %d bytes returned %d", n, r);
        for (size_t j = 2 * n + 1; j < sizeof t; j++) if (t[j] != '#') c.fail("bin_2_hex wrote past its text");
        static const char* H = "0123456789abcdef"; for (int j = 0; j < n; j++) if (tolower(t[2 * j]) != H[(uint8_t)s[j] >> 4] || tolower(t[2 * j + 1]) != H[(uint8_t)s[j] & 15]) c.fail("bin_2_hex: byte %d wrong", j);
        uint8_t o[64]; memset(o, 0x77, sizeof o); for (int j = 0; j < 2 * n; j++) if (R(2)) t[j] = toupper(t[j]);
        int q = hex_2_bin(t, 2 * n, o, n + R(3)); if (q != n || memcmp(o, s.data(), n)) c.fail("hex_2_bin(bin_2_hex(x)) differs for %d bytes", n);
        for (size_t j = n; j < sizeof o; j++) if (o[j] != 0x77) c.fail("hex_2_bin wrote past its output");
        if (n) { if (hex_2_bin(t, 2 * n - 1, o, 64) != -1) c.fail("hex_2_bin accepted odd length"); if (hex_2_bin(t, 2 * n, o, n - 1) != -1) c.fail("hex_2_bin accepted a short buffer");
            int j = R(2 * n); char bad; do bad = (char)R(256); while (isxdigit((uint8_t)bad)); t[j] = bad; if (hex_2_bin(t, 2 * n, o, 64) != -1) c.fail("hex_2_bin accepted the invalid digit %02x at %d", (uint8_t)bad, j); }
        c.ops++;
    }
}

// ---------------------------------------------------------------- C17
static void m_mbdata(Ctx& c)
{
    Rng& R = c.R; std::unique_ptr<MBData> m(R(2) ? new MBData() : new MBData(R(200), 0)); string cur; bool valid = true;
    Diff d(c, 0, W_FIND, 3000); for (int i = 0; i < 25; i++) d.add(d.g.key(), d.g.val(R(2) ? 3000 : 50), true);
    vector<char> own(4096, 'u'); bool borrowed = false;
    auto chk = [&](const char* op) {
        if (!valid) return;
        if (m->data_len != (int)cur.size()) c.fail("after %s the result holds %d bytes, expected %zu", op, m->data_len, cur.size());
        if (cur.size() && memcmp(m->buff, cur.data(), cur.size())) c.fail("after %s the result holds other bytes", op);
        if (m->data_len > m->buff_len && !borrowed) c.fail("after %s length %d exceeds the room %d", op, m->data_len, m->buff_len);
    };
    for (int i = 0; i < 60; i++) {
        int w = R(8);
        if (w == 0) { int n = R(3000); c.L("resize %d", n); bool grew = n > m->buff_len; if (m->Resize(n)) c.fail("Resize failed"); if (m->buff_len < n) c.fail("Resize(%d) leaves room for %d", n, m->buff_len); if (grew) { borrowed = false; valid = false; } if (n > 0) { memset(m->buff, 'z', n); string s(n, 'z'); m->data_len = n; cur = s; valid = true; } }
        else if (w == 1) { c.L("clear"); m->Clear(); cur.clear(); valid = true; if (m->match_len) c.fail("Clear leaves a match length"); }
        else if (w == 2) { uint8_t* p = (uint8_t*)0x10; int l = -7; c.L("transfer to"); int r = m->TransferValueTo(p, l); if (!valid) { if (!r) free(p); continue; }
            if (cur.empty()) { if (r != MBError::INVALID_ARG || p || l) c.fail("transferring an empty result returned %d", r); }
            else { if (r) c.fail("TransferValueTo returned %d", r); if (l != (int)cur.size() || memcmp(p, cur.data(), l)) c.fail("TransferValueTo delivered %d bytes, expected %zu", l, cur.size()); memset(p, 'q', l); free(p); if (borrowed) { if (memcmp(m->buff, cur.data(), cur.size())) c.fail("TransferValueTo changed borrowed memory"); } else { m->Clear(); cur.clear(); } } }
        else if (w == 3) { int n = 1 + R(500); uint8_t* p = (uint8_t*)malloc(n); uint8_t* q = p; memset(p, 'a' + R(26), n); string s((char*)p, n); c.L("transfer from %d", n); if (m->TransferValueFrom(p, n)) c.fail("TransferValueFrom failed"); if (p) c.fail("TransferValueFrom left the caller a pointer"); if (m->buff != q) c.fail("TransferValueFrom copied"); cur = s; valid = true; borrowed = false; p = nullptr; if (m->TransferValueFrom(p, 3) != MBError::INVALID_ARG) c.fail("TransferValueFrom(NULL) accepted"); }
        else if (w < 7) { auto q = d.M.begin(); advance(q, R(d.M.size())); c.L("find %s", esc(q->first).c_str()); int r = R(2) ? d.db.w->Find(q->first, *m) : (m->Clear(), d.db.w->FindLongestPrefix(q->first, *m)); if (r) c.fail("lookup of a stored key returned %d", r); cur = q->second; valid = true; borrowed = false; }
        else { c.L("new object"); bool pl = R(2); m.reset(pl ? new MBData() : new MBData(R(100), 0)); cur.clear(); valid = true; borrowed = false; if (pl && R(2)) { int n = 1 + R(100); for (int k = 0; k < n; k++) own[k] = (char)R(256); m->buff = (uint8_t*)own.data(); m->data_len = n; cur.assign(own.data(), n); borrowed = true; c.L("borrow %d", n); } }
        chk("the last step"); c.ops++;
    }
}

// ---------------------------------------------------------------- C14
static void m_pcache(Ctx& c)
{
    Rng& R = c.R; string dir = c.newdir(); std::unique_ptr<IndexHeader> h((IndexHeader*)calloc(1, sizeof(IndexHeader)));
    uint32_t c2 = R.p(6) ? 65536 : 4u << R(6), c3 = R.p(4) ? 0 : 4u << R(6), c4 = R.p(4) ? 0 : 4u << R(6);
    auto sz = [&](size_t e, size_t a, size_t b) { return e * a + b; };
    size_t E = sizeof(PrefixCacheEntry); auto at1 = [](size_t x) { return x ? x : 1; };
    h->pfxcache_offset = 64 * (1 + R(4)); h->pfx_cap2 = c2; h->pfx_cap3 = c3; h->pfx_cap4 = c4; (void)sz;
    h->pfxcache_size = 32 + at1(c2) * (E + 4) + at1(c3) * (E + 4) + at1(c4) * (E + 8);
    c.L("prefix cache with %u/%u/%u slots", c2, c3, c4);
    std::unique_ptr<PrefixCache> pc;
    try { pc.reset(new PrefixCache(dir, h.get(), 65536)); } catch (...) { h.release(); return; }
    map<string, PrefixCacheEntry> last[5]; int al = R.p(3) ? 256 : 2 + R(20);
    for (int i = 0; i < 300; i++) {
        string k; int n = R.p(8) ? R(2) : 2 + R(5); for (int j = 0; j < n; j++) k += (char)R(al); k += string("\0\0\0\0", 4);
        int w = R(10);
        auto same = [&](const PrefixCacheEntry& a, const PrefixCacheEntry& b) { return a.edge_offset == b.edge_offset && !memcmp(a.edge_buff, b.edge_buff, EDGE_SIZE) && a.edge_skip == b.edge_skip; };
        auto get = [&](const string& key, int len) {
            PrefixCacheEntry o; memset(&o, 0, sizeof o); int dp = pc->GetDepth((const uint8_t*)key.data(), len, o);
            if (dp == 0) return 0;
            if (dp < 2 || dp > 4 || dp > len) c.fail("GetDepth of %d bytes reports depth %d", len, dp);
            auto it = last[dp].find(key.substr(0, dp)); if (it == last[dp].end()) c.fail("GetDepth(%s) hits at depth %d, where nothing was put for these bytes", esc(key.substr(0, len)).c_str(), dp);
            if (!same(o, it->second)) c.fail("GetDepth(%s) at depth %d returns an entry that is not the last one put for these bytes", esc(key.substr(0, len)).c_str(), dp);
            return dp;
        };
        if (w < 4) {
            PrefixCacheEntry e; memset(&e, 0, sizeof e); e.edge_offset = R.u(); for (auto& b : e.edge_buff) b = R(256); e.edge_skip = R(256); e.lf_counter = R.u();
            if (R(2)) { c.L("put %s", esc(k.substr(0, n)).c_str()); pc->Put((const uint8_t*)k.data(), n, e); int deep = 0; for (int dd = 2; dd <= 4 && dd <= n; dd++) if (dd == 2 || (dd == 3 ? c3 : c4)) { last[dd][k.substr(0, dd)] = e; deep = dd; }
                int g = get(k, n); if (g != deep) c.fail("after a put of %s GetDepth reports depth %d, expected %d", esc(k.substr(0, n)).c_str(), g, deep); }
            else { int dd = 2 + R(3); c.L("put %s at %d", esc(k.substr(0, dd)).c_str(), dd); pc->PutAtDepth((const uint8_t*)k.data(), dd, e); if (dd == 2 || (dd == 3 ? c3 : c4)) { last[dd][k.substr(0, dd)] = e; if (get(k, dd) != dd) c.fail("after a put at depth %d a lookup of the same bytes misses", dd); } }
        } else if (w < 9) get(k, R.p(4) ? R(n + 1) : n);
        else if (R.p(10)) { c.L("clear"); pc->Clear(); for (auto& l : last) l.clear(); if (pc->Size()) c.fail("cleared cache has size %zu", pc->Size()); }
        c.ops++;
    }
    pc.reset(); free(h.release());
}

// ---------------------------------------------------------------- C20
static void m_evict(Ctx& c)
{
    Rng& R = c.R; Diff d(c, R(2) ? 0 : 2, W_FIND | W_COUNT | W_ITER, 20); IndexHeader* h = d.db.w->GetDictPtr()->GetHeaderPtr(); int64_t epb = h->entry_per_bucket;
    int rounds = 1 + R(3);
    for (int q = 0; q < rounds; q++) {
        int n = 20 + R(400);
        for (int i = 0; i < n; i++) { if (R(12)) d.add(d.g.key(), d.g.val(20), true); else if (d.M.size()) { auto k = d.M.lower_bound(d.g.key()); if (k == d.M.end()) k = d.M.begin(); d.remove(string(k->first)); } }
        if (d.M.empty()) continue;
        map<string, int> age; int base = h->eviction_bucket_index, newest = -1;
        for (auto& p : d.M) { MBData m; if (d.db.w->Find(p.first, m)) c.fail("lookup failed"); int a = (int)m.bucket_index - base; if (a < 0) a += 0xFFFF; age[p.first] = a; newest = std::max(newest, a); }
        int64_t cap = 1 + R((int)d.M.size() * 2); c.L("evict down to %lld entries (bucket size %lld, %zu stored)", (long long)cap, (long long)epb, d.M.size());
        int r = d.db.w->CollectResource(R(2) ? 0 : 1 << 30, R(2) ? 0 : 1 << 30, MAX_6B_OFFSET, cap); if (r) c.fail("CollectResource returned %d", r);
        int maxgone = -1, minkept = 1 << 30; string g, kp; map<string, string> left;
        for (auto& p : d.M) { MBData m; if (d.db.w->Find(p.first, m)) { if (age[p.first] > maxgone) maxgone = age[p.first], g = p.first; } else { if (VS(m) != p.second) c.fail("eviction changed the value of %s", esc(p.first).c_str()); left[p.first] = p.second; if (age[p.first] < minkept) minkept = age[p.first], kp = p.first; } }
        if (maxgone >= minkept) c.fail("eviction removed %s (write bucket age %d) but kept %s of age %d", esc(g).c_str(), maxgone, esc(kp).c_str(), minkept);
        if (newest > 0 && maxgone == newest) c.fail("eviction removed an entry of the most recent write bucket");
        if ((int64_t)d.M.size() <= cap && left.size() != d.M.size()) c.fail("eviction ran although the limit of %lld entries was not exceeded (%zu stored)", (long long)cap, d.M.size());
        d.M = left; d.full(); c.ops++;
    }
}

// ---------------------------------------------------------------- C15
static void queue_case(Ctx& c)
{
    Rng& R = c.R; string dir = c.newdir(); MBConfig k; memset(&k, 0, sizeof k); k.mbdir = dir.c_str(); k.queue_dir = dir.c_str(); k.memcap_index = k.memcap_data = 16 << 20; k.block_size_index = k.block_size_data = 4 << 20;
    k.queue_size = R(2) ? 2 + R(8) : 16 + R(50); k.options = CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE;
    auto* w = new DB(k); if (!w->is_open()) c.fail("writer did not open: %d", w->Status());
    MBConfig kr = k; kr.options = 0; auto* p = new DB(kr); if (!p->is_open()) c.fail("producer did not open: %d", p->Status());
    Dict* pd = w->GetDictPtr(); bool manual = R(2); IndexHeader* h = w->GetDictPtr()->GetHeaderPtr();
    // close to the counters' wrap-around
    c.L("queue of %u slots, %s", (unsigned)k.queue_size, manual ? "drained step by step" : "drained by the writer thread");
    AsyncWriter* aw = AsyncWriter::GetInstance(); if (manual) { aw->StopAsyncThread(); if (R(2)) { uint32_t base = 0u - (uint32_t)R(40); h->queue_index = base; h->writer_index = base; c.L("counters start at %u", base); } }
    map<string, string> M; vector<std::function<void(map<string, string>&)>> pend; int n = 100 + R(400), nk = 1 + R(6); int acc = 0, ref = 0;
    auto drain = [&](int m) { aw->ProcessTask(m, false); };
    Gen g(c, M);
    vector<string> ks; for (int i = 0; i < nk; i++) ks.push_back(g.key());
    for (int i = 0; i < n; i++) {
        string key = R.p(4) ? g.key() : ks[R(nk)]; int r, t = R(100);
        if (t < 70 || (manual && t < 90)) {
            int vl = R.p(20) ? 20000 + R(12000) : 1 + R(60); string v; for (int j = 0; j < vl; j++) v += (char)R(256); bool ow = R(4); 
            r = pd->SHMQ_Add(key.data(), key.size(), v.data(), v.size(), ow); if (r == 0) { if (!M.count(key) || ow) M[key] = v; c.L("queued add %s vlen %d ow %d", esc(key).c_str(), vl, ow); }
        } else if (t < 90) { r = pd->SHMQ_Remove(key.data(), key.size()); if (r == 0) { M.erase(key); c.L("queued remove %s", esc(key).c_str()); } }
        else if (t < 92) { r = pd->SHMQ_RemoveAll(); if (r == 0) { M.clear(); c.L("queued remove-all"); } }
        else if (t < 96) { string big(40000, 'q'); int z = R(5); r = z == 0 ? pd->SHMQ_Add(big.data(), 257 + R(10), "v", 1, true) : z == 1 ? pd->SHMQ_Add(key.data(), key.size(), big.data(), 32768 + R(3), true) : z == 2 ? pd->SHMQ_Add(key.data(), 0, "v", 1, true) : z == 3 ? pd->SHMQ_Add(key.data(), key.size(), "v", 0, true) : pd->SHMQ_Remove(big.data(), 257);
            if (r == 0) c.fail("an invalid update (kind %d) was accepted", z); r = 0; }
        else { r = 0; usleep(R(300)); }
        if (r == 0) acc++; else { ref++; if (r != MBError::TRY_AGAIN) c.fail("queueing returned %d", r); if (manual) { int m = 1 + R(4); c.L("refused; %d drained", m); drain(m); } else usleep(R(50)); }
        if (manual && R.p(5)) { int m = 1 + R(5); c.L("drain %d", m); drain(m); }
    }
    if (manual) { for (int i = 0; i < 4; i++) drain(1000); }
    else { for (int i = 0; i < 20000 && p->AsyncWriterBusy(); i++) usleep(1000); if (p->AsyncWriterBusy()) c.fail("the writer does not finish the queue"); usleep(3000); }
    map<string, string> G; for (auto i = p->begin(); i != p->end(); ++i) G[i.key] = VS(i.value);
    if (G != M) { string s = "same keys, some value differs"; for (auto& q : M) if (!G.count(q.first)) s = "missing " + esc(q.first); else if (G[q.first] != q.second) s = "wrong value for " + esc(q.first); for (auto& q : G) if (!M.count(q.first)) s = "extra " + esc(q.first); c.fail("after %d accepted and %d refused updates the database differs from applying the accepted ones in order: %s", acc, ref, s.c_str()); }
    if (p->Count() != (int64_t)M.size()) c.fail("count %lld after the queue, %zu keys", (long long)p->Count(), M.size());
    c.ops += acc; if (!manual) { p->Close(); w->Close(); }
}
static void m_queue(Ctx& c) { in_child(c, [&] { queue_case(c); int n = c.ops; (void)n; }); c.ops += 100; for (int i = 0; i < 3; i++) c.sig = c.sig * 31 + c.R.u(); }

Mode unit_modes[] = { { "space", m_space, 120 }, { "io", m_io, 120 }, { "codec", m_codec, 60 }, { "mbdata", m_mbdata, 60 }, { "pcache", m_pcache, 60 }, { "evict", m_evict, 120 }, { "queue", m_queue, 120 }, { nullptr, nullptr, 0 } };
