#include "diff.h"
static int kinds_basic(Ctx& c) { static const int k[] = { 0, 0, 0, 0, 2, 3, 4, 6 }; return k[c.R(8)]; }
static int vsz(Ctx& c) { static const int v[] = { 20, 20, 20, 300, 4000, 32767 }; return v[c.R(6)]; }
static int nops(Ctx& c) { return c.R(2) ? 40 : 200; }

static void m_lookup(Ctx& c) { Diff d(c, kinds_basic(c), W_FIND | W_READER | W_OFFSET | W_REMOVEALL, vsz(c)); if (c.R.p(6)) d.widefill(); d.run(nops(c), 50, 20, 2); }
static void m_insert(Ctx& c) { Diff d(c, kinds_basic(c), W_FIND | W_COUNT | W_DEEP, vsz(c)); int n = nops(c); for (int i = 0; i < n; i++) { d.add(d.g.key(), d.g.val(d.maxv), c.R(2)); if (c.R.p(12)) d.remove(d.g.key()); if (n < 100 || c.R.p(10)) d.full(); else d.queries(1); } d.full(); }
static void m_remove(Ctx& c)
{
    Diff d(c, kinds_basic(c), W_FIND | W_ITER | W_COUNT, vsz(c)); int n = nops(c);
    if (c.R.p(6)) {
        d.widefill(); vector<string> ks; for (auto& p : d.M) if (p.first.compare(0, d.wide_pre.size(), d.wide_pre) == 0) ks.push_back(p.first);
        for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[c.R(i)]);
        int m = c.R(3) ? c.R(20) : (int)ks.size(); for (int i = 0; i < m && i < (int)ks.size(); i++) { d.remove(ks[i]); if (i < 8) d.full(); }
        d.full(); n = 30;
    }
    for (int rep = 0; rep < 2; rep++) {
        for (int i = 0; i < n; i++) d.add(d.g.key(), d.g.val(d.maxv), c.R(2));
        vector<string> ks; for (auto& p : d.M) ks.push_back(p.first);
        for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[c.R(i)]);
        int keep = c.R(3) ? c.R(ks.size() + 1) : 0;
        for (size_t i = keep; i < ks.size(); i++) { if (c.R.p(4)) d.remove(d.g.key()); d.remove(ks[i]); if (ks.size() < 60 || c.R.p(12)) d.full(); d.queries(1); if (c.R.p(10)) d.add(d.g.key(), d.g.val(d.maxv), c.R(2)); }
        d.full();
    }
}
static void m_prefix(Ctx& c) { Diff d(c, kinds_basic(c), W_PREFIX | W_READER, vsz(c)); if (c.R.p(6)) d.widefill();  d.run(nops(c), 50, 15, 3); }
static void m_lower(Ctx& c) { static const int k[] = { 0, 0, 2, 3, 4 }; Diff d(c, k[c.R(5)], W_LOWER | W_READER, vsz(c)); if (c.R.p(6)) d.widefill(); d.run(nops(c), 50, 15, 3); }
static void m_iter(Ctx& c) { Diff d(c, kinds_basic(c), W_ITER | W_READER, vsz(c)); if (c.R.p(6)) d.widefill(); d.run(nops(c), 60, 15, 0); for (int i = 0; i < 6; i++) { string k = d.g.key(); k.resize(std::min<size_t>(k.size(), 1 + c.R(8))); d.iterate(&k); } }
static void m_count(Ctx& c) { static const int k[] = { 0, 0, 2, 4 }; Diff d(c, k[c.R(4)], W_COUNT | W_READER | W_REOPEN | W_RC | W_REMOVEALL | W_REJECT, vsz(c)); d.run(nops(c), 50, 30, 0); }
static void m_reject(Ctx& c) { Diff d(c, kinds_basic(c), W_REJECT | W_ITER, vsz(c)); d.run(nops(c), 30, 10, 0); }
static void m_rc(Ctx& c)
{
    static const int k[] = { 0, 0, 2, 1, 5 }; int kind = k[c.R(5)];
    Diff d(c, kind, W_FIND | W_RC | W_ITER | W_COUNT | W_PREFIX, vsz(c));
    if (kind == 1 || kind == 5 || c.R.p(10)) d.bulk(kind == 2 || kind == 0 ? 3 << 20 : 7 << 20, c.R.p(4) ? 15000 : 100);
    d.run(nops(c), 45, 25, 1);
    d.rc(); d.full(); d.run(20, 50, 20, 1);
}
static void m_reopen(Ctx& c) { static const int k[] = { 0, 0, 2, 1, 5, 6 }; int kind = k[c.R(6)]; Diff d(c, kind, W_FIND | W_REOPEN | W_ITER | W_COUNT | W_PREFIX, vsz(c)); if ((kind == 1 || kind == 5) && c.R.p(3)) d.bulk(7 << 20, 100); d.run(nops(c), 50, 25, 1); c.L("close and reopen"); d.db.reopen(true); d.full(); d.run(20, 50, 20, 1); }
// Same history whatever the memory cap, block size or allocator.
static void m_config(Ctx& c)
{
    static const int k[] = { 1, 5, 2, 3, 1, 5 }; int kind = k[c.R(6)];
    Diff d(c, kind, W_FIND | W_PREFIX | W_ITER | W_READER | W_OFFSET, 32767);
    bool idx = c.R.p(3);
    d.bulk(6 << 20, idx ? 16000 : 60);
    d.run(idx ? 60 : 200, 50, 25, 1);
}
static void m_backup(Ctx& c) { static const int k[] = { 0, 2, 1, 5 }; int kind = k[c.R(4)]; Diff d(c, kind, W_FIND | W_BACKUP, vsz(c)); if (kind == 1 || kind == 5) d.bulk(6 << 20, 50); d.run(60, 50, 25, 0); d.backup(); d.full(); }
#define DIFF_MODES { "lookup", m_lookup, 120 }, { "insert", m_insert, 120 }, { "remove", m_remove, 120 }, { "prefix", m_prefix, 120 }, { "lower", m_lower, 120 }, { "iter", m_iter, 120 }, { "count", m_count, 120 }, { "reject", m_reject, 120 }, { "rc", m_rc, 200 }, { "reopen", m_reopen, 200 }, { "config", m_config, 200 }, { "backup", m_backup, 200 }
Mode diff_modes[] = { DIFF_MODES, { nullptr, nullptr, 0 } };
