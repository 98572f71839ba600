// Differential harness: the real library against std::map, over random histories and configurations.
#pragma once
#include "common.h"
#include "mb_backup.h"
#include "mb_data.h"
#include <memory>

enum { W_FIND = 1, W_PREFIX = 2, W_LOWER = 4, W_ITER = 8, W_COUNT = 16, W_REJECT = 32, W_READER = 64, W_RC = 128, W_REOPEN = 256, W_OFFSET = 512, W_REMOVEALL = 1024, W_INDB = 2048, W_BACKUP = 4096, W_DEEP = 8192 };

struct Db {
    Ctx& c; MBConfig cfg; string d; std::unique_ptr<DB> w, r; int kind;
    string desc;
    Db(Ctx& c_, int kind_) : c(c_), kind(kind_)
    {
        d = c.newdir();
        memset(&cfg, 0, sizeof cfg);
        cfg.options = CONSTS::ACCESS_MODE_WRITER; cfg.queue_dir = d.c_str(); cfg.mbdir = d.c_str();
        cfg.memcap_index = cfg.memcap_data = 64 << 20;
        const uint32_t B = 4 << 20;
        if (kind == 1) { cfg.block_size_index = cfg.block_size_data = B; cfg.memcap_index = cfg.memcap_data = B; }
        if (kind == 2) { cfg.block_size_index = cfg.block_size_data = B; cfg.memcap_index = cfg.memcap_data = 40 * (size_t)B; }
        if (kind == 3) { cfg.block_size_index = cfg.block_size_data = B; cfg.max_num_index_block = cfg.max_num_data_block = 24; cfg.memcap_index = cfg.memcap_data = (size_t)B * 24; cfg.options |= CONSTS::OPTION_JEMALLOC; cfg.jemalloc_keep_db = true; }
        if (kind == 4) cfg.options |= CONSTS::MEMORY_ONLY_MODE;
        if (kind == 5) { cfg.block_size_index = B; cfg.block_size_data = 2 * B; cfg.memcap_index = 3 * B; cfg.memcap_data = 1 << 20; }
        if (kind == 6) cfg.options |= CONSTS::SYNC_ON_WRITE;
        int eb[] = { 0, 8, 9, 50 }; cfg.num_entry_per_bucket = eb[c.R(4)];
        desc = "config kind " + to_string(kind) + " bucket " + to_string(cfg.num_entry_per_bucket);
        open();
    }
    void open()
    {
        MBConfig k = cfg; k.mbdir = d.c_str(); k.queue_dir = d.c_str();
        w.reset(new DB(k));
        if (!w->is_open()) c.fail("database did not open: status %d", w->Status());
    }
    void reader()
    {
        if (r) return;
        MBConfig k = cfg; k.mbdir = d.c_str(); k.queue_dir = d.c_str();
        k.options = (k.options & ~CONSTS::ACCESS_MODE_WRITER);
        r.reset(new DB(k));
        if (!r->is_open()) c.fail("reader handle did not open: status %d", r->Status());
    }
    void close() { if (r) { r->Close(); r.reset(); } w->Close(); w.reset(); }
    void reopen(bool clear) { close(); if (clear) DB::ClearResources(d); open(); }
};

struct Gen {
    Ctx& c; map<string, string>& M; int al, maxl, wide, style; string pre;
    Gen(Ctx& c_, map<string, string>& m) : c(c_), M(m)
    {
        Rng& R = c.R;
        al = 1 + R(4); maxl = R.p(3) ? 40 : 6 + R(6); wide = R.p(4); style = R(8);
        if (style == 1) { maxl = 250; }                // long keys: chains of remote labels
        if (style == 2) { al = 2; maxl = 14; }         // dense binary trie
        if (style == 3) { int n = R(20); for (int i = 0; i < n; i++) pre += (char)R(256); } // shared prefix
        if (style == 4) { maxl = 3; wide = 1; }        // wide nodes
    }
    string key()
    {
        Rng& R = c.R; string k;
        if (style == 4) {
            k = pre; int n = 1 + R(3); for (int i = 0; i < n; i++) k += (char)(R.p(3) ? R(256) : (i == n - 1 ? R(256) : 'a'));
            if (R.p(5)) k += string(R(9), 'z');
            return k.substr(0, 255);
        }
        int l = 1 + R(maxl);
        if (R.p(3) && M.size()) {
            auto i = M.begin();
            string probe; for (int q = 0; q < 3; q++) probe += (char)(R.p(3) ? R(256) : 'a' + R(al));
            i = M.lower_bound(probe); if (i == M.end() || R.p(3)) { i = M.begin(); if (M.size() < 3000) advance(i, R(M.size())); }
            k = i->first; int m = R(3);
            if (m == 0) k = k.substr(0, 1 + R(k.size())); else if (m == 1) { } else k[R(k.size())] = wide && R.p(2) ? (char)R(256) : 'a' + R(al);
            int e = R(4); while (e-- > 0) k += 'a' + R(al);
        } else {
            k = pre; if (R(3)) k += string(1, 'a' + R(al));
            for (int i = 0; i < l; i++) k += wide && R(2) ? (char)R(256) : (char)('a' + R(al));
        }
        if (k.size() > 255) k.resize(R.p(2) ? 255 : 240 + R(16));
        return k;
    }
    string val(int maxv)
    {
        Rng& R = c.R; int n;
        switch (R(6)) { case 0: n = 1; break; case 1: n = 1 + R(8); break; case 2: n = maxv; break; case 3: n = 1 + R(maxv); break; default: n = 1 + R(maxv < 40 ? maxv : 40); }
        string v(n, 0); uint64_t x = R.u(); for (int i = 0; i < n; i++) { v[i] = (char)(x >> ((i & 7) * 8)); if ((i & 7) == 7) x = x * 6364136223846793005ull + 1442695040888963407ull; }
        return v;
    }
};
static string VS(const MBData& m) { return string((const char*)m.buff, m.data_len > 0 ? m.data_len : 0); }

struct Diff {
    Ctx& c; Db db; map<string, string> M; Gen g; int what; KeyBuf kb, kb2; std::unique_ptr<MBData> reuse;
    int maxv; bool limit256 = true;
    Diff(Ctx& c_, int kind, int what_, int mv) : c(c_), db(c_, kind), g(c_, M), what(what_), maxv(mv) { c.L("%s", db.desc.c_str()); }
    Rng& R() { return c.R; }
    DB& rd() { if ((what & W_READER) && db.kind != 4 && R().p(2)) { db.reader(); return *db.r; } return *db.w; }

    void add(const string& k, const string& v, bool ov)
    {
        int r; int how = R()(4);
        c.L("add %s len=%d vlen=%d vhash=%zx ow=%d", esc(k).c_str(), (int)k.size(), (int)v.size(), std::hash<string>()(v) & 0xffff, ov);
        if (how == 0) r = db.w->Add(k, v, ov);
        else if (how == 1) { MBData m; m.Resize(v.size() + R()(9)); memcpy(m.buff, v.data(), v.size()); m.data_len = v.size(); r = db.w->Add(k.data(), k.size(), m, ov); }
        else r = db.w->Add(kb.guarded(k), k.size(), v.data(), v.size(), ov);
        bool ex = M.count(k); int er = ex && !ov ? MBError::IN_DICT : 0;
        if (r != er) c.fail("Add(%s) returned %d, expected %d", esc(k).c_str(), r, er);
        if (!ex || ov) M[k] = v;
        c.ops++;
    }
    void remove(const string& k)
    {
        int r; c.L("remove %s", esc(k).c_str());
        if (R().p(2)) r = db.w->Remove(k); else r = db.w->Remove(kb.guarded(k), k.size());
        int er = M.count(k) ? 0 : MBError::NOT_EXIST;
        if (r != er) c.fail("Remove(%s) returned %d, expected %d", esc(k).c_str(), r, er);
        M.erase(k); c.ops++;
    }
    MBData& data(MBData& fresh) { if (reuse && R().p(3)) { if (R().p(2)) reuse->Clear(); return *reuse; } if (R().p(6)) reuse.reset(new MBData(R()(100), 0)); return fresh; }
    void find(const string& f, const string& tail)
    {
        string b = f + tail; MBData fr; MBData& m = data(fr); DB& h = rd();
        c.L("find %s%s", esc(f).c_str(), tail.size() ? " (more bytes follow)" : "");
        int r = tail.size() ? h.Find(b.data(), f.size(), m) : h.Find(kb.guarded(f), f.size(), m);
        auto i = M.find(f);
        if (r != (i == M.end() ? (int)MBError::NOT_EXIST : 0)) c.fail("Find(%s) returned %d but the key is %s (bytes after the key: %s)", esc(f).c_str(), r, i == M.end() ? "absent" : "present", esc(tail).c_str());
        if (r == 0 && VS(m) != i->second) c.fail("Find(%s) returned a wrong value: len %d expected %zu: got %s expected %s", esc(f).c_str(), m.data_len, i->second.size(), esc(VS(m), 60).c_str(), esc(i->second, 60).c_str());
        c.ops++;
        if ((what & W_OFFSET) && r == 0) {
            size_t off = m.data_offset; MBData m2; int q = h.ReadDataByOffset(off, m2);
            if (q != 0 || VS(m2) != i->second) c.fail("ReadDataByOffset of the offset reported by Find(%s) gave %d, len %d", esc(f).c_str(), q, m2.data_len);
            uint8_t* p = h.GetDataPtrByOffset(off);
            if (p) { uint16_t l; memcpy(&l, p, 2); if (l != i->second.size() || memcmp(p + DB::GetDataHeaderSize(), i->second.data(), l)) c.fail("GetDataPtrByOffset(Find(%s)) does not point at the stored value", esc(f).c_str()); }
            else if (db.kind == 0 || db.kind == 2 || db.kind == 4) c.fail("GetDataPtrByOffset returned null for a mapped value of %s", esc(f).c_str());
        }
        if (what & W_INDB) {
            int err = 99; bool b1 = tail.size() ? h.InDB(b.data(), f.size(), err) : h.InDB(kb.guarded(f), f.size(), err);
            // InDB reports presence through its error code path; only a successful lookup of an absent key is judged
            if (b1 && i == M.end()) c.fail("InDB(%s) says present for an absent key", esc(f).c_str());
        }
    }
    void prefix(const string& f, const string& tail)
    {
        string b = f + tail; MBData fr; MBData& m = data(fr); DB& h = rd();
        c.L("longest-prefix %s%s", esc(f).c_str(), tail.size() ? " (more bytes follow)" : "");
        int r = tail.size() ? h.FindLongestPrefix(b.data(), f.size(), m) : h.FindLongestPrefix(kb.guarded(f), f.size(), m);
        int L = 0; for (int l = f.size(); l > 0; l--) if (M.count(f.substr(0, l))) { L = l; break; }
        if ((r == 0) != (L > 0) || (r && r != MBError::NOT_EXIST)) c.fail("FindLongestPrefix(%s) returned %d; the longest stored prefix has length %d (bytes after the key: %s)", esc(f).c_str(), r, L, esc(tail).c_str());
        if (r == 0 && m.match_len != L) c.fail("FindLongestPrefix(%s) reports match length %d, expected %d", esc(f).c_str(), m.match_len, L);
        if (r == 0 && VS(m) != M[f.substr(0, L)]) c.fail("FindLongestPrefix(%s) returned the wrong value (match length %d)", esc(f).c_str(), L);
        c.ops++;
    }
    void lower(const string& f, const string& tail)
    {
        string b = f + tail; MBData fr; MBData& m = data(fr); DB& h = rd(); string bk; bool wantk = R()(3);
        c.L("lower-bound %s%s", esc(f).c_str(), tail.size() ? " (more bytes follow)" : "");
        if (R().p(4)) bk = "junk";
        int r = tail.size() ? h.FindLowerBound(b.data(), f.size(), m, wantk ? &bk : nullptr) : h.FindLowerBound(kb.guarded(f), f.size(), m, wantk ? &bk : nullptr);
        auto u = M.upper_bound(f); bool ex = u != M.begin(); if (ex) --u;
        if ((r == 0) != ex || (r && r != MBError::NOT_EXIST)) c.fail("FindLowerBound(%s) returned %d; greatest key not above it: %s", esc(f).c_str(), r, ex ? esc(u->first).c_str() : "none");
        if (r == 0 && VS(m) != u->second) c.fail("FindLowerBound(%s) returned the wrong value; expected that of %s", esc(f).c_str(), esc(u->first).c_str());
        if (r == 0 && wantk && bk != u->first) c.fail("FindLowerBound(%s) reports bound key %s, expected %s", esc(f).c_str(), esc(bk).c_str(), esc(u->first).c_str());
        c.ops++;
    }
    void iterate(const string* pre = nullptr)
    {
        DB& h = rd(); c.L("iterate %s", pre ? esc(*pre).c_str() : "");
        map<string, string> G; long n = 0;
        if (!pre) { for (auto i = h.begin(); i != h.end(); ++i) { string v = VS(i.value); if (!G.insert({ i.key, v }).second) c.fail("iteration yields key %s twice", esc(i.key).c_str()); if (++n > (long)M.size() + 1000) c.fail("iteration does not stop"); } }
        else { for (auto i = h.begin(*pre); i != h.end(); ++i) { string v = VS(i.value); if (!G.insert({ i.key, v }).second) c.fail("iteration over prefix %s yields key %s twice", esc(*pre).c_str(), esc(i.key).c_str()); if (++n > (long)M.size() + 1000) c.fail("iteration does not stop"); } }
        map<string, string> E; if (!pre) E = M; else for (auto& p : M) { size_t n = std::min(p.first.size(), pre->size()); if (p.first.compare(0, n, *pre, 0, n) == 0) E.insert(p); } // keys that agree with the prefix as far as both go
        if (G != E) {
            string d; for (auto& p : E) { auto q = G.find(p.first); if (q == G.end()) { d = "misses " + esc(p.first); break; } if (q->second != p.second) { d = "wrong value for " + esc(p.first); break; } }
            if (d.empty()) for (auto& p : G) if (!E.count(p.first)) { d = "invents " + esc(p.first); break; }
            c.fail("iteration%s%s yields %zu pairs, expected %zu: %s", pre ? " over prefix " : "", pre ? esc(*pre).c_str() : "", G.size(), E.size(), d.c_str());
        }
        c.ops++;
    }
    void count()
    {
        DB& h = rd();
        if (h.Count() != (int64_t)M.size()) c.fail("Count() is %lld with %zu keys stored", (long long)h.Count(), M.size());
        c.ops++;
    }
    void full()
    { // every stored key, plus absent neighbours
        c.L("check everything");
        for (auto& p : M) {
            MBData m; int r = db.w->Find(p.first, m);
            if (r) c.fail("Find(%s) returned %d for a stored key", esc(p.first).c_str(), r);
            if (VS(m) != p.second) c.fail("Find(%s) returned a wrong value", esc(p.first).c_str());
        }
        if (what & (W_FIND)) for (auto& p : M) for (int l = 1; l < (int)p.first.size() && l < 40; l++) { string q = p.first.substr(0, l); if (!M.count(q)) { MBData m; int r = db.w->Find(q, m); if (r != MBError::NOT_EXIST) c.fail("Find(%s) returned %d for an absent key", esc(q).c_str(), r); } if (M.size() > 400) break; }
        if (what & W_ITER) iterate();
        if (what & W_COUNT) count();
    }
    void reject()
    {
        string k = g.key(), v = g.val(20); int r, which = R()(10); int er = MBError::OUT_OF_BOUND; string big(40000, 'q'), lk(300, 'k');
        c.L("rejected operation %d on %s", which, esc(k).c_str());
        if (M.size() && R().p(2)) { auto i = M.begin(); advance(i, R()(M.size() > 50 ? 50 : M.size())); k = i->first; }
        switch (which) {
        case 0: r = db.w->Add(k.data(), 0, v.data(), v.size(), R()(2)); break;
        case 1: r = db.w->Add(lk.data(), 257 + R()(40), v.data(), v.size(), R()(2)); break;
        case 2: r = db.w->Add(k.data(), k.size(), v.data(), 0, R()(2)); break;
        case 3: r = db.w->Add(k.data(), k.size(), big.data(), 32768 + (R()(2) ? R()(7000) : 0), R()(2)); break;
        case 4: r = db.w->Add(nullptr, k.size(), v.data(), v.size(), R()(2)); er = MBError::INVALID_ARG; break;
        case 5: r = db.w->Remove(nullptr, 3); er = MBError::INVALID_ARG; break;
        case 6: if (!M.count(k)) { r = er; break; } r = db.w->Add(k, v, false); er = MBError::IN_DICT; break;
        case 7: { string q = k + "\x01\x02"; q.resize(std::min<size_t>(q.size(), 255)); if (M.count(q)) { r = er; break; } r = db.w->Remove(q); er = MBError::NOT_EXIST; break; }
        case 8: r = db.w->Add(k.data(), -1 - R()(300), v.data(), v.size(), true); break;
        default: r = db.w->Add(k.data(), k.size(), v.data(), -1 - R()(40000), true); break;
        }
        if (r != er) c.fail("operation kind %d that must be rejected returned %d, expected %d", which, r, er);
        int64_t n = db.w->Count(); if (n != (int64_t)M.size()) c.fail("a rejected operation (kind %d) changed the count to %lld (%zu keys)", which, (long long)n, M.size());
        if (which == 0 || which == 5) { }
        MBData m; auto i = M.find(k); int q = db.w->Find(k, m);
        if ((q == 0) != (i != M.end()) || (q == 0 && VS(m) != i->second)) c.fail("a rejected operation (kind %d) changed the entry for %s", which, esc(k).c_str());
        c.ops++;
    }
    void queries(int n)
    {
        for (int q = 0; q < n; q++) {
            string f = g.key(), tail;
            if (R().p(3)) { if (M.size()) { auto i = M.lower_bound(g.key()); if (i == M.end()) i = M.begin(); size_t l = 1 + R()(i->first.size()); f = i->first.substr(0, l); tail = i->first.substr(l); } }
            else if (R().p(2)) tail = g.key();
            if (R()(3) && tail.size()) tail += string(3, 'a'); else if (R().p(2)) tail.clear();
            if (what & W_FIND) find(f, tail);
            if (what & W_PREFIX) prefix(f, tail);
            if (what & W_LOWER) lower(f, tail);
        }
    }
    void rc()
    {
        c.L("collect resource");
        int w = R()(4);
        int r = db.w->CollectResource(w == 1 ? 0 : 1, w == 2 ? 0 : 1);
        if (r) c.fail("CollectResource returned %d", r);
    }
    void backup()
    {
        string bd = c.newdir(); c.L("backup");
        { DBBackup bk(*db.w); int r = bk.Backup(bd.c_str()); if (r) c.fail("backup returned %d", r); }
        MBConfig k = db.cfg; k.mbdir = bd.c_str(); k.queue_dir = bd.c_str(); if (R().p(2)) k.options &= ~CONSTS::ACCESS_MODE_WRITER;
        if (!(k.options & CONSTS::ACCESS_MODE_WRITER)) { k.options |= CONSTS::ACCESS_MODE_WRITER; }
        DB b(k); if (!b.is_open()) c.fail("the backup does not open: %d", b.Status());
        map<string, string> G; for (auto i = b.begin(); i != b.end(); ++i) G[i.key] = VS(i.value);
        if (G != M) c.fail("the backup holds %zu pairs, expected %zu", G.size(), M.size());
        for (auto& p : M) { MBData m; if (b.Find(p.first, m) || VS(m) != p.second) c.fail("the backup does not return the stored value of %s", esc(p.first).c_str()); }
        if (b.Count() != (int64_t)M.size()) c.fail("the backup counts %lld entries, expected %zu", (long long)b.Count(), M.size());
        b.Close(); c.ops++;
    }
    void run(int nops, int padd, int prem, int nq)
    {
        for (int op = 0; op < nops; op++) {
            int w = R()(100);
            if (w < padd) add(g.key(), g.val(maxv), R()(2));
            else if (w < padd + prem) {
                string k = g.key(); if (M.size() && R()(2)) { auto i = M.lower_bound(k); if (i == M.end()) i = M.begin(); k = i->first; }
                remove(k);
            }
            queries(nq);
            if (what & W_COUNT) count();
            if ((what & W_REJECT) && R().p(3)) reject();
            if ((what & W_ITER) && R().p(25)) { if (R().p(2)) iterate(); else { string k = g.key(); k.resize(std::min<size_t>(k.size(), 1 + R()(8))); iterate(&k); } }
            if ((what & W_RC) && R().p(40)) { rc(); full(); }
            if ((what & W_REOPEN) && db.kind != 4 && R().p(40)) { bool cl = R()(2); c.L("close and reopen%s", cl ? " (resources dropped)" : ""); db.reopen(cl); full(); }
            if ((what & W_BACKUP) && db.kind != 4 && R().p(40)) backup();
            if ((what & W_REMOVEALL) && R().p(120)) { c.L("remove all"); int r = db.w->RemoveAll(); if (r) c.fail("RemoveAll returned %d", r); M.clear(); full(); if (db.w->Count()) c.fail("Count() is %lld after RemoveAll", (long long)db.w->Count()); }
        }
        full();
    }
    // A node with (nearly) every possible child, filled in random order.
    void widefill()
    {
        string pre = g.pre.substr(0, 3); int n = 1 + R()(3); while ((int)pre.size() < n) pre += (char)R()(256);
        vector<int> o(256); for (int i = 0; i < 256; i++) o[i] = i;
        for (int i = 256; i > 1; i--) std::swap(o[i - 1], o[R()(i)]);
        int m = R().p(2) ? 256 : 240 + R()(17); c.L("fill a node with %d children below %s", m, esc(pre).c_str());
        for (int i = 0; i < m; i++) add(pre + (char)o[i] + string(R().p(3) ? R()(10) : 0, 'z'), g.val(8), true);
        if (R().p(2)) add(pre, g.val(8), true);
        wide_pre = pre;
    }
    string wide_pre;
    // Fill so that the data and the index span several blocks.
    void bulk(size_t data_bytes, size_t index_keys)
    {
        size_t n = 0; c.L("bulk fill");
        while (n < data_bytes) { string k = g.key(), v = g.val(32767); if (v.size() < 15000) v.resize(15000 + R()(17768), 'x'); string o = c.log; add(k, v, true); n += v.size(); }
        for (size_t i = 0; i < index_keys; i++) { string k; int l = 200 + R()(55); for (int j = 0; j < l; j++) k += (char)R()(256); add(k, g.val(8), true); }
    }
    ~Diff() { if (db.w) db.close(); }
};
