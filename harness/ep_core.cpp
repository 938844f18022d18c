// Episodes on the storage engine: plain histories, crash enumeration, faults, reset, isolation, memory, tuning.
#include "core.h"
#include <thread>

static void sample(const Db &d, const char *what, uint64_t ix) {
    if (g_samples.size() < 4) g_samples.push_back(fmt("episode %llu (%s): %s; %zu records in the final model, %llu data pages, oldest retained page %llu, %llu variable pages, %zu storage mutations", (unsigned long long)ix, what, d.c.str().c_str(), d.m.hist.size(), (unsigned long long)d.m.P, (unsigned long long)d.m.mn, (unsigned long long)d.m.vW, d.fl.log.size()));
}
static void freshOpen(Db &d, Rng &r) {
    // a fresh database: reset flag, or (raw device only) no flag on blank storage
    d.openChecked(!(d.c.raw && r.pct(40)));
}
static double pickWraps(Rng &r, const std::string &p) {
    if (p == "C05" || p == "C11") return 1.2 + r.below(30) / 10.0;
    switch (r.below(5)) { case 0: return 0.05; case 1: return 0.5; case 2: return 1.1; case 3: return 1.8; default: return 2.9; }
}
static size_t capPuts(size_t n, bool th, size_t cap) { return std::min(n, th ? cap * 3 : cap); }
static void noteDb(const Db &d) {
    cnt("records_put_total", d.m.hist.size());
    if (d.m.mn > 0) cnt("episodes_data_wrapped");
    if (d.c.vdata() && d.m.vW > d.c.nVar) cnt("episodes_var_wrapped");
    if (d.c.index() && d.fl.erases[F_IDX]) cnt("episodes_index_wrapped");
    if (d.c.rlc()) cnt("episodes_rlc");
    if (d.c.index()) cnt("episodes_index");
    if (d.c.vdata()) cnt("episodes_vdata");
    if (d.c.binsearch()) cnt("episodes_binary_search");
}
static void checkLeak(const char *where) {
    if (vpLive()) viol("leak", fmt("%zu allocation(s) of the library still live after %s", vpLive(), where));
}

// ---- plain history
static void body(const Cfg &c, const std::string &p, Rng &r, bool th, uint64_t ix, bool statsInDigest = false) {
    Db d(c, &r);
    d.salt = r.next();
    d.fl.discipline = p == "C06";
    d.checkPages = p == "C30";
    d.checkStats = p == "C24";
    d.checkCost = p == "C33";
    freshOpen(d, r);
    Mix mx = mixFor(p, c);
    mx.restartNoFlush = p != "C05" && p != "C24" && p != "C11" && p != "C10" ? r.pct(40) : false;
    if (p == "C07") mx.restartNoFlush = false;
    size_t maxPuts = capPuts(putsForWraps(d, c.mid ? 0.4 + r.below(24) / 10.0 : pickWraps(r, p)), th, c.mid ? 6000 : 2500);
    size_t nOps = (th ? 160 : 70) + r.below(th ? 300 : 130);
    if (p == "C23") nOps *= 3;
    if (p == "C24" && r.pct(50)) { for (int i = 0; i < 3; i++) { runOps(d, mx, nOps / 3, maxPuts / 3 + 1, r); d.statReset(); } }
    else runOps(d, mx, nOps, maxPuts, r);
    d.audit(r, (p == "C01" || p == "C02" || p == "C10") ? 1 : 0);
    if (r.pct(70)) {
        bool fl = r.pct(80);
        d.itCloseAll();
        d.stCloseAll();
        reopen(d, fl, r);
        d.audit(r, 1);
    }
    if (c.mid && (p == "C33" || p == "C01")) {
        // every record of the database
        std::vector<uint64_t> ks;
        for (auto &x : d.m.hist) if (ks.empty() || r.pct(40)) ks.push_back(x.key);
        for (size_t i = ks.size() > 4000 ? ks.size() - 4000 : 0; i < ks.size(); i++) d.get(ks[i]);
        cnt("whole_databases_looked_up");
    }
    if (p == "C07") {
        // repeating close/reopen changes nothing (the first one may clear the block writing continues in)
        uint64_t h = 0;
        for (int i = 0; i < 3; i++) {
            d.flush();
            d.close();
            uint64_t h2 = d.fl.hash();
            if (i > 1 && !c.rlc() && h2 != h) viol("reopen-changes-storage", "closing and reopening without any operation changed the storage");
            h = h2;
            d.openChecked(false);
        }
        d.audit(r, 1);
    }
    if (p == "C24" || p == "C19") d.printed();
    dig(d.m.hist.size());
    dig(d.m.P);
    dig(d.m.vW);
    if (statsInDigest) { dig(d.st->numReads); dig(d.st->numWrites); dig(d.st->bufferHits); dig(d.st->numIdxReads); dig(d.st->numIdxWrites); }
    d.close();
    dig(d.fl.hash());
    noteDb(d);
    sample(d, p.c_str(), ix);
    bool nt = d.m.P > 0 && !d.m.hist.empty();
    if (p == "C05") nt = d.m.mn > 0;
    if (p == "C11") nt = d.m.vW > c.nVar;
    if (p == "C03" || p == "C13") nt = nt && (c.params & EMBEDDB_USE_BMAP);
    g_nontrivial = nt;
}

// ---- crash points
static bool peek(Db &d, uint64_t key) {
    uint8_t kb[8];
    memcpy(kb, &key, 8);
    std::vector<uint8_t> k(kb, kb + d.c.keySize), v(d.c.dataSize);
    d.fl.phase = PH_READ;
    int8_t r = embedDBGet(d.st, k.data(), dptr(v));
    d.fl.phase = PH_NONE;
    return r == 0;
}
static void crashPoints(Db &d, const Flash::Image &base, size_t k0, size_t k1, size_t stride, const std::string &p, Rng &r, int level, bool th);

static void branch(const Db &src, const Flash &img, size_t k, const std::string &p, Rng &r, int level, bool th, size_t kVar = SIZE_MAX) {
    const Rec *opt = nullptr;
    Model m = crashedModel(src, k, img, opt, kVar);
    Rng r2(r.next());
    Db d(src.c, &r2);
    d.salt = r2.next();
    d.fl.discipline = p == "C06";
    d.checkPages = false;
    Flash::Image im;
    img.save(im);
    d.fl.load(im);
    d.m = m;
    d.baseP = m.P;
    d.baseV = m.vW;
    for (auto &x : d.m.hist) x.op = 0;
    TRACE("---- crash after %zu of %zu mutations (level %d): expect %zu records, %llu pages, oldest %llu, %llu variable pages%s", k, src.fl.log.size(), level, m.hist.size(), (unsigned long long)m.P, (unsigned long long)m.mn, (unsigned long long)m.vW, opt ? ", one record in flight" : "");
    if (g_trace && k < src.fl.log.size()) TRACE("     interrupted: %s file %d [%u,%u)", src.fl.log[k].kind == M_WRITE ? "write" : src.fl.log[k].kind == M_ERASE ? "erase" : "truncate", src.fl.log[k].file, src.fl.log[k].a, src.fl.log[k].b);
    d.openChecked(false);
    if (opt && peek(d, opt->key)) {
        Rec x = *opt;
        x.op = 0;
        d.m.hist.push_back(x);
        cnt("inflight_recovered");
    }
    if (!d.m.hist.empty() && d.m.bufStart > d.m.hist.size()) viol("model", "internal: bufStart");
    if (!src.c.vdata() && r2.pct(50)) { d.m.maxKeyTried = d.m.hist.empty() ? 0 : d.m.hist.back().key; d.m.any = !d.m.hist.empty(); }
    cnt("crash_points");
    g_states.insert(mix(mix(d.m.hist.size(), d.m.P), mix(m.vW, mix(m.mn, src.c.tag()))));
    d.audit(r2, d.c.vdata() ? 1 : 0);
    if (level > 0) {
        Flash::Image base;
        im.exists[0] = im.exists[0];
        base = im;
        // the recovered database must be usable and survive a further crash
        Mix mx = mixFor(p, d.c);
        mx.restart = 0;
        mx.itOpen = mx.itStep = mx.stOpen = mx.stStep = 0;
        size_t pp = d.st->maxRecordsPerPage;
        size_t puts = r2.pct(30) ? 2 : r2.pct(60) ? pp * (1 + r2.below(d.c.E + 2)) : putsForWraps(d, 1.1);
        puts = capPuts(puts, th, 400);
        runOps(d, mx, 12 + r2.below(30), puts, r2);
        d.audit(r2, d.c.vdata() ? 1 : 0);
        if (level > 1) {
            size_t n = d.fl.log.size();
            if (n) {
                // crash points of the second generation, including those inside recovery
                crashPoints(d, base, 0, n + 1, std::max<size_t>(1, n / (th ? 12 : 4)), p, r2, level - 1, th);
            }
        }
        if (r2.pct(50)) { reopen(d, r2.pct(60), r2); d.audit(r2, d.c.vdata() ? 1 : 0); }
    }
    d.close();
}
static void crashPoints(Db &d, const Flash::Image &base, size_t k0, size_t k1, size_t stride, const std::string &p, Rng &r, int level, bool th) {
    Flash img;
    img.eraseFill = d.c.eraseFill;
    img.raw = d.c.raw;
    img.setup(d.c.pageSize, d.c.E, d.c.nData, d.c.index() ? d.c.nIdx : 0, d.c.vdata() ? d.c.nVar : 0);
    img.load(base);
    size_t next = k0 + r.below(stride);
    for (size_t k = 0; k < k1; k++) {
        if (k >= k0 && k == next) {
            bool deep = r.pct(level > 1 ? 12 : 25);
            if (img.f[F_DATA].exists || d.c.raw) branch(d, img, k, p, r, deep ? level : (level > 1 ? (r.pct(30) ? 1 : 0) : 0), th);
            next = k + 1 + (stride > 1 ? r.below(2 * stride - 1) : 0);
        }
        if (k < d.fl.log.size()) img.apply(d.fl.log[k]);
        if (next < k + 1) next = k + 1;
    }
}
// Crash of storage that keeps written pages in a volatile cache until the file is flushed or closed: every file keeps
// its own prefix of the mutations, which at least contains everything flushed.
static void crashUnflushed(Db &d, const Flash::Image &base, size_t k0, const std::string &p, Rng &r, int level, bool th, size_t budget) {
    const auto &log = d.fl.log;
    const auto &fe = d.fl.flushLog;
    size_t n = log.size();
    // moments: (mutations done, flushes done)
    std::vector<std::pair<size_t, size_t>> moments;
    size_t j = 0;
    for (size_t k = 0; k <= n; k++) {
        while (j < fe.size() && fe[j].pos < k) j++;
        for (size_t x = j;; x++) {
            if (k >= k0) moments.push_back({k, x});
            if (x >= fe.size() || fe[x].pos != k) break;
        }
    }
    size_t stride = std::max<size_t>(1, moments.size() / budget);
    for (size_t i = r.below(stride); i < moments.size(); i += stride == 1 ? 1 : 1 + r.below(2 * stride - 1)) {
        size_t K = moments[i].first, J = moments[i].second;
        size_t cut[3] = {k0, k0, k0};
        for (size_t x = 0; x < J; x++) cut[fe[x].file] = std::max(cut[fe[x].file], fe[x].pos);
        size_t lost = 0;
        int how = r.below(3);
        for (int f = 0; f < 3; f++) {
            size_t lo = cut[f];
            if (how == 0) cut[f] = lo;
            else if (how == 1) cut[f] = r.pct(50) ? lo : K;
            else cut[f] = lo + r.below(K - lo + 1);
            for (size_t x = cut[f]; x < K; x++) lost += log[x].file == f;
        }
        Flash img;
        img.eraseFill = d.c.eraseFill;
        img.raw = d.c.raw;
        img.setup(d.c.pageSize, d.c.E, d.c.nData, d.c.index() ? d.c.nIdx : 0, d.c.vdata() ? d.c.nVar : 0);
        img.load(base);
        for (size_t x = 0; x < K; x++)
            if (x < cut[log[x].file]) img.apply(log[x]);
        if (!img.f[F_DATA].exists && !d.c.raw) continue;
        cnt("unflushed_mutations_lost", lost);
        if (lost) cnt("crashes_losing_unflushed_pages");
        size_t dataLost = 0, idxKept = 0;
        for (size_t x = cut[F_DATA]; x < K; x++) dataLost += log[x].file == F_DATA && log[x].kind == M_WRITE, idxKept += log[x].file == F_IDX && x < cut[F_IDX];
        if (dataLost && idxKept) cnt("crashes_with_index_ahead_of_data");
        TRACE("---- at mutation %zu of %zu, kept: data %zu, index %zu, variable data %zu", K, n, cut[0], cut[1], cut[2]);
        branch(d, img, cut[F_DATA], p, r, r.pct(25) ? level : 0, th, cut[F_VAR]);
    }
}
static void crashEpisode(Cfg c, const std::string &p, Rng &r, bool th, uint64_t ix) {
    if (c.pageSize > 512) c.pageSize = 512;
    while (c.pageSize < 14 + 8 + 2 * (c.keySize + c.dataSize) + c.keySize + c.dataSize + 4) c.pageSize *= 2;
    // many unflushed pages in a row, so that an index page is full before the data pages it describes are flushed
    bool rare = p == "C32" && r.pct(35);
    if (rare) {
        c.params |= EMBEDDB_USE_INDEX | EMBEDDB_USE_BMAP;
        c.params &= ~EMBEDDB_RECORD_LEVEL_CONSISTENCY;
        c.bmKind = r.pct(70) ? 3 : 4;
        c.bmSize = c.bmKind == 3 ? 8 : 4;
        c.dataCmp = r.pct(70) ? 2 : 3;
        c.dataSize = std::max(c.dataSize, 12);
        c.pageSize = r.pct(70) ? 128 : 192;
        while (c.pageSize < 14 + 8 + 4 * (c.keySize + c.dataSize) + 4) c.pageSize *= 2;
        c.nData = c.E * std::max<int>(1 + (40 + r.below(60)) / c.E, c.index() || c.rlc() ? 4 : 2);
        c.nIdx = c.E * (2 + r.below(5));
        c.nVar = c.E * (2 + r.below(12));
    }
    Db d(c, &r);
    d.salt = r.next();
    d.fl.discipline = p == "C06";
    d.checkPages = false;
    Flash::Image base;
    d.fl.save(base);
    freshOpen(d, r);
    size_t k0 = d.fl.log.size();
    Mix mx = mixFor(p, c);
    mx.itOpen = mx.itStep = mx.stOpen = mx.stStep = 0;
    mx.audit = 0;
    mx.query = mx.dquery = 1;
    mx.get = 2;
    mx.putBad = 1;
    mx.restart = 1;
    if (p == "C09") mx.flush = 1;
    d.checkDurable = p == "C32";
    double w = r.pct(35) ? 0.4 : r.pct(50) ? 1.3 : 2.3;
    if (rare) { mx.flush = r.pct(50) ? 1 : 0; mx.restart = 0; mx.put = 80; w = std::max(w, 0.9); }
    size_t maxPuts = capPuts(putsForWraps(d, w), th, c.rlc() ? 260 : 900);
    runOps(d, mx, 40 + r.below(60), maxPuts, r);
    d.itCloseAll();
    size_t n = d.fl.log.size();
    size_t budget = th ? 400 : 60;
    size_t stride = std::max<size_t>(1, (n - k0) / budget);
    if (p == "C32") crashUnflushed(d, base, k0, p, r, 1, th, budget);
    else crashPoints(d, base, k0, n + 1, stride, p, r, 2, th);
    if (stride == 1) cnt("histories_with_every_crash_point");
    cnt("crash_histories");
    noteDb(d);
    sample(d, "crash enumeration", ix);
    d.close();
    dig(d.fl.hash());
    g_nontrivial = n > k0 + 3;
}

// ---- storage faults
static void armFault(Db &d, Rng &r, bool reads) {
    Faults &f = d.fl.faults;
    f.clear();
    int64_t len = r.pct(70) ? 1 : r.pct(50) ? 2 + r.below(4) : 1000000;
    if (r.pct(10)) { f.flushAt = r.below(2); f.flushLen = len; return; }
    switch (r.below(reads ? 4 : 3)) {
        case 0: f.writeAt = r.below(4); f.writeLen = len; break;
        case 1: f.eraseAt = r.below(2); f.eraseLen = len; break;
        case 2: f.writeAt = r.below(3); f.writeLen = len; f.eraseAt = r.below(2); f.eraseLen = len; break;
        default: f.readAt = r.below(5); f.readLen = len; f.clobber = r.pct(50);
    }
}
static void faultEpisode(const Cfg &c, const std::string &p, Rng &r, bool th, uint64_t ix) {
    Db d(c, &r);
    d.salt = r.next();
    d.fl.discipline = false;
    d.checkPages = false;
    d.checkStats = p == "C24";
    d.checkDurable = p == "C32";
    freshOpen(d, r);
    Mix quiet = mixFor(p, c);
    quiet.restart = 0;
    runOps(d, quiet, 30 + r.below(30), capPuts(putsForWraps(d, r.below(25) / 10.0), th, 1500), r);
    int rounds = (th ? 30 : 12) + r.below(10);
    uint32_t fired = 0;
    for (int k = 0; k < rounds; k++) {
        armFault(d, r, true);
        d.tolerant = true;
        int ops = 1 + r.below(6);
        if (r.pct(12)) {
            // a call which is rarely made fails, whenever it is made
            Faults &f = d.fl.faults;
            f.clear();
            f.file = c.index() && r.pct(60) ? F_IDX : c.vdata() && r.pct(50) ? F_VAR : F_DATA;
            int64_t len = r.pct(70) ? 1 : 1000000;
            switch (r.below(c.index() ? 3 : 2)) {
                case 0: f.writeAt = r.below(2); f.writeLen = len; break;
                case 1: f.eraseAt = r.below(2); f.eraseLen = len; break;
                default: f.file = F_DATA; f.flushAt = 0; f.flushLen = len;
            }
            for (int i = 0; i < (th ? 6000 : 2000) && !f.fired && d.m.maxKeyTried < d.maxKeyVal() - 4; i++) {
                int vm = c.vdata() ? (r.pct(60) ? 1 : r.pct(30) ? -1 : 0) : -1;
                d.put(d.makeRec(d.genKey(r), vm), vm == -1);
            }
            if (f.fired) cnt("rare_calls_failed");
            ops = r.below(3);
        }
        for (int i = 0; i < ops; i++) {
            uint32_t f0 = d.fl.faults.fired;
            switch (r.below(8)) {
                case 0: case 1: case 2: case 3: {
                    size_t n = r.pct(50) ? 1 : 1 + r.below(2 * d.st->maxRecordsPerPage);
                    for (size_t j = 0; j < std::min<size_t>(n, 200); j++) {
                        if (d.m.any && d.m.maxKeyTried >= d.maxKeyVal() - 2) break;
                        int vm = c.vdata() ? (r.pct(60) ? 1 : r.pct(30) ? -1 : 0) : -1;
                        Rec rc = d.makeRec(d.genKey(r), vm);
                        d.put(rc, vm == -1);
                        if (d.lastFail) {
                            cnt("puts_failed_by_fault");
                            // a failed put is not visible
                            if (d.fl.faults.readAt < 0) { d.get(rc.key); if (c.vdata()) d.getVar(rc.key, r); }
                            if (r.pct(60)) {
                                // once the fault clears the same operation can be retried
                                d.fl.faults.clear();
                                d.tolerant = false;
                                Rec again = d.makeRec(rc.key, vm);
                                d.put(again, vm == -1);
                                d.tolerant = true;
                                cnt("puts_retried");
                            }
                            break;
                        }
                    }
                    break;
                }
                case 4: d.flush(); if (d.lastFail) { cnt("flushes_failed_by_fault"); if (r.pct(50)) { d.fl.faults.clear(); d.tolerant = false; d.flush(); d.tolerant = true; } } break;
                case 5: d.get(d.probeKey(r)); break;
                case 6: d.getVar(d.probeKey(r), r); break;
                default: d.query(d.genQuery(r, r.pct(60), r.pct(c.index() ? 70 : 40)), r.pct(50), r); break;
            }
            fired += d.fl.faults.fired - std::min(f0, d.fl.faults.fired);
        }
        cnt("faults_fired", d.fl.faults.fired);
        d.fl.faults.clear();
        d.tolerant = false;
        if (r.pct(60)) d.audit(r, c.vdata() ? 1 : 0);
        if (r.pct(15)) {
            // initialising while an open, erase, write or flush fails: reported, and a retry succeeds
            if (c.rlc() && r.pct(50)) {
                // without a flush, so that temporary pages are recovered
                d.close();
                const Rec *opt;
                d.m = crashedModel(d, d.fl.log.size(), d.fl, opt);
            } else {
                d.flush();
                d.close();
            }
            bool open = r.pct(40);
            if (open) { d.fl.faults.openAt = r.below(1 + c.index() + c.vdata()); d.fl.faults.openLen = 1000000; }
            else {
                int64_t len = r.pct(60) ? 1 : 1000000;
                d.fl.faults.eraseAt = r.below(r.pct(60) ? 1 : 4); d.fl.faults.eraseLen = len;
                d.fl.faults.writeAt = r.below(2); d.fl.faults.writeLen = len;
                d.fl.faults.flushAt = r.below(2); d.fl.faults.flushLen = len;
            }
            int8_t res = d.open(false);
            uint32_t n = d.fl.faults.fired;
            d.fl.faults.clear();
            if (n && res == 0) viol("init-failure-hidden", open ? "embedDBInit succeeded although opening a file failed" : "embedDBInit succeeded although an erase, write or flush failed");
            if (res != 0) { free(d.st); d.st = nullptr; cnt(open ? "inits_failed_by_fault" : "recoveries_failed_by_fault"); }
            else { d.discard(); }
            d.openChecked(false);
            d.audit(r, 0);
        }
    }
    if (r.pct(60)) { reopen(d, !(p == "C32" && c.rlc() && r.pct(60)), r); d.audit(r, c.vdata() ? 1 : 0); }
    d.flush();
    d.close();
    dig(d.fl.hash());
    noteDb(d);
    sample(d, "fault injection", ix);
    g_nontrivial = fired > 0;
}

// ---- reset
static void resetEpisode(const Cfg &a, const std::string &p, Rng &r, bool th, uint64_t ix) {
    Flash::Image im;
    {
        Db d(a, &r);
        d.salt = r.next();
        d.fl.discipline = false;
        d.checkPages = false;
        freshOpen(d, r);
        Mix mx = mixFor(p, a);
        runOps(d, mx, 50, capPuts(putsForWraps(d, r.below(25) / 10.0), th, 1200), r);
        d.itCloseAll();
        d.stCloseAll();
        if (r.pct(70)) { d.flush(); d.close(); } else d.discard();
        d.fl.save(im);
        cnt("old_records", d.m.hist.size());
        g_nontrivial = d.m.P > 0;
    }
    // the new database: same storage, other shape
    Rng g(r.next());
    Cfg b = a;
    if (r.pct(60)) {
        b = genCfg(g, p);
        b.pageSize = a.pageSize;
        b.E = a.E;
        b.nData = a.nData; b.nIdx = a.nIdx; b.nVar = a.nVar;
        b.eraseFill = a.eraseFill; b.raw = a.raw;
        if ((b.index() || b.rlc()) && b.nData < (uint32_t)4 * b.E) { b.params &= ~(EMBEDDB_USE_INDEX | EMBEDDB_RECORD_LEVEL_CONSISTENCY); }
        int rec = b.keySize + b.dataSize + 4;
        if (14 + 8 + 2 * (b.keySize + b.dataSize) + rec > b.pageSize) b = a;
    }
    Db d(b, &r);
    d.salt = r.next();
    d.fl.discipline = false;
    d.checkPages = false;
    for (int i = 0; i < 3; i++)
        if (d.fl.f[i].pages == 0) { im.bytes[i].clear(); im.st[i].clear(); im.extent[i] = 0; }
        else if (im.st[i].size() != d.fl.f[i].pages) { im.bytes[i].assign((size_t)d.fl.f[i].pages * b.pageSize, 0); im.st[i].assign(d.fl.f[i].pages, 0); im.extent[i] = b.raw ? d.fl.f[i].pages : 0; im.exists[i] = false; }
    d.fl.load(im);
    TRACE("---- reset, new shape %s", b.str().c_str());
    int rounds = 1 + r.below(2);
    for (int k = 0; k < rounds; k++) {
        d.openChecked(true);
        if (k) { Model m; d.m = m; d.permLog.clear(); d.baseP = 0; d.baseV = 0; d.fl.log.clear(); }
        d.audit(r, 1);
        Query all;
        d.query(all, b.vdata(), r);
        if (r.pct(25)) { reopen(d, true, r); d.audit(r, 1); }
        Mix mx = mixFor(p, b);
        mx.restart = 3;
        mx.restartNoFlush = true;
        mx.itOpen = mx.stOpen = 0;
        runOps(d, mx, 50, capPuts(putsForWraps(d, r.pct(50) ? 0.1 : r.below(20) / 10.0), th, 1000), r);
        d.audit(r, 1);
        reopen(d, true, r);
        d.audit(r, 1);
        d.close();
    }
    dig(d.fl.hash());
    noteDb(d);
    sample(d, "reset of a previous database", ix);
}

// ---- isolation
static void multiEpisode(const std::string &p, Rng &r, bool th, uint64_t ix) {
    int n = 2 + r.below(3);
    std::vector<std::unique_ptr<Rng>> rngs;
    std::vector<std::unique_ptr<Db>> dbs;
    std::vector<size_t> left;
    Cfg first;
    for (int i = 0; i < n; i++) {
        rngs.emplace_back(new Rng(r.next()));
        Cfg c = genCfg(*rngs[i], p);
        if (i && r.pct(40)) c = first;  // equal shapes make cross-talk easiest to confuse
        if (!i) first = c;
        dbs.emplace_back(new Db(c, rngs[i].get()));
        Db &d = *dbs[i];
        d.salt = rngs[i]->next();
        d.fl.discipline = false;
        d.checkPages = false;
        freshOpen(d, *rngs[i]);
        left.push_back(capPuts(putsForWraps(d, 1.5), th, 600));
    }
    int steps = 150 + r.below(200);
    for (int s = 0; s < steps; s++) {
        int i = r.below(n);
        Db &d = *dbs[i];
        Mix mx = mixFor("C19", d.c);
        mx.restart = 1;
        size_t before = d.m.hist.size();
        runOps(d, mx, 1 + r.below(3), left[i], *rngs[i]);
        left[i] -= std::min(left[i], d.m.hist.size() > before ? d.m.hist.size() - before : 0);
    }
    for (int i = 0; i < n; i++) {
        dbs[i]->audit(*rngs[i], 1);
        if (i == 0) sample(*dbs[i], "interleaved with others", ix);
    }
    for (int i = 0; i < n; i++) { dbs[i]->close(); dig(dbs[i]->fl.hash()); noteDb(*dbs[i]); }
    cnt("databases_interleaved", n);
    g_nontrivial = true;
}

// ---- scale: more logical pages, records and variable pages than 16-bit numbers can count
static void scaleEpisode(Cfg c, const std::string &p, Rng &r, bool th, uint64_t ix, int tuning = 0) {
    bool vd = p == "C10" || p == "C11" || p == "C12" || ((p == "C07" || p == "C08" || p == "C32") && r.pct(50));
    bool crash = p == "C06" || p == "C08" || p == "C09" || p == "C12" || p == "C13" || p == "C32";
    c.params &= ~(EMBEDDB_USE_VDATA | EMBEDDB_RECORD_LEVEL_CONSISTENCY);
    c.longVar = false;
    if (vd) c.params |= EMBEDDB_USE_VDATA;
    if (p == "C09" || r.pct(vd ? 0 : 20)) c.params |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
    // every now and then even the index has more pages than 16-bit numbers can count
    bool bigIdx = (p == "C03" || p == "C13" || p == "C33") && ix % 8 == 3;
    if (p == "C03" || p == "C13" || bigIdx) c.params |= EMBEDDB_USE_BMAP | EMBEDDB_USE_INDEX;
    if (bigIdx && p == "C33") { c.eraseFill = 0xff; c.raw = false; }
    if (bigIdx) { c.bmKind = 3; c.bmSize = 8; c.dataCmp = 2; c.params &= ~(EMBEDDB_USE_MAX_MIN | EMBEDDB_RECORD_LEVEL_CONSISTENCY); }
    if ((c.params & (EMBEDDB_USE_BMAP | EMBEDDB_USE_INDEX)) && !c.bmKind) { c.bmKind = 2; c.bmSize = 2; c.dataCmp = 2; c.dataSize = std::max(4, c.dataSize); }
    if (c.keySize < 4) { c.keySize = 4; c.cmpKind = 0; }
    c.keyMode = r.pick<int>({0, 1, 2, 3, 6});
    c.pageSize = 128;
    int head = 14 + 8 + ((c.params & EMBEDDB_USE_MAX_MIN) ? 2 * c.keySize : 0);
    // and every now and then storage of more pages than that is filled twice, so that the oldest page lies beyond 65536 too
    bool laps = ix % 8 == 5;
    int rec = bigIdx ? 1 : laps ? r.pick<int>({1, 1, 2}) : r.pick<int>({1, 2, 2, 3});
    // as few records per page as the header allows, so that pages are cheap to fill
    int room = 128 - head, extra = c.keySize + (vd ? 4 : 0), mm = c.params & EMBEDDB_USE_MAX_MIN ? 2 : 0;
    c.dataSize = std::max(c.dataCmp >= 2 ? 4 : 2, (room - rec * extra) / (rec + mm));
    if (r.pct(30)) c.E = r.pick<int>({64, 100, 128, 129, 256, 300, 1000});
    uint64_t pages = 65540 + r.below(3000);
    if (bigIdx) pages *= (c.pageSize - 16) / c.bmSize;
    bool big = r.pct(60) && !bigIdx;
    c.nData = c.E * (big ? (pages + c.E - 1) / c.E + (c.rlc() ? 4 : 0) - (r.pct(40) ? 1 + r.below(1 + 200 / c.E) : 0) : 8 + r.below(40));
    c.nIdx = c.E * (r.pct(50) ? 2 + r.below(8) : std::max(2, 2000 / c.E));
    c.nVar = c.E * (r.pct(50) ? 4 + r.below(30) : 70000 / c.E);
    c.splPts = r.pick<int>({4, 16, 300, 5000});
    if (laps) {
        c.nData = c.E * ((pages + 3000) / c.E + 16);
        pages = c.nData + 65540 + 4 * c.E + r.below(500);
        if (vd && r.pct(70)) c.nVar = c.E * ((68540 + r.below(2000)) / c.E + 2);
    }
    if (tuning == 1) c.params ^= EMBEDDB_USE_BINARY_SEARCH;
    if (tuning == 2) { c.params &= ~EMBEDDB_USE_BINARY_SEARCH; c.params ^= EMBEDDB_DISABLE_SPLINE_CLEAN; c.splPts = 4 + c.splPts % 7; c.splErr = (c.splErr + 3) % 17; }
    TRACE("scale config: %s", c.str().c_str());
    Db d(c, &r);
    d.salt = r.next();
    Flash::Image base;
    if (crash) d.fl.save(base);
    d.checkCost = p == "C33";
    d.checkDurable = p == "C32";
    d.fl.discipline = p == "C06";
    d.checkPages = p == "C30";
    d.checkStats = p == "C24";
    d.openChecked(true);
    Mix mx = mixFor(p, c);
    mx.itOpen = mx.itStep = mx.stOpen = mx.stStep = 0;
    mx.audit = 0;
    mx.query = mx.dquery = 1;
    mx.get = 10;
    mx.getVar = vd ? 10 : 0;
    mx.restart = 0;
    if (p == "C07" || p == "C13") mx.restart = 1;
    mx.put = 40;
    if (p == "C04") mx.putBad = 20;
    size_t per = d.st->maxRecordsPerPage;
    if (laps && vd) mx.varPct = 100;
    for (int i = 0; i < 12; i++) {
        runOps(d, mx, 5, (size_t)(pages * per * (th && !bigIdx && !laps ? 1.3 : 1.01)) / 12, r);
        if (laps && vd && d.m.vW > c.nVar + 65540) mx.varPct = 1;
    }
    for (size_t left = (size_t)(pages + 5000) * per; d.m.P < pages && left && d.m.maxKeyTried < d.maxKeyVal() - 2; left--) {
        int vm = vd ? (r.pct(mx.varPct) ? 1 : 0) : -1;
        d.put(d.makeRec(d.genKey(r), vm), vm == -1);
        if (laps && vd && d.m.vW > c.nVar + 65540) mx.varPct = 1;
    }
    for (int i = 0; i < 200; i++) { if (vd && i % 2) d.getVar(d.probeKey(r), r); else d.get(d.probeKey(r)); }
    d.audit(r, vd ? 1 : 0);
    if (c.index() && d.st->nextIdxPageId > 65536) cnt("episodes_beyond_65536_index_pages");
    reopen(d, true, r);
    d.audit(r, vd ? 1 : 0);
    runOps(d, mx, 20, 200, r);
    d.audit(r, 0);
    if (crash) {
        // power loss among the last few hundred mutations, far beyond 65536 pages
        size_t n = d.fl.log.size();
        runOps(d, mx, 30, 6 * per * c.E, r);
        size_t m = d.fl.log.size();
        size_t k0 = n > 40 ? n - 40 : 0, want = bigIdx ? 2 : th ? 24 : 5;
        d.itCloseAll();
        d.stCloseAll();
        crashPoints(d, base, k0, m + 1, std::max<size_t>(1, (m - k0) / want), p, r, 0, th);
        cnt("crashes_beyond_65536_pages");
    }
    if (d.m.P > 65536) cnt("episodes_beyond_65536_pages");
    if (d.m.vW > 65536) cnt("episodes_beyond_65536_var_pages");
    if (d.m.P > 65536 && d.m.mn % c.nData > 65536) cnt("episodes_oldest_page_beyond_65536");
    if (d.m.vW > 65536 && d.m.vW > c.nVar && d.m.vW % c.nVar > 65536) cnt("episodes_var_laps_beyond_65536");
    TRACE("scale end: P=%llu mn=%llu nData=%u vW=%llu nVar=%u", (unsigned long long)d.m.P, (unsigned long long)d.m.mn, c.nData, (unsigned long long)d.m.vW, c.nVar);
    bool beyond = d.m.P > 65536;
    sample(d, "scale", ix);
    d.close();
    noteDb(d);
    if (p == "C31") {
        // the large database is thrown away; its page numbers must not come back
        cnt("old_records", d.m.hist.size());
        d.openChecked(true);
        d.m = Model();
        d.permLog.clear();
        d.baseP = d.baseV = 0;
        d.fl.log.clear();
        d.audit(r, vd ? 1 : 0);
        mx.restart = 3;
        mx.restartNoFlush = true;
        runOps(d, mx, 40, (size_t)per * (3 + r.below(300)), r);
        d.audit(r, vd ? 1 : 0);
        reopen(d, true, r);
        d.audit(r, vd ? 1 : 0);
        d.close();
    }
    g_nontrivial = beyond;
}

// Hundreds of pages with one to three records: many spline points, or few with long and steep segments
static Cfg midCfg(Cfg c, Rng &r) {
    c.mid = true;
    if (r.pct(70)) c.keySize = 8;
    else if (c.keySize < 3) c.keySize = 4;
    if (c.keySize != 4 && c.keySize != 8) c.cmpKind = 0;
    c.keyMode = r.pick<int>({1, 2, 3, 4, 5, 5, 5, 6, 7, 8});
    c.longVar = false;
    c.pageSize = 128;
    int head = 14 + 8 + ((c.params & EMBEDDB_USE_MAX_MIN) ? 2 * c.keySize : 0), mm = c.params & EMBEDDB_USE_MAX_MIN ? 2 : 0;
    int rec = r.pick<int>({1, 1, 2, 3}), extra = c.keySize + (c.vdata() ? 4 : 0);
    c.dataSize = std::max(c.dataCmp >= 2 ? 4 : 2, (128 - head - rec * extra) / (rec + mm));
    c.nData = c.E * ((200 + r.below(1300)) / c.E + 4);
    if (r.pct(50)) c.nIdx = c.E * (200 / c.E + 2);
    c.splPts = r.pick<int>({4, 8, 30, 100, 500});
    c.splErr = r.pick<int>({0, 1, 1, 2, 3, 4, 8, 16});
    if (r.pct(70)) c.params &= ~EMBEDDB_USE_BINARY_SEARCH;
    cnt("episodes_hundreds_of_pages");
    TRACE("hundreds of pages: %s", c.str().c_str());
    return c;
}
static std::string outcome(const Cfg &c, const std::string &p, uint64_t seed, bool th, uint64_t ix, bool stats) {
    g_digest = 99;
    Rng r(seed);
    body(c, p, r, th, ix, stats);
    return fmt("%llx", (unsigned long long)g_digest);
}

void coreEpisode(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    uint64_t h = 0;
    for (char ch : p) h = mix(h, ch);
    Rng r(mix(mix(seed, h), ix));
    Cfg c = genCfg(r, p);
    TRACE("config: %s", c.str().c_str());
    cnt("episodes");
    g_states.insert(c.tag());
    if (ix >= 9000000 && ix < 10000000) {
        if (p == "C29") {
            uint64_t s = r.next(), ref = 0;
            for (int i = 0; i < 3; i++) {
                Rng rr(s);
                g_digest = 99;
                scaleEpisode(c, p, rr, th, ix, i);
                if (i == 0) ref = g_digest;
                else if (g_digest != ref) viol("tuning-dependent", fmt("search tuning changes answers or storage of a large database (%s)", c.str().c_str()));
                cnt("tuning_variants");
            }
        } else scaleEpisode(c, p, r, th, ix);
        return;
    }
    if (ix % 40 == 17 && (p == "C01" || p == "C02" || p == "C03" || p == "C05" || p == "C07" || p == "C29" || p == "C33")) c = midCfg(c, r);
    if (p == "C08" || p == "C09" || p == "C12" || (p == "C32" && ix % 4)) crashEpisode(c, p, r, th, ix);
    else if ((p == "C13" || p == "C06") && ix % 3 == 0) crashEpisode(c, p, r, th, ix);
    else if (p == "C20" || ((p == "C24" || p == "C32") && ix % 4 == 0)) faultEpisode(c, p, r, th, ix);
    else if (p == "C31") resetEpisode(c, p, r, th, ix);
    else if (p == "C22") multiEpisode(p, r, th, ix);
    else if (p == "C28") {
        uint64_t s = r.next();
        std::string ref;
        int fills[3] = {0x00, 0xff, 0xa5};
        for (int i = 0; i < 3; i++) {
            c.memFill = fills[i];
            g_mallocFill = fills[i];
            TRACE("---- memory filled with %02x", fills[i]);
            std::string o = outcome(c, p, s, th, ix, true);
            g_mallocFill = -1;
            if (i == 0) ref = o;
            else if (o != ref) viol("memory-dependent", fmt("prior memory content %02x changes answers, storage or statistics compared with 00 (%s)", fills[i], c.str().c_str()));
        }
    } else if (p == "C29") {
        uint64_t s = r.next();
        std::string ref;
        bool nc = false;
        for (int i = 0; i < 5; i++) {
            Cfg v = c;
            v.params &= ~(EMBEDDB_USE_BINARY_SEARCH | EMBEDDB_DISABLE_SPLINE_CLEAN);
            if (i == 1) v.params |= EMBEDDB_USE_BINARY_SEARCH;
            if (i == 2) v.params |= EMBEDDB_DISABLE_SPLINE_CLEAN;
            if (i >= 2) { v.splPts = 4 + r.below(i == 4 ? 3 : 60); v.splErr = r.below(i == 3 ? 3 : 40); }
            if (i == 4 && r.pct(50)) v.params |= EMBEDDB_DISABLE_SPLINE_CLEAN;
            (void)nc;
            TRACE("---- tuning variant %d: %s", i, v.str().c_str());
            std::string o = outcome(v, p, s, th, ix, false);
            if (i == 0) ref = o;
            else if (o != ref) viol("tuning-dependent", fmt("search tuning (%s) changes answers or storage", v.str().c_str()));
            cnt("tuning_variants");
        }
    } else body(c, p, r, th, ix);
    if (p == "C18" || p == "C19") checkLeak("closing everything");
}
