// Configuration and workload generators, crash-point model.
#include "core.h"

static bool has(const std::string &p, const char *list) {
    return (std::string(" ") + list + " ").find(" " + p + " ") != std::string::npos;
}

Cfg genCfg(Rng &r, const std::string &p) {
    Cfg c;
    c.E = r.pick<int>({1, 2, 2, 2, 2, 3, 4, 4, 4, 5, 8});
    c.pageSize = r.pick<int>({128, 128, 128, 128, 192, 256, 256, 256, 256, 512, 512, 512, 1024, 2048, 4096, 8192});
    if (r.pct(60)) c.pageSize = std::min(c.pageSize, 512);
    int rare = r.below(400);
    if (rare == 0) c.pageSize = r.pick<int>({16384, 32768, 65024});
    if (rare == 1 || rare == 2) c.E = r.pick<int>({16, 32, 7});
    c.keySize = r.pick<int>({4, 4, 4, 4, 4, 8, 8, 8, 8, 2, 3, 5, 6, 7, 1});
    c.dataSize = r.pick<int>({4, 4, 4, 8, 8, 12, 2, 1, 3, 5, 16, 20, 33, 60, 120});
    if (rare > 2 && rare < 10) c.dataSize = r.pick<int>({100, 123, 126, 127});
    bool data = has(p, "C03 C13 C30") || (p == "C33" && r.pct(50));
    if (data || r.pct(35)) {
        if (data ? r.pct(92) : true) c.params |= EMBEDDB_USE_BMAP;
        if (r.pct(65)) c.params |= EMBEDDB_USE_INDEX;
    }
    if (p == "C13") c.params |= EMBEDDB_USE_BMAP | EMBEDDB_USE_INDEX;
    if (r.pct(35)) c.params |= EMBEDDB_USE_MAX_MIN;
    if (has(p, "C10 C11 C12")) c.params |= EMBEDDB_USE_VDATA;
    else if (has(p, "C04 C06 C07 C08 C09 C18 C19 C20 C22 C23 C24 C25 C28 C29 C31 C32")) { if (r.pct(45)) c.params |= EMBEDDB_USE_VDATA; }
    else if (r.pct(12)) c.params |= EMBEDDB_USE_VDATA;
    if (p == "C09") c.params |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
    else if (r.pct(p == "C12" || p == "C32" ? 40 : 22)) c.params |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
    if (r.pct(25)) c.params |= EMBEDDB_USE_BINARY_SEARCH;
    if (r.pct(15)) c.params |= EMBEDDB_DISABLE_SPLINE_CLEAN;
    if (c.params & (EMBEDDB_USE_BMAP | EMBEDDB_USE_INDEX)) {
        c.bmKind = 1 + r.below(4);
        if (c.bmKind == 1) { c.bmSize = 1; c.dataCmp = 1; c.dataSize = std::max(c.dataSize, 2); }
        else { c.bmSize = c.bmKind == 2 ? 2 : c.bmKind == 3 ? 8 : 4; c.dataCmp = r.pct(70) ? 2 : 3; c.dataSize = std::max(c.dataSize, 4); }
    } else {
        c.dataCmp = r.below(4);
        if (c.dataCmp == 1) c.dataSize = std::max(c.dataSize, 2);
        if (c.dataCmp >= 2) c.dataSize = std::max(c.dataSize, 4);
    }
    if (rare >= 16 && rare < 24 && !(c.params & (EMBEDDB_USE_BMAP | EMBEDDB_USE_INDEX))) c.dataSize = c.dataCmp = 0;  // records without fixed data
    if ((c.keySize == 4 || c.keySize == 8) && r.pct(45)) c.cmpKind = 1;
    // the header and at least one record must fit into a page
    auto perPage = [&]() {
        int h = 14 + 8 + ((c.params & EMBEDDB_USE_MAX_MIN) ? 2 * (c.keySize + c.dataSize) : 0);
        return (c.pageSize - h) / (c.keySize + c.dataSize + (c.vdata() ? 4 : 0));
    };
    while (perPage() < 1) c.pageSize *= 2;
    if (perPage() < 3 && r.pct(80)) c.pageSize *= 2;
    int minB = (c.index() || c.rlc()) ? 4 : 2;
    int pp = perPage();
    int blocks = minB + (pp > 60 ? r.below(2) : r.below(r.pct(70) ? 4 : 9));
    c.nData = c.E * blocks;
    c.nIdx = c.E * (2 + r.below(3));
    c.nVar = c.E * (2 + r.below(r.pct(60) ? 5 : 12));
    if (p == "C11") c.nVar = c.E * (2 + r.below(4));
    if (c.vdata() && r.pct(has(p, "C10 C11") ? 6 : 2)) {
        c.longVar = true;
        if (r.pct(70)) c.nVar = std::max<int>(c.nVar, c.E * (int)((65536 + r.below(200000)) / c.pageSize / c.E + 2));
    }
    c.splPts = r.pick<int>({4, 4, 5, 6, 8, 16, 30, 64});
    c.splErr = r.pick<int>({0, 1, 1, 1, 2, 3, 4, 8, 16, 64});
    c.eraseFill = r.pick<int>({-1, -1, 0xff, 0xff, 0x01, 0x00});
    c.raw = r.pct(12);
    c.memFill = r.pick<int>({0, 0xff, 0xa5, 0x01});
    c.valueMode = r.below(5);
    c.keyMode = r.below(9);
    return c;
}

Mix mixFor(const std::string &p, const Cfg &c) {
    Mix m;
    if (p == "C01") { m.get = 40; m.query = 2; m.dquery = 0; m.getVar = 2; m.audit = 0; m.flush = 3; }
    if (p == "C02") { m.query = 30; m.dquery = 0; m.get = 3; m.getVar = 1; m.audit = 0; m.flush = 3; }
    if (p == "C03") { m.dquery = 30; m.query = 1; m.get = 3; m.getVar = 1; m.audit = 0; m.flush = 4; m.restart = 2; }
    if (p == "C04") { m.putBad = 30; m.get = 6; m.query = 3; m.dquery = 0; m.flush = 8; m.restart = 4; }
    if (p == "C05") { m.put = 60; m.get = 5; m.query = 5; m.dquery = 1; m.restart = 1; m.flush = 3; }
    if (p == "C07" || p == "C13") { m.restart = 6; m.flush = 3; m.put = 45; m.audit = 1; }
    if (p == "C10") { m.getVar = 20; m.get = 2; m.dquery = 1; m.query = 10; m.flushVar = 2; m.viaPut = 25; m.stOpen = 2; m.stStep = 6; }
    if (p == "C11") { m.getVar = 20; m.get = 2; m.dquery = 1; m.query = 10; m.flushVar = 2; m.restart = 2; }
    if (p == "C23") { m.itOpen = 8; m.itStep = 60; m.stOpen = 5; m.stStep = 20; m.restart = 0; m.put = 25; m.burst = 6; }
    if (p == "C24") { m.restart = 1; m.audit = 0; m.get = 20; }
    if (p == "C33") { m.get = 30; m.query = 12; m.dquery = 15; m.audit = 0; m.flush = 3; m.getVar = 3; m.restart = 2; }
    if (p == "C06") { m.restart = 3; m.flush = 4; }
    if (p == "C30") { m.restart = 2; m.flush = 5; m.query = 2; m.dquery = 2; m.get = 3; m.audit = 0; }
    if (p == "C19" || p == "C25" || p == "C28" || p == "C29") { m.itOpen = 2; m.itStep = 8; m.stOpen = 2; m.stStep = 6; m.restart = 2; m.flush = 3; }
    if (!c.vdata()) m.getVar = m.flushVar = m.stOpen = m.stStep = 0;
    return m;
}

size_t putsForWraps(const Db &d, double wraps) {
    return (size_t)(wraps * d.c.nData * d.st->maxRecordsPerPage) + 3;
}

bool intactPage(const Cfg &c, const Flash &fl, uint64_t id) {
    uint32_t ph = id % c.nData, got;
    const SimFile &f = fl.f[F_DATA];
    if (!f.st[ph]) return false;
    memcpy(&got, &f.bytes[(size_t)ph * c.pageSize], 4);
    return got == id;
}

Model crashedModel(const Db &d, size_t k, const Flash &img, const Rec *&optional, size_t kVar) {
    if (kVar == SIZE_MAX) kVar = k;
    optional = nullptr;
    Model r = d.m;
    size_t np = 0;
    while (np < d.permLog.size() && d.permLog[np] < k) np++;
    r.P = d.baseP + np;
    r.vW = d.baseV;
    for (size_t i = 0; i < kVar; i++)
    {
        if (d.fl.log[i].kind == M_WRITE && d.fl.log[i].file == F_VAR) r.vW++;
        if (d.fl.log[i].kind == M_TRUNC && d.fl.log[i].file == F_VAR) r.vW = r.vMin = 0;
    }
    size_t perm = r.P < d.m.P ? d.m.pageFirst[r.P] : d.m.bufStart;
    size_t n = perm;
    if (d.c.rlc()) {
        uint32_t inflight = k < d.fl.log.size() ? d.fl.log[k].op : UINT32_MAX;
        while (n < r.hist.size() && r.hist[n].op < inflight) n++;
        if (n < d.m.hist.size()) optional = &d.m.hist[n];
    }
    r.hist.resize(n);
    r.pageFirst.resize(r.P);
    r.bufStart = perm;
    int64_t lo = r.P;
    while (lo > 0 && r.P - (lo - 1) <= d.c.nData && intactPage(d.c, img, lo - 1)) lo--;
    r.mn = std::max<int64_t>(lo, modelMn(d.c, r.P));
    r.any = r.any && (!r.hist.empty() || d.c.vdata());
    return r;
}

// close and reopen; without a flush the unflushed part of the history is lost unless record-level consistency is on
void reopen(Db &d, bool flush, Rng &r) {
    if (flush) d.flush();
    else if (d.c.vdata() && !d.c.rlc() && r.pct(30)) d.flushVar();
    d.close();
    if (!flush) {
        const Rec *opt;
        Model m = crashedModel(d, d.fl.log.size(), d.fl, opt);
        if (!d.c.vdata() && !m.hist.empty() && r.pct(50)) m.maxKeyTried = m.hist.back().key;
        d.m = m;
    }
    TRACE("reopen flush=%d (%zu records, %llu pages)", flush, d.m.hist.size(), (unsigned long long)d.m.P);
    d.openChecked(false);
    cnt("reopens");
}

void runOps(Db &d, const Mix &mx, size_t nOps, size_t maxPuts, Rng &r) {
    struct Op { int w; int id; };
    std::vector<Op> ops = {{mx.put, 0}, {mx.putBad, 1}, {mx.get, 2}, {mx.getVar, 3}, {mx.flush, 4}, {mx.flushVar, 5}, {mx.query, 6}, {mx.dquery, 7}, {mx.audit, 8}, {mx.restart, 9}, {mx.itOpen, 10}, {mx.itStep, 11}, {mx.stOpen, 12}, {mx.stStep, 13}};
    int tot = 0;
    for (auto &o : ops) tot += o.w;
    size_t puts = 0;
    int perPage = d.st->maxRecordsPerPage;
    int burst = mx.burst ? mx.burst : std::max(2, perPage + perPage / 2);
    // long stretches between reads let pages wrap; every op kind stays possible
    double scale = nOps ? (double)maxPuts / nOps : 1;
    for (size_t n = 0; n < nOps; n++) {
        int x = r.below(tot), id = 0;
        for (auto &o : ops) { if (x < o.w) { id = o.id; break; } x -= o.w; }
        bool restricted = d.tolerant;
        switch (id) {
            case 0: {
                size_t k = r.pct(60) ? 1 + r.below(3) : 1 + r.below(burst);
                if (scale > 3) k = 1 + r.below((uint64_t)(2 * scale * tot / std::max(1, mx.put)));
                for (size_t i = 0; i < k && puts < maxPuts; i++) {
                    if (d.m.any && d.m.maxKeyTried >= d.maxKeyVal() - 2) { puts = maxPuts; break; }
                    int vm = d.c.vdata() ? (r.pct(mx.varPct) ? 1 : r.pct(mx.viaPut) ? -1 : 0) : -1;
                    uint64_t key = d.genKey(r);
                    Rec rc = d.makeRec(key, vm);
                    d.put(rc, vm == -1);
                    puts++;
                    if (d.lastFail) break;
                }
                break;
            }
            case 1:
                if (!d.m.hist.empty()) {
                    uint64_t last = d.m.hist.back().key, k;
                    switch (r.below(5)) {
                        case 0: k = last; break;
                        case 1: k = last ? last - 1 : 0; break;
                        case 2: k = 0; break;
                        case 3: k = d.m.hist[d.m.cutRec() < d.m.hist.size() ? d.m.cutRec() : 0].key; break;
                        default: k = r.below(last + 1);
                    }
                    d.putBad(k, r.pct(50));
                }
                break;
            case 2: { int k = 1 + r.below(4); while (k--) d.get(d.probeKey(r)); if (!d.c.vdata() && r.pct(2)) d.refused(r); break; }
            case 3: { int k = 1 + r.below(3); while (k--) d.getVar(d.probeKey(r), r); break; }
            case 4: d.flush(); break;
            case 5: d.flushVar(); break;
            case 6: d.query(d.genQuery(r, true, false), r.pct(40), r, r.pct(15) ? r.below(20) : SIZE_MAX); break;
            case 7: d.query(d.genQuery(r, r.pct(40), true), r.pct(20), r); break;
            case 8: d.audit(r, r.below(2)); break;
            case 9:
                if (restricted) break;
                if (r.pct(70) || d.m.P == 0) {
                    bool fl = !mx.restartNoFlush || r.pct(60) || (d.c.rlc() && r.pct(50));
                    reopen(d, fl, r);
                    if (r.pct(40)) d.audit(r, r.below(2));
                }
                break;
            case 10: if (d.its.size() < 4) d.itOpen(r, r.pct(50), r.pct(40)); break;
            case 11: if (!d.its.empty()) { int k = 1 + r.below(r.pct(30) ? 30 : 4); size_t w = r.below(d.its.size()); while (k-- && w < d.its.size()) { size_t b = d.its.size(); d.itStep(w, r); if (d.its.size() != b) break; } } break;
            case 12: if (d.streams.size() < 3) d.stOpen(r); break;
            case 13: if (!d.streams.empty()) d.stStep(r.below(d.streams.size()), r); break;
        }
        if (puts >= maxPuts && (id == 0)) {
            if (r.pct(20)) return;  // the budget is used up: finish with a few more reads
        }
    }
}
