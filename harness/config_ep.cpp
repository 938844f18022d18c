// C21: configurations on and around every limit. The page buffer is allocated exactly as large as the configuration says.
#include "core.h"

struct Bad { std::string what; std::function<void(embedDBState *)> f; };

static std::vector<Bad> invalids(const Cfg &c, Rng &r) {
    std::vector<Bad> v;
    auto add = [&](const std::string &w, std::function<void(embedDBState *)> f) { v.push_back({w, f}); };
    int E = c.E;
    int ks = r.pick<int>({9, 9, 10, 12, 16, 64, 127});
    add(fmt("keySize %d", ks), [=](embedDBState *s) { s->keySize = ks; });
    {
        int k0 = r.pick<int>({0, 0, -1, -4, -8, -128});
        add(fmt("keySize %d", k0), [=](embedDBState *s) { s->keySize = k0; });
        int ds = 128 + r.below(128);
        add(fmt("data of %d bytes", ds), [=](embedDBState *s) { s->dataSize = (int8_t)ds; });
        add("an erase size of 0", [](embedDBState *s) { s->eraseSizeInPages = 0; });
    }
    if (E > 1) {
        int d = 1 + r.below(E - 1), sg = r.pct(50) ? 1 : -1;
        add(fmt("numDataPages %d off a multiple of the erase size", sg * d), [=](embedDBState *s) { s->numDataPages += sg * d; });
        if (c.index()) add(fmt("numIndexPages %d off a multiple of the erase size", sg * d), [=](embedDBState *s) { s->numIndexPages += sg * d; });
        if (c.vdata()) add(fmt("numVarPages %d off a multiple of the erase size", sg * d), [=](embedDBState *s) { s->numVarPages += sg * d; });
    }
    int minB = (c.index() || c.rlc()) ? 4 : 2;
    int few = r.below(minB);
    if (r.pct(50)) few = minB - 1;
    add(fmt("%d blocks of data pages", few), [=](embedDBState *s) { s->numDataPages = few * E; });
    int blocks = r.below(c.bufBlocks());
    if (r.pct(50)) blocks = c.bufBlocks() - 1;
    add(fmt("%d page buffers", blocks), [=](embedDBState *s) { s->bufferSizeInBlocks = blocks; });
    if (!c.binsearch()) {
        int n = r.pct(60) ? 3 : r.below(4);
        add(fmt("%d spline points", n), [=](embedDBState *s) { s->numSplinePoints = n; });
    }
    add("no data file", [](embedDBState *s) { s->dataFile = nullptr; });
    if (c.index()) {
        add("no index file", [](embedDBState *s) { s->indexFile = nullptr; });
        int n = r.below(2);
        add(fmt("%d blocks of index pages", n), [=](embedDBState *s) { s->numIndexPages = n * E; });
    }
    if (c.vdata()) {
        add("no variable data file", [](embedDBState *s) { s->varFile = nullptr; });
        int n = r.below(2);
        add(fmt("%d blocks of variable data pages", n), [=](embedDBState *s) { s->numVarPages = n * E; });
    }
    int hdr = 6 + ((c.index() || (c.params & EMBEDDB_USE_BMAP)) ? c.bmSize : 0) + ((c.params & EMBEDDB_USE_MAX_MIN) ? 2 * (c.keySize + c.dataSize) : 0);
    int rec = c.keySize + c.dataSize + (c.vdata() ? 4 : 0);
    int ps = (hdr + rec - 1) / 8 * 8;
    if (r.pct(40)) ps = 8 * (1 + r.below(std::max(1, ps / 8)));
    if (ps >= 8 && ps < hdr + rec) add(fmt("page of %d bytes for a header of %d and a record of %d", ps, hdr, rec), [=](embedDBState *s) { s->pageSize = ps; });
    return v;
}

static void shrink(Cfg &c, Rng &r) {
    // on the allowed side of the limits
    int minB = (c.index() || c.rlc()) ? 4 : 2;
    if (r.pct(60)) c.nData = minB * c.E;
    if (r.pct(60)) c.nIdx = 2 * c.E;
    if (r.pct(60)) c.nVar = 2 * c.E;
    if (r.pct(60)) c.splPts = 4;
    if (r.pct(40)) {
        int hdr = 6 + ((c.index() || (c.params & EMBEDDB_USE_BMAP)) ? c.bmSize : 0) + ((c.params & EMBEDDB_USE_MAX_MIN) ? 2 * (c.keySize + c.dataSize) : 0);
        int rec = c.keySize + c.dataSize + (c.vdata() ? 4 : 0);
        int need = hdr + rec * (r.pct(60) ? 1 : 2);
        if (c.index()) need = std::max(need, 16 + c.bmSize);
        if (c.vdata()) need = std::max(need, c.keySize + 4 + 8);
        c.pageSize = (need + 7) / 8 * 8;
    }
    if (r.pct(15) && !c.bmKind) { c.dataSize = r.pick<int>({120, 124, 127}); c.dataCmp = 0; c.pageSize = std::max(c.pageSize, 512); }
}

void configEpisode(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    Rng r(mix(mix(seed, 0xc0f1), ix));
    Cfg c = genCfg(r, p);
    shrink(c, r);
    cnt("episodes");
    g_states.insert(c.tag());
    TRACE("config: %s", c.str().c_str());
    {
        Db d(c, &r);
        d.salt = r.next();
        d.fl.discipline = false;
        d.checkPages = false;
        int tries = r.below(5);
        bool used = false;
        auto invalid = [&](bool reset) {
            auto v = invalids(c, r);
            std::vector<Bad> bad = {r.pick(v)};
            // two limits at once, unless they could cancel out
            if (r.pct(20)) { bad.push_back(r.pick(v)); if (bad[0].what.find("age") != std::string::npos && bad[1].what.find("age") != std::string::npos) bad.pop_back(); }
            std::string what = bad[0].what + (bad.size() > 1 ? " and " + bad[1].what : "");
            TRACE("invalid: %s", what.c_str());
            d.tweak = [&](embedDBState *s) { for (auto &b : bad) b.f(s); };
            int8_t res = d.open(reset);
            d.tweak = nullptr;
            cnt("invalid_configurations");
            g_states.insert(std::hash<std::string>()(bad[0].what));
            if (res == 0) viol("invalid-accepted", fmt("embedDBInit returned 0 for %s (%s)", what.c_str(), c.str().c_str()));
            free(d.st);
            d.st = nullptr;
            if (vpLive()) viol("init-leak", fmt("%zu allocations left by an initialisation refused because of %s", vpLive(), what.c_str()));
            dig(res);
            if (g_samples.size() < 5) g_samples.push_back(fmt("episode %llu: %s refused with %d; base %s", (unsigned long long)ix, what.c_str(), res, c.str().c_str()));
        };
        auto openFails = [&](bool reset) {
            d.fl.faults.openAt = r.below(1 + c.index() + c.vdata());
            d.fl.faults.openLen = 1000;
            int8_t res = d.open(reset);
            bool fired = d.fl.faults.fired;
            d.fl.faults.clear();
            if (!fired) viol("init-no-open", "embedDBInit did not open every file");
            if (res == 0) viol("invalid-accepted", "embedDBInit returned 0 although a file could not be opened");
            free(d.st);
            d.st = nullptr;
            if (vpLive()) viol("init-leak", fmt("%zu allocations left by an initialisation which could not open a file", vpLive()));
            cnt("missing_files");
        };
        for (int i = 0; i < tries; i++) { if (r.pct(80)) invalid(r.pct(80) || c.raw); else openFails(true); }
        // the same database with the limits respected works
        d.openChecked(true);
        cnt("valid_configurations");
        {
            d.get(d.probeKey(r));
            Query all;
            d.query(all, c.vdata(), r);
        }
        Mix mx = mixFor("C19", c);
        mx.restartNoFlush = true;
        size_t puts = std::min<size_t>(putsForWraps(d, r.below(30) / 10.0), th ? 1500 : 400);
        runOps(d, mx, 30 + r.below(40), puts, r);
        d.audit(r, 1);
        d.itCloseAll();
        d.stCloseAll();
        if (r.pct(50)) {
            reopen(d, true, r);
            d.audit(r, 1);
            cnt("valid_configurations");
        }
        d.close();
        (void)used;
        dig(d.fl.hash());
        g_nontrivial = true;
    }
    if (vpLive()) viol("leak", fmt("%zu allocation(s) live after closing", vpLive()));
}
