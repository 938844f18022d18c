#include "core.h"
#include <sys/mman.h>
#include <unistd.h>

// ---------------------------------------------------------------- comparators / bitmaps given by "the user"
template <int N> static int8_t keyCmp(void *a, void *b) {
    uint64_t x = 0, y = 0;
    memcpy(&x, a, N);
    memcpy(&y, b, N);
    return x < y ? -1 : x > y ? 1 : 0;
}
static int8_t (*const KEYCMP[9])(void *, void *) = {nullptr, keyCmp<1>, keyCmp<2>, keyCmp<3>, keyCmp<4>, keyCmp<5>, keyCmp<6>, keyCmp<7>, keyCmp<8>};
static int8_t datCmp16(void *a, void *b) {
    int16_t x, y;
    memcpy(&x, a, 2);
    memcpy(&y, b, 2);
    return x < y ? -1 : x > y ? 1 : 0;
}
static int8_t datCmp32(void *a, void *b) {
    int32_t x, y;
    memcpy(&x, a, 4);
    memcpy(&y, b, 4);
    return x < y ? -1 : x > y ? 1 : 0;
}
// a 32-bucket user bitmap over int32 values
static void upd32(void *data, void *bm) {
    int32_t v;
    memcpy(&v, data, 4);
    int b = v < 300 ? 0 : v >= 300 + 31 * 25 ? 31 : (v - 300) / 25;
    uint32_t x;
    memcpy(&x, bm, 4);
    x |= 1u << b;
    memcpy(bm, &x, 4);
}
static void build32(void *mn, void *mx, void *bm) {
    uint32_t lo = 0, hi = 0, r = 0xffffffffu, old;
    memcpy(&old, bm, 4);  // bits are only added, as by the bitmap of a page
    if (mn) { upd32(mn, &lo); r &= ~(lo - 1); }
    if (mx) { upd32(mx, &hi); r &= hi | (hi - 1); }
    r |= old;
    memcpy(bm, &r, 4);
}
static int8_t in32(void *data, void *bm) {
    uint32_t t = 0, x;
    upd32(data, &t);
    memcpy(&x, bm, 4);
    return (t & x) != 0;
}

std::string Cfg::str() const {
    std::string p;
    if (index()) p += "INDEX|";
    if (params & EMBEDDB_USE_MAX_MIN) p += "MAXMIN|";
    if (params & EMBEDDB_USE_BMAP) p += "BMAP|";
    if (vdata()) p += "VDATA|";
    if (rlc()) p += "RLC|";
    if (binsearch()) p += "BINSEARCH|";
    if (params & EMBEDDB_DISABLE_SPLINE_CLEAN) p += "NOCLEAN|";
    return fmt("key=%d data=%d page=%d erase=%d nData=%u nIdx=%u nVar=%u spl=%d err=%zu params=%s bm=%d/%d cmp=%d/%d eraseFill=%d raw=%d mem=%02x vals=%d keys=%d",
               keySize, dataSize, pageSize, E, nData, nIdx, nVar, splPts, splErr, p.c_str(), bmKind, bmSize, cmpKind, dataCmp, eraseFill, raw, memFill, valueMode, keyMode);
}
uint64_t Cfg::tag() const {
    std::string s = fmt("%d.%d.%d.%d.%u.%u.%u.%d.%d.%d.%d", keySize, dataSize, pageSize, E, nData, nIdx, nVar, params, bmKind, eraseFill, raw);
    uint64_t h = 7;
    for (char ch : s) h = mix(h, ch);
    return h;
}
std::string Query::str() const {
    return fmt("minK=%s%llu maxK=%s%llu minD=%s%d maxD=%s%d", hasMinK ? "" : "-", (unsigned long long)minK, hasMaxK ? "" : "-", (unsigned long long)maxK,
               hasMinD ? "" : "-", minV, hasMaxD ? "" : "-", maxV);
}
void varBytes(uint64_t seed, uint32_t len, std::vector<uint8_t> &out) {
    out.resize(len);
    Rng r(seed);
    for (uint32_t i = 0; i < len; i += 8) {
        uint64_t x = r.next();
        memcpy(&out[i], &x, std::min<uint32_t>(8, len - i));
    }
}
int64_t modelMn(const Cfg &c, uint64_t P) {
    int64_t N = c.nData, E = c.E, p = P;
    if (c.rlc()) return std::max<int64_t>(0, p / E * E + 3 * E - N);
    return p <= N ? 0 : E * ((p - N + E - 1) / E);
}

// ---------------------------------------------------------------- lifecycle
Db::Db(const Cfg &cfg, Rng *r) : c(cfg), rng(r) {
    fl.eraseFill = c.eraseFill;
    fl.raw = c.raw;
    fl.setup(c.pageSize, c.E, c.nData, c.index() ? c.nIdx : 0, c.vdata() ? c.nVar : 0);
    fl.logging = true;
}
Db::~Db() {
    for (auto *i : its) { embedDBCloseIterator(&i->it); delete i; }
    for (auto *s : streams) { vp_free(s->s); delete s; }
    if (isOpen) discard();
}
int8_t Db::open(bool reset) {
    st = (embedDBState *)malloc(sizeof(embedDBState));
    memset((void *)st, c.memFill, sizeof *st);
    buf = malloc((size_t)c.bufBlocks() * c.pageSize);
    memset(buf, c.memFill, (size_t)c.bufBlocks() * c.pageSize);
    st->keySize = c.keySize;
    st->dataSize = c.dataSize;
    st->pageSize = c.pageSize;
    st->eraseSizeInPages = c.E;
    st->numDataPages = c.nData;
    st->dataFile = &fl.f[F_DATA];
    if (c.index()) { st->numIndexPages = c.nIdx; st->indexFile = &fl.f[F_IDX]; }
    if (c.vdata()) { st->numVarPages = c.nVar; st->varFile = &fl.f[F_VAR]; }
    st->bufferSizeInBlocks = c.bufBlocks();
    st->buffer = buf;
    if (!c.binsearch()) st->numSplinePoints = c.splPts;
    st->fileInterface = &fl.iface;
    st->parameters = c.params | (reset ? EMBEDDB_RESET_DATA : 0);
    st->compareKey = c.cmpKind == 1 ? (c.keySize == 8 ? int64Comparator : int32Comparator) : KEYCMP[c.keySize];
    switch (c.dataCmp) {
        case 0: st->compareData = c.dataSize ? KEYCMP[std::min(c.dataSize, 3)] : +[](void *, void *) -> int8_t { return 0; }; break;
        case 1: st->compareData = datCmp16; break;
        case 2: st->compareData = datCmp32; break;
        default: st->compareData = int32Comparator;
    }
    if (c.bmKind) {
        st->bitmapSize = c.bmSize;
        switch (c.bmKind) {
            case 1: st->updateBitmap = updateBitmapInt8; st->buildBitmapFromRange = buildBitmapInt8FromRange; st->inBitmap = inBitmapInt8; break;
            case 2: st->updateBitmap = updateBitmapInt16; st->buildBitmapFromRange = buildBitmapInt16FromRange; st->inBitmap = inBitmapInt16; break;
            case 3: st->updateBitmap = updateBitmapInt64; st->buildBitmapFromRange = buildBitmapInt64FromRange; st->inBitmap = inBitmapInt64; break;
            default: st->updateBitmap = upd32; st->buildBitmapFromRange = build32; st->inBitmap = in32;
        }
    }
    if (tweak) {
        tweak(st);
        free(buf);
        size_t n = (size_t)std::max<int>(0, st->bufferSizeInBlocks) * st->pageSize;
        st->buffer = buf = malloc(n);
        memset(buf, c.memFill, n);
    }
    fl.curOp++;
    fl.phase = PH_INIT;
    int8_t r = embedDBInit(st, c.splErr);
    fl.phase = PH_NONE;
    isOpen = true;
    if (r != 0) {
        // a failed init leaves nothing that embedDBClose could be trusted with; release what the harness owns
        isOpen = false;
        free(buf);
        buf = nullptr;
        // embedDBClose needs an initialised database, so nobody could release what is left behind here
        for (auto &f : fl.f)
            if (f.opened) { f.opened = 0; free(st); st = nullptr; viol("init-leaves-open", fmt("file %d left open by an initialisation that failed", f.idx)); }
    }
    return r;
}
void Db::openChecked(bool reset) {
    size_t ls = fl.log.size();
    int8_t r = open(reset);
    for (size_t i = ls; i < fl.log.size(); i++)
        if (fl.log[i].kind == M_TRUNC && fl.log[i].file == F_VAR) m.vW = m.vMin = 0;
    dig(r);
    if (r != 0) {
        free(st);
        st = nullptr;
        viol("init-failed", fmt("embedDBInit returned %d on a valid configuration/storage", r));
    }
    if (!reset) {
        // recovery continues in a clean block: when the last block was full it gives up the oldest block (pinned by the project's tests)
        if (!c.rlc() && m.P > c.nData && m.P % c.E == 0 && m.P % c.nData != 0) m.mn = std::max<uint64_t>(m.mn, m.P - c.nData + c.E);
        // variable data starting on or before the oldest kept page is given up, as its records cannot be told apart
        if (c.vdata()) {
            uint64_t W = m.vW, N = c.nVar, E = c.E;
            bool erased = W % N == 0 && !fl.f[F_VAR].st[0];
            if (W > N || (W == N && erased)) {
                uint64_t p = E * ((W - N + E - 1) / E);
                if (W % E == 0 && (W % N != 0 || erased)) p += E;
                m.vMin = std::max(m.vMin, p + 1);
            }
        }
    }
    if (checkStats) {
        if (st->numReads || st->numWrites || st->bufferHits || st->numIdxReads || st->numIdxWrites) {
            // recovery reads may legitimately be counted or reset; only a fresh database must start from zero
            if (reset) viol("stats-not-zero", fmt("fresh database starts with numReads=%u numWrites=%u hits=%u idxR=%u idxW=%u", st->numReads, st->numWrites, st->bufferHits, st->numIdxReads, st->numIdxWrites));
        }
        statReset();
    }
    resolveMaybe();
    fl.check();
}
void Db::close() {
    itCloseAll();
    stCloseAll();
    fl.phase = PH_CLOSE;
    fl.curOp++;
    embedDBClose(st);
    fl.phase = PH_NONE;
    free(buf);
    free(st);
    st = nullptr;
    buf = nullptr;
    isOpen = false;
    for (int i = 0; i < 3; i++)
        if (fl.f[i].opened) viol("left-open", fmt("embedDBClose left file %d open", i));
    fl.check();
}
void Db::discard() {
    for (auto *i : its) { embedDBCloseIterator(&i->it); delete i; }
    its.clear();
    for (auto *s : streams) { vp_free(s->s); delete s; }
    streams.clear();
    bool d = fl.discipline;
    fl.discipline = false;
    auto savedFaults = fl.faults;
    fl.faults.clear();
    embedDBClose(st);
    fl.faults = savedFaults;
    fl.err.clear();
    fl.discipline = d;
    free(buf);
    free(st);
    st = nullptr;
    buf = nullptr;
    isOpen = false;
    for (auto &x : fl.f) x.opened = 0;
}

// ---------------------------------------------------------------- model helpers
int64_t Db::find(uint64_t key) const {
    auto it = std::lower_bound(m.hist.begin(), m.hist.end(), key, [](const Rec &r, uint64_t k) { return r.key < k; });
    if (it == m.hist.end() || it->key != key) return -1;
    return it - m.hist.begin();
}
uint64_t Db::maxKeyVal() const {
    int bits = c.keySize * 8;
    if (c.cmpKind == 1) bits -= 1;
    return bits >= 64 ? UINT64_MAX : ((1ull << bits) - 1);
}
int32_t valOf(const Cfg &c, const std::vector<uint8_t> &d) {
    if (c.dataCmp == 0) { uint32_t v = 0; memcpy(&v, dptr(d), std::min<size_t>(d.size(), 3)); return v; }
    if (c.dataCmp == 1) { int16_t v; memcpy(&v, d.data(), 2); return v; }
    int32_t v;
    memcpy(&v, d.data(), 4);
    return v;
}
bool Db::matches(const Query &q, const Rec &r) const {
    if (q.hasMinK && r.key < q.minK) return false;
    if (q.hasMaxK && r.key > q.maxK) return false;
    if (q.hasMinD && r.val < q.minV) return false;
    if (q.hasMaxD && r.val > q.maxV) return false;
    return true;
}
static void genData(const Cfg &c, Rng &r, size_t seq, std::vector<uint8_t> &d, int32_t &val) {
    d.resize(c.dataSize);
    for (auto &b : d) b = r.next();
    int32_t v;
    if (c.dataCmp == 1) {
        switch (c.valueMode) {
            case 0: v = (int32_t)r.below(120); break;
            case 1: v = 55 + (int32_t)(50 * sin(seq / 23.0)) + (int32_t)r.below(5); break;
            case 2: v = (int32_t)r.below(40000) - 20000; break;
            case 3: v = 42; break;
            default: v = seq % 120;
        }
        int16_t s = v;
        memcpy(d.data(), &s, 2);
    } else if (c.dataCmp >= 2) {
        switch (c.valueMode) {
            case 0: v = 280 + (int32_t)r.below(700); break;
            case 1: v = 600 + (int32_t)(320 * sin(seq / 23.0)) + (int32_t)r.below(20); break;
            case 2: v = (int32_t)r.below(200000) - 100000; break;
            case 3: v = 500; break;
            default: v = 300 + seq % 700;
        }
        memcpy(d.data(), &v, 4);
    }
    val = valOf(c, d);
}
Rec Db::makeRec(uint64_t key, int varMode) {
    Rec r;
    r.key = key;
    genData(c, *rng, m.hist.size(), r.data, r.val);
    r.hasVar = varMode == 1;
    if (r.hasVar) {
        uint32_t payload = c.pageSize - c.keySize - 4;
        uint32_t cap = (c.nVar / 4) * payload;  // at most a quarter of the variable storage
        switch (rng->below(12)) {
            case 0: r.varLen = 0; break;
            case 1: r.varLen = 1; break;
            case 2: r.varLen = payload - 4; break;
            case 3: r.varLen = payload + rng->below(9) - 4; break;
            case 4: r.varLen = 2 * payload + rng->below(17) - 8; break;
            case 5: r.varLen = rng->below(4 * payload); break;
            default: r.varLen = rng->below(40);
        }
        if (st && rng->pct(15)) {  // end exactly at / around the page boundary
            uint32_t off = st->currentVarLoc % c.pageSize;
            uint32_t rest = c.pageSize > off + 4 ? c.pageSize - off - 4 : 0;
            r.varLen = rest + rng->below(3);
            if (r.varLen && rng->pct(50)) r.varLen--;
        }
        if (c.longVar) {
            cap = c.nVar * payload;
            if (rng->pct(6)) r.varLen = rng->pct(40) ? 65500 + rng->below(80) : rng->below(cap * 5 / 4), cap = cap * 5 / 4;
            if (r.varLen > 65535) cnt("values_over_65535_bytes");
            if (r.varLen > c.nVar * payload - 4) cnt("values_larger_than_storage");
        }
        if (r.varLen > cap) r.varLen = cap;
        r.varSeed = mix(salt, mix(key, m.hist.size() + 77));
    }
    return r;
}
uint64_t Db::genKey(Rng &r) {
    uint64_t mx = maxKeyVal() - 2;  // keep one key above everything for probing
    if (!m.any) {
        switch (r.below(4)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return r.below(std::min<uint64_t>(mx / 2 + 1, 1000000));
            default: return c.keyMode == 5 ? r.below(mx / 4 + 1) : r.below(std::min<uint64_t>(mx / 4 + 1, 5000));
        }
    }
    uint64_t last = m.maxKeyTried, room = mx > last ? mx - last : 0, g = 1;
    switch (c.keyMode) {
        case 0: g = 1; break;
        case 1: g = 1 + (salt % 97); break;
        case 2: g = 1 + r.below(10); break;
        case 3: g = r.pct(92) ? 1 + r.below(3) : 50 + r.below(20000); break;
        case 4: g = 1ull << r.below(c.keySize >= 4 ? 20 : 6); break;
        case 5: g = 1 + r.below(std::max<uint64_t>(1, room / 300)); break;
        case 6: { uint64_t ph = (m.hist.size() / 37 + salt) % 5; static const uint64_t s[5] = {1, 1000, 3, 77, 10}; g = s[ph] + r.below(2); break; }
        case 8: g = (1 + r.below(r.pct(90) ? 2 : 20)) << (8 * (c.keySize > 1 ? 1 + salt % (c.keySize - 1) : 0)); break;  // only some bytes differ
        default: g = r.pct(97) ? 1 + r.below(4) : 1 + r.below(std::max<uint64_t>(1, room / 8)); break;
    }
    if (g > room) g = room ? 1 : 0;
    return last + g;
}
uint64_t Db::probeKey(Rng &r) {
    if (m.hist.empty()) return r.below(maxKeyVal() / 2 + 1);
    uint64_t k = 0;
    switch (r.below(10)) {
        case 0: k = m.hist[r.below(m.hist.size())].key + 1; break;
        case 1: k = m.hist[r.below(m.hist.size())].key; if (k) k--; break;
        case 2: k = 0; break;
        case 3: k = maxKeyVal() - 1; break;
        case 4: k = m.hist.back().key + 1 + r.below(5); break;
        case 5: { size_t i = m.cutRec(); i = i > 3 ? i - 3 + r.below(6) : r.below(5); k = m.hist[std::min(i, m.hist.size() - 1)].key; break; }
        case 6: { size_t i = m.bufStart; i = i > 3 ? i - 3 + r.below(6) : r.below(5); k = m.hist[std::min(i, m.hist.size() - 1)].key; break; }
        default: k = m.hist[r.below(m.hist.size())].key;
    }
    return std::min(k, maxKeyVal());
}

// ---------------------------------------------------------------- monitors
void Db::endOp(const char *op) {
    fl.phase = PH_NONE;
    cnt(op);
    fl.check();
    if (checkStats && statsOn) statCheck(op);
}
void Db::statReset() {
    embedDBResetStats(st);
    if (st->numReads || st->numWrites || st->bufferHits || st->numIdxReads || st->numIdxWrites) viol("stats-reset", "embedDBResetStats left a counter non-zero");
    for (int i = 0; i < 3; i++) { statBaseR[i] = fl.reads[i]; statBaseW[i] = fl.writes[i]; }
    statsOn = true;
    hits = 0;
    varOverheadMin = m.P;  // permanent pages at reset
}
// What embedDBPrintStats prints is what the counters say.
void Db::printed() {
    if (g_sharedStdout) return;  // other threads print as well, so what is captured could be theirs
    int mem = memfd_create("stats", 0);
    if (mem < 0) return;
    fflush(stdout);
    int old = dup(1);
    dup2(mem, 1);
    embedDBPrintStats(st);
    embedDBPrintInit(st);
    fflush(stdout);
    dup2(old, 1);
    ::close(old);
    std::string t(lseek(mem, 0, SEEK_END), 0);
    if (pread(mem, &t[0], t.size(), 0) != (ssize_t)t.size()) t.clear();
    ::close(mem);
    struct { const char *label; long long want; } L[] = {{"Num reads:", st->numReads}, {"Buffer hits:", st->bufferHits}, {"Num writes:", st->numWrites}, {"Num index reads:", st->numIdxReads}, {"Num index writes:", st->numIdxWrites}, {"Key size:", c.keySize}, {"Page size:", c.pageSize}};
    for (auto &l : L) {
        size_t p = t.find(l.label);
        if (p == std::string::npos) continue;
        long long got = strtoll(t.c_str() + p + strlen(l.label), nullptr, 10);
        if (got != l.want) viol("stats-printed", fmt("the printed statistics say \"%s %lld\", the value is %lld", l.label, got, l.want));
        cnt("printed_values");
    }
}
void Db::durableCheck(const char *op, bool data, bool idx, bool var) {
    static const char *N[3] = {"data", "index", "variable data"};
    bool want[3] = {data, idx && c.index(), var && c.vdata()};
    cnt("durability_checks");
    for (int i = 0; i < 3; i++)
        if (want[i] && fl.f[i].dirty) viol("not-flushed", fmt("%s returned success but pages written to the %s file were never flushed", op, N[i]));
}
void Db::statCheck(const char *op) {
    uint64_t r = fl.reads[0] - statBaseR[0] + fl.reads[2] - statBaseR[2];
    uint64_t ir = fl.reads[1] - statBaseR[1], iw = fl.writes[1] - statBaseW[1];
    uint64_t w = fl.writes[2] - statBaseW[2] + (c.rlc() ? m.P - varOverheadMin : fl.writes[0] - statBaseW[0]);
    cnt("stat_checks");
    if (st->numReads != r) viol("stats-reads", fmt("after %s: numReads=%u but %llu data/variable page reads were issued", op, st->numReads, (unsigned long long)r));
    if (st->numWrites != w) viol("stats-writes", fmt("after %s: numWrites=%u but %llu data/variable page writes were issued", op, st->numWrites, (unsigned long long)w));
    if (c.index() && st->numIdxReads != ir) viol("stats-idxreads", fmt("after %s: numIdxReads=%u, issued %llu", op, st->numIdxReads, (unsigned long long)ir));
    if (c.index() && st->numIdxWrites != iw) viol("stats-idxwrites", fmt("after %s: numIdxWrites=%u, issued %llu", op, st->numIdxWrites, (unsigned long long)iw));
    if (st->bufferHits < hits) viol("stats-hits", "bufferHits decreased without a reset");
    hits = st->bufferHits;
}

// ---- cost of operations (C33)
// Called before an operation; key: the key which is looked up or where an iteration starts (nullptr: none).
void Db::costBegin(void *key) {
    fl.readLog.clear();
    fl.logReads = true;
    for (int i = 0; i < 3; i++) { costW[i] = fl.writes[i]; costE[i] = fl.erases[i]; }
    costLow = st->minDataPageId;
    costHigh = st->nextDataPageId ? st->nextDataPageId - 1 : 0;
    costCovered = false;
    if (c.binsearch() || !key || !st->nextDataPageId || !st->spl->count) return;
    id_t loc, low, high;
    splineFind(st->spl, key, st->compareKey, &loc, &low, &high);
    costCovered = st->spl->count > 1 && st->compareKey(key, splinePointLocation(st->spl, 0)) >= 0;
    if (costCovered && high > low && (uint64_t)high - low > 2 * (uint64_t)st->spl->maxError)
        viol("cost-interval", fmt("the spline allows pages %u to %u for a key between its points, but its error is at most %llu", low, high, (unsigned long long)st->spl->maxError));
    costLow = std::max(costLow, (uint32_t)low);
    costHigh = high;
}
void Db::costGet(uint64_t k, std::vector<uint8_t> key, bool found) {
    fl.logReads = false;
    size_t n = fl.readLog.size();
    cnt("lookup_costs");
    cnt("lookup_pages_read", n);
    uint32_t pages = st->nextDataPageId - st->minDataPageId;
    if (m.bufStart < m.hist.size() && k >= m.hist[m.bufStart].key && n) viol("cost-lookup", fmt("lookup of key %llu, which the write buffer decides, read %zu pages", (unsigned long long)k, n));
    if (m.P == 0 && n) viol("cost-lookup", fmt("lookup without any page on storage read %zu pages", n));
    std::set<uint32_t> seen;
    for (auto &x : fl.readLog) {
        if (x.first != F_DATA) viol("cost-lookup", fmt("a lookup of fixed data read page %u of file %d", x.second, x.first));
        if (!seen.insert(x.second).second) viol("cost-lookup", fmt("lookup of key %llu read data page %u twice", (unsigned long long)k, x.second));
        if (c.binsearch()) continue;
        bool in = false;
        if (costLow <= costHigh) in = (x.second + (uint64_t)c.nData - costLow % c.nData) % c.nData <= costHigh - costLow;
        if (!in) viol("cost-lookup", fmt("lookup of key %llu read physical page %u, the spline allows pages %u to %u", (unsigned long long)k, x.second, costLow, costHigh));
    }
    if (c.binsearch()) {
        size_t lim = 1;
        while ((1u << lim) <= pages) lim++;
        if (n > lim) viol("cost-lookup", fmt("binary search for key %llu in %u pages read %zu pages", (unsigned long long)k, pages, n));
        if (n > 2) cnt("binary_searches_over_2_pages");
    } else if (costCovered) {
        cnt("spline_lookups_covered");
        if (n > 2 * c.splErr + 1) viol("cost-lookup", fmt("lookup of key %llu between the spline points read %zu pages, error bound %zu", (unsigned long long)k, n, c.splErr));
    }
    if (found && n && !c.binsearch()) {
        // the page is buffered now
        std::vector<uint8_t> data(c.dataSize);
        uint64_t r0 = fl.reads[0];
        fl.phase = PH_READ;
        if (embedDBGet(st, key.data(), dptr(data)) != 0) viol("get-missing", fmt("second lookup of key %llu failed", (unsigned long long)k));
        if (fl.reads[0] != r0) viol("cost-lookup", fmt("repeated lookup of key %llu read its page again", (unsigned long long)k));
        cnt("repeated_lookups");
    }
}
void Db::costQuery(const Query &q) {
    fl.logReads = false;
    cnt("query_costs");
    uint64_t min = st->minDataPageId, end = st->nextDataPageId;  // [min, end)
    // entries of the index pages on storage
    std::map<uint64_t, const uint8_t *> entry;
    uint64_t idxPages = 0, gaps = 0, firstE = UINT64_MAX, lastE = 0;
    std::vector<uint8_t> qb;
    bool filter = (c.params & EMBEDDB_USE_BMAP) && (q.hasMinD || q.hasMaxD);
    bool sound = c.index();
    if (filter && c.index()) {
        qb.assign(c.bmSize, 0);
        std::vector<uint8_t> a(q.minD), b(q.maxD);
        st->buildBitmapFromRange(q.hasMinD ? a.data() : nullptr, q.hasMaxD ? b.data() : nullptr, qb.data());
        uint64_t prev = 0;
        // the oldest index page is found on storage, going back from the newest one
        uint64_t next = st->nextIdxPageId;
        if (c.eraseFill >= 0 && !c.raw) {
            // so is the newest one: what a restart found must be all there is
            next = 0;
            for (uint32_t i = 0; i < c.nIdx; i++) {
                uint32_t id;
                memcpy(&id, &fl.f[F_IDX].bytes[(size_t)i * c.pageSize], 4);
                if (fl.f[F_IDX].st[i] && id % c.nIdx == i) next = std::max<uint64_t>(next, (uint64_t)id + 1);
            }
            cnt("index_ends_derived");
        }
        uint64_t oldest = next;
        while (oldest && fl.f[F_IDX].st[(oldest - 1) % c.nIdx]) {
            uint32_t id;
            memcpy(&id, &fl.f[F_IDX].bytes[(size_t)((oldest - 1) % c.nIdx) * c.pageSize], 4);
            if (id != oldest - 1) break;
            oldest--;
        }
        if (c.eraseFill < 0) oldest = st->minIndexPageId;  // an erase that keeps the bytes: recovery may count pages of the erased block
        cnt("index_starts_derived", c.eraseFill >= 0);
        for (uint64_t i = oldest; i < next; i++) {
            const SimFile &f = fl.f[F_IDX];
            const uint8_t *pg = &f.bytes[(size_t)(i % c.nIdx) * c.pageSize];
            uint32_t id, first;
            uint16_t n;
            memcpy(&id, pg, 4);
            memcpy(&n, pg + 4, 2);
            memcpy(&first, pg + 8, 4);
            if (!f.st[i % c.nIdx] || id != i || first < prev) sound = false;
            if (!sound) { TRACE("index page %llu: id %u first %u n %u prev %llu st %d", (unsigned long long)i, id, first, n, (unsigned long long)prev, f.st[i % c.nIdx]); break; }
            prev = (uint64_t)first + n;
            idxPages++;
            for (uint32_t j = 0; j < n; j++) entry[(uint64_t)first + j] = pg + 16 + (size_t)j * c.bmSize;
            firstE = std::min<uint64_t>(firstE, first);
            lastE = prev;
        }
        for (uint64_t p = std::max(min, firstE); p < std::min(end, lastE); p++) gaps += !entry.count(p);
    }
    auto skippable = [&](uint64_t p) {
        if (!filter || !sound) return false;
        auto e = entry.find(p);
        if (e == entry.end()) return false;
        for (int i = 0; i < c.bmSize; i++)
            if (e->second[i] & qb[i]) return false;
        return true;
    };
    uint64_t start = q.hasMinK ? std::max<uint64_t>(min, costLow) : min;
    uint64_t stop = end;  // the page on which the iteration has to stop
    if (filter && !sound && c.index()) cnt("queries_with_gapped_index");
    if (q.hasMaxK && !(filter && c.index() && !sound)) {
        size_t j = std::upper_bound(m.hist.begin(), m.hist.end(), q.maxK, [](uint64_t k, const Rec &r) { return k < r.key; }) - m.hist.begin();
        while (q.hasMinK && j < m.hist.size() && m.hist[j].key < q.minK) j++;  // empty ranges
        if (j < m.bufStart) {
            stop = std::upper_bound(m.pageFirst.begin(), m.pageFirst.end(), j) - m.pageFirst.begin() - 1;
            stop = std::max(stop, start);
            while (stop < end && skippable(stop)) stop++;
        }
    }
    std::set<uint32_t> allowed;
    uint64_t skipped = 0;
    for (uint64_t p = start; p < end && p <= stop; p++) {
        if (skippable(p)) skipped++;
        else allowed.insert(p % c.nData);
    }
    cnt("pages_skipped_by_index", skipped);
    if (start > min) cnt("queries_started_by_spline");
    if (stop + 1 < end) cnt("queries_stopped_early");
    std::set<uint32_t> seen;
    size_t idx = 0;
    for (auto &x : fl.readLog) {
        if (x.first == F_IDX) { idx++; continue; }
        if (x.first != F_DATA) viol("cost-query", fmt("an iteration over fixed data (%s) read page %u of file %d", q.str().c_str(), x.second, x.first));
        if (!allowed.count(x.second)) viol("cost-query", fmt("iterator (%s) read physical page %u, but only pages %llu to %llu%s can hold matches", q.str().c_str(), x.second, (unsigned long long)start, (unsigned long long)std::min(stop, end), filter && sound ? ", less those excluded by the index," : ""));
        if (!seen.insert(x.second).second) viol("cost-query", fmt("iterator (%s) read data page %u twice", q.str().c_str(), x.second));
    }
    if (!filter && idx) viol("cost-query", fmt("iterator (%s) without data filter read %zu index pages", q.str().c_str(), idx));
    if (filter && sound) {
        uint64_t lg = 2;
        while ((1ull << lg) < idxPages) lg++;
        uint64_t lim = idxPages + (gaps + 1) * (lg + 1);
        cnt("index_pages_read", idx);
        if (idx > lim) viol("cost-query", fmt("iterator (%s) read %zu index pages, the index has %llu", q.str().c_str(), idx, (unsigned long long)idxPages));
    }
}
// A put (of r) or flush; ok: it succeeded.
void Db::costWrite(const char *op, const Rec *r, bool bufferEmpty, bool ok) {
    fl.logReads = false;
    cnt("write_costs");
    uint64_t w[3], rd[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++) w[i] = fl.writes[i] - costW[i];
    for (auto &x : fl.readLog) rd[x.first]++;
    uint64_t payload = c.pageSize - 4 - c.keySize, vlim = r ? (r->hasVar ? (4 + (uint64_t)r->varLen + payload - 1) / payload + 2 : 1) : 1;
    uint64_t dlim = 1 + (r && c.rlc() ? 1 : 0);
    if (w[0] > dlim || w[1] > (r ? 1 : 2) || w[2] > vlim) viol("cost-write", fmt("%s wrote %llu data, %llu index and %llu variable pages (at most %llu, %d, %llu)", op, (unsigned long long)w[0], (unsigned long long)w[1], (unsigned long long)w[2], (unsigned long long)dlim, r ? 1 : 2, (unsigned long long)vlim));
    if (r && !c.rlc() && w[1] && !w[0]) viol("cost-write", fmt("%s wrote an index page but no data page", op));
    if (rd[0] > (r && bufferEmpty ? 1 : 0) || rd[1] || rd[2] > fl.erases[2] - costE[2]) viol("cost-write", fmt("%s read %llu data, %llu index and %llu variable pages", op, (unsigned long long)rd[0], (unsigned long long)rd[1], (unsigned long long)rd[2]));
    if (!ok && (w[0] || w[1] || w[2])) viol("cost-write", fmt("%s was refused but wrote pages", op));
}

void Db::checkIndexPage(const Mut &w) {
    uint32_t id, first;
    uint16_t n;
    memcpy(&id, w.content.data(), 4);
    memcpy(&n, &w.content[4], 2);
    memcpy(&first, &w.content[8], 4);
    if (w.a != id % c.nIdx) viol("index-location", fmt("index page %u written at physical page %u", id, w.a));
    if (n == 0 || (size_t)16 + n * c.bmSize > (size_t)c.pageSize) viol("index-count", fmt("index page %u stores count %u", id, n));
    if (!(c.params & EMBEDDB_USE_BMAP)) return;
    // the page describes n consecutive data pages, normally starting at the recorded first page
    for (int j = 0; j < n; j++) {
        auto it = pageBm.find((uint64_t)first + j);
        if (it == pageBm.end()) {
            if ((uint64_t)first + j >= m.P + 1) viol("index-range", fmt("index page %u describes data page %u, which does not exist (first %u, count %u, %llu data pages)", id, first + j, first, n, (unsigned long long)m.P));
            continue;
        }
        if (memcmp(&w.content[16 + (size_t)j * c.bmSize], it->second.data(), c.bmSize)) viol("index-bitmap", fmt("index page %u entry %d differs from the bitmap of data page %u", id, j, first + j));
        cnt("index_entries_checked");
    }
}

// verify the content of every data page written since logStart; updates page accounting of the model.
void Db::checkWrittenPages(size_t logStart, const Rec *pending) {
    size_t first = m.bufStart, end = m.hist.size();
    uint64_t newP = st->nextDataPageId;
    for (size_t i = logStart; i < fl.log.size(); i++) {
        const Mut &w = fl.log[i];
        if (w.kind != M_WRITE) continue;
        if (w.file == F_VAR) { m.vW++; continue; }
        if (w.file == F_IDX) {
            cnt("index_page_writes");
            if (checkPages) checkIndexPage(w);
            continue;
        }
        uint32_t id;
        memcpy(&id, w.content.data(), 4);
        bool perm = m.P < newP && id == m.P;
        if (checkPages) {
            cnt(perm ? "pages_checked" : "temp_pages_checked");
            uint8_t *pg = (uint8_t *)w.content.data();
            if (!perm && !(c.rlc() && id == m.P)) viol("page-id", fmt("data page written with logical id %u, expected %llu", id, (unsigned long long)m.P));
            if (perm && w.a != id % c.nData) viol("page-location", fmt("page %u written at physical page %u", id, w.a));
            std::vector<const Rec *> rs;
            for (size_t k = first; k < end; k++) rs.push_back(&m.hist[k]);
            if (!perm && pending) rs.push_back(pending);
            uint16_t n;
            memcpy(&n, pg + EMBEDDB_COUNT_OFFSET, 2);
            if (n != rs.size()) viol("page-count", fmt("page %u stores count %u but holds %zu records", id, n, rs.size()));
            if (rs.size() > st->maxRecordsPerPage || st->headerSize + (long)rs.size() * st->recordSize > c.pageSize) viol("page-overflow", fmt("page %u: %zu records do not fit", id, rs.size()));
            for (size_t k = 0; k < rs.size(); k++) {
                uint8_t *p = pg + st->headerSize + k * st->recordSize;
                if (memcmp(p, &rs[k]->key, c.keySize)) viol("page-key", fmt("page %u record %zu: stored key differs from the accepted key %llu", id, k, (unsigned long long)rs[k]->key));
                if (memcmp(p + c.keySize, dptr(rs[k]->data), c.dataSize)) viol("page-data", fmt("page %u record %zu (key %llu): stored data differs", id, k, (unsigned long long)rs[k]->key));
                if (c.params & EMBEDDB_USE_BMAP) {
                    std::vector<uint8_t> one(16, 0), d(rs[k]->data);
                    d.resize(std::max<size_t>(d.size(), 8));
                    st->updateBitmap(d.data(), one.data());
                    uint8_t *bm = (uint8_t *)EMBEDDB_GET_BITMAP(pg);
                    for (int b = 0; b < c.bmSize; b++)
                        if ((bm[b] & one[b]) != one[b]) viol("page-bitmap", fmt("page %u: bitmap does not cover record %zu (value %d)", id, k, rs[k]->val));
                }
            }
            if (perm && c.bmSize && (c.params & EMBEDDB_USE_BMAP)) {
                uint8_t *bm = (uint8_t *)EMBEDDB_GET_BITMAP(pg);
                pageBm[m.P] = std::vector<uint8_t>(bm, bm + c.bmSize);
            }
            if ((c.params & EMBEDDB_USE_MAX_MIN) && !rs.empty()) {
                const Rec *lo = rs[0], *hi = rs[0];
                for (auto *x : rs) { if (x->val < lo->val) lo = x; if (x->val > hi->val) hi = x; }
                uint64_t k0 = 0, k1 = 0;
                uint8_t *mm = pg + 6 + (c.index() || (c.params & EMBEDDB_USE_BMAP) ? c.bmSize : 0);
                memcpy(&k0, mm, c.keySize);
                memcpy(&k1, mm + c.keySize, c.keySize);
                uint8_t *md = mm + 2 * c.keySize;
                if (k0 != rs[0]->key || k1 != rs.back()->key) viol("page-minmax-key", fmt("page %u: header keys [%llu,%llu], records [%llu,%llu]", id, (unsigned long long)k0, (unsigned long long)k1, (unsigned long long)rs[0]->key, (unsigned long long)rs.back()->key));
                std::vector<uint8_t> d0(md, md + c.dataSize);
                std::vector<uint8_t> d1(md + c.dataSize, md + 2 * c.dataSize);
                if (valOf(c, d0) != lo->val || valOf(c, d1) != hi->val) viol("page-minmax-data", fmt("page %u: header data [%d,%d], records [%d,%d]", id, valOf(c, d0), valOf(c, d1), lo->val, hi->val));
            }
        }
        if (perm) {
            m.pageFirst.push_back(first);
            permLog.push_back(i);
            m.P++;
            first = end;
            m.bufStart = end;
        }
    }
    if (m.P != newP) {
        if (!tolerant) viol("page-accounting", fmt("library reports %llu data pages written, %llu reached storage", (unsigned long long)newP, (unsigned long long)m.P));
    }
    m.mn = std::max<uint64_t>(m.mn, modelMn(c, m.P));
}

// ---------------------------------------------------------------- operations
int8_t Db::put(Rec r, bool viaPut) {
    uint8_t kb[8];
    keyBytes(r.key, kb);
    std::vector<uint8_t> key(kb, kb + c.keySize), data(r.data);  // exact-size heap copies: overreads are visible to ASan
    std::vector<uint8_t> vb;
    // pages of a failed earlier attempt carry this key as well, so they take the record with them when reclaimed
    if (m.failedKey == (int64_t)r.key) r.vFirst = m.failedVFirst;
    else r.vFirst = m.vW;
    r.op = fl.curOp + 1;
    if (r.hasVar) varBytes(r.varSeed, r.varLen, vb);
    m.maxKeyTried = m.any ? std::max(m.maxKeyTried, r.key) : r.key;
    m.any = true;
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_PUT;
    uint32_t fb = fl.faults.fired, wb = fl.faults.wfired, ff = fl.faults.flushFired;
    int8_t res;
    bool bufferEmpty = m.bufStart == m.hist.size();
    if (costOn()) costBegin(nullptr);
    if (!c.vdata() || viaPut) res = embedDBPut(st, key.data(), dptr(data));
    else {
        uint8_t dummy = 0;
        res = embedDBPutVar(st, key.data(), dptr(data), r.hasVar ? (vb.empty() ? &dummy : vb.data()) : nullptr, r.hasVar ? r.varLen : 0);
    }
    TRACE("put key=%llu val=%d var=%d/%u -> %d", (unsigned long long)r.key, r.val, r.hasVar, r.varLen, res);
    TRACE("    P=%llu min=%u avail=%u rlc=%u/%u pages=%llu", (unsigned long long)m.P, st->minDataPageId, st->numAvailDataPages, st->rlcPhysicalStartingPage, st->nextRLCPhysicalPageLocation, (unsigned long long)m.mn);
    dig(res);
    lastFail = res != 0;
    if (res != 0 && !(tolerant && fl.faults.fired > fb)) viol("put-refused", fmt("put of key %llu (ascending) returned %d", (unsigned long long)r.key, res));
    if (res == 0 && fl.faults.wfired > wb) viol("failure-hidden", fmt("put of key %llu returned success although a page write or erase failed during it", (unsigned long long)r.key));
    if (costOn()) costWrite("put", &r, bufferEmpty, true);
    checkWrittenPages(ls, &r);
    if (res == 0) maybe.clear();
    else if (c.rlc() && fl.faults.flushFired > ff) { maybe.push_back(r); maybe.back().varUnknown = true; }
    if (res == 0) m.hist.push_back(r);
    else if (r.hasVar) { m.failedKey = r.key; m.failedVFirst = r.vFirst; }
    if (res != 0) m.mn = std::max<uint64_t>(m.mn, std::min<uint64_t>(m.P, modelMn(c, m.P + 1)));  // the oldest block may have been erased before the failing write
    if (checkDurable && res == 0 && c.rlc()) durableCheck("put with record-level consistency", true, false, r.hasVar);
    endOp("puts");
    return res;
}
void Db::resolveMaybe() {
    for (const Rec &x : maybe) {
        if (!m.hist.empty() && m.hist.back().key >= x.key) continue;
        uint8_t kb[8];
        keyBytes(x.key, kb);
        std::vector<uint8_t> k(kb, kb + c.keySize), v(c.dataSize);
        fl.phase = PH_READ;
        int8_t r = embedDBGet(st, k.data(), dptr(v));
        fl.phase = PH_NONE;
        if (r == 0) { m.hist.push_back(x); cnt("unflushed_put_recovered"); break; }
    }
    maybe.clear();
}
void Db::putBad(uint64_t k, bool var) {
    uint8_t kb[8];
    keyBytes(k, kb);
    std::vector<uint8_t> key(kb, kb + c.keySize), data(c.dataSize, 0xAB), vb(1 + rng->below(50), 0xCD);
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_PUT;
    bool bufferEmpty = m.bufStart == m.hist.size();
    Rec none;
    if (costOn()) costBegin(nullptr);
    int8_t res = (var && c.vdata()) ? embedDBPutVar(st, key.data(), dptr(data), vb.data(), vb.size()) : embedDBPut(st, key.data(), dptr(data));
    TRACE("putBad key=%llu -> %d", (unsigned long long)k, res);
    dig(res);
    if (res == 0) viol("order-accepted", fmt("put of key %llu accepted although key %llu is stored", (unsigned long long)k, (unsigned long long)m.hist.back().key));
    if (costOn()) costWrite("refused put", &none, bufferEmpty, false);
    checkWrittenPages(ls, nullptr);
    endOp("rejected_puts");
}
void Db::get(uint64_t k) {
    uint8_t kb[8];
    keyBytes(k, kb);
    std::vector<uint8_t> key(kb, kb + c.keySize), data(c.dataSize, 0x5A);
    fl.curOp++;
    fl.phase = PH_READ;
    uint32_t fb = fl.faults.fired;
    uint64_t rb = fl.reads[0];
    uint32_t hb = st->bufferHits;
    if (costOn()) costBegin(key.data());
    int8_t res = embedDBGet(st, key.data(), dptr(data));
    TRACE("get key=%llu -> %d", (unsigned long long)k, res);
    dig(res == 0);
    if (res == 0) digBytes(dptr(data), data.size());
    int64_t i = find(k);
    bool faulted = tolerant && fl.faults.fired > fb;
    if (res == 0) {
        if (i < 0) viol("get-phantom", fmt("get of key %llu, never accepted, succeeded", (unsigned long long)k));
        if (data != m.hist[i].data) viol("get-wrong-data", fmt("get of key %llu returned wrong data", (unsigned long long)k));
        cnt("gets_found");
        if (checkStats && (size_t)i < m.bufStart && fl.reads[0] == rb && st->bufferHits == hb)
            viol("stats-hit-missed", fmt("get of stored key %llu needed no read but bufferHits did not change", (unsigned long long)k));
    } else {
        if (i >= 0 && (size_t)i >= m.cutRec() && !faulted)
            viol("get-missing", fmt("get of accepted key %llu (record %lld of %zu, buffer starts at %zu, oldest retained %zu) returned %d", (unsigned long long)k, (long long)i, m.hist.size(), m.bufStart, m.cutRec(), res));
        cnt(i < 0 ? "gets_absent" : "gets_reclaimed");
    }
    if (costOn()) costGet(k, key, res == 0);
    endOp("gets");
}
void Db::checkStream(embedDBVarDataStream *s, const Rec &r, Rng &rr, const char *who) {
    std::vector<uint8_t> exp;
    varBytes(r.varSeed, r.varLen, exp);
    if (s->totalBytes != r.varLen) viol("var-length", fmt("%s key %llu: stream length %u, stored %u", who, (unsigned long long)r.key, s->totalBytes, r.varLen));
    uint32_t pos = 0;
    int mode = rr.below(4);
    int guard = 0;
    while (true) {
        uint32_t chunk = mode == 0 ? r.varLen + 1 : mode == 1 ? 1 + rr.below(7) : mode == 2 ? 1 + rr.below(c.pageSize) : (c.pageSize - c.keySize - 4);
        if (mode == 1 && r.varLen > 600) chunk += 60;
        std::vector<uint8_t> b(chunk, 0x77);
        uint32_t fb = fl.faults.fired;
        uint32_t n = embedDBVarDataStreamRead(st, s, b.data(), chunk);
        if (tolerant && fl.faults.fired > fb) {
            if (n > 0 && n < std::min(chunk, r.varLen - pos) && 0) {}
            if (n > std::min(chunk, r.varLen - pos)) viol("var-overrun", fmt("%s: %u bytes returned", who, n));
            if (n && memcmp(b.data(), exp.data() + pos, n)) viol("var-bytes", fmt("%s key %llu: wrong bytes under a read fault", who, (unsigned long long)r.key));
            return;
        }
        uint32_t want = std::min(chunk, r.varLen - pos);
        if (n != want) viol("var-short", fmt("%s key %llu: chunk of %u at %u returned %u bytes, expected %u", who, (unsigned long long)r.key, chunk, pos, n, want));
        if (n && memcmp(b.data(), exp.data() + pos, n)) viol("var-bytes", fmt("%s key %llu: wrong variable bytes in [%u,%u) of %u", who, (unsigned long long)r.key, pos, pos + n, r.varLen));
        pos += n;
        cnt("stream_chunks");
        if (n == 0) break;
        if (++guard > 100000) viol("var-endless", "stream never ends");
    }
    if (pos != r.varLen) viol("var-short", fmt("%s: stream ended after %u of %u bytes", who, pos, r.varLen));
    cnt("var_values_verified");
}
void Db::getVar(uint64_t k, Rng &rr) {
    if (!c.vdata()) return get(k);
    uint8_t kb[8];
    keyBytes(k, kb);
    std::vector<uint8_t> key(kb, kb + c.keySize), data(c.dataSize, 0x5A);
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_READ;
    uint32_t fb = fl.faults.fired;
    embedDBVarDataStream *s = (embedDBVarDataStream *)(uintptr_t)0x1;
    int8_t res = embedDBGetVar(st, key.data(), dptr(data), &s);
    bool untouched = s == (embedDBVarDataStream *)(uintptr_t)0x1;
    TRACE("getVar key=%llu -> %d stream=%d", (unsigned long long)k, res, untouched ? -1 : s != nullptr);
    checkWrittenPages(ls, nullptr);
    dig(res);
    int64_t i = find(k);
    bool faulted = tolerant && fl.faults.fired > fb;
    if (res == 0 || res == 1) {
        std::unique_ptr<embedDBVarDataStream, void (*)(void *)> own(untouched ? nullptr : s, vp_free);
        if (untouched) viol("getvar-no-stream-set", fmt("getVar of key %llu returned %d without setting the stream", (unsigned long long)k, res));
        if (i < 0) viol("getvar-phantom", fmt("getVar of key %llu, never accepted, returned %d", (unsigned long long)k, res));
        const Rec &r = m.hist[i];
        if (data != r.data) viol("getvar-wrong-data", fmt("getVar of key %llu returned wrong fixed data", (unsigned long long)k));
        digBytes(dptr(data), data.size());
        if (r.varUnknown) {
        } else if (!r.hasVar) {
            if (s) viol("var-phantom", fmt("key %llu was stored without variable data but a stream of %u bytes was returned", (unsigned long long)k, s->totalBytes));
            if (res != 0) viol("var-false-deleted", fmt("key %llu was stored without variable data but it is reported deleted", (unsigned long long)k));
        } else if (res == 1) {
            if (s) viol("var-deleted-stream", "deleted variable data but a stream was returned");
            if (varMustExist(r)) viol("var-false-deleted", fmt("variable data of key %llu (first page %llu) reported deleted, %llu pages written, %u allotted", (unsigned long long)k, (unsigned long long)r.vFirst, (unsigned long long)m.vW, c.nVar));
            cnt("var_reported_deleted");
        } else {
            if (!s) viol("var-lost", fmt("key %llu has %u bytes of variable data but no stream was returned", (unsigned long long)k, r.varLen));
            checkStream(s, r, rr, "getVar");
        }
        dig(s != nullptr);
    } else {
        if (i >= 0 && (size_t)i >= m.cutRec() && !faulted) viol("getvar-missing", fmt("getVar of accepted key %llu returned %d", (unsigned long long)k, res));
    }
    endOp("getvars");
}
void Db::flush() {
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_FLUSH;
    uint32_t fb = fl.faults.fired, wb = fl.faults.wfired;
    if (costOn()) costBegin(nullptr);
    int8_t res = embedDBFlush(st);
    if (costOn()) costWrite("flush", nullptr, false, true);
    TRACE("flush -> %d (P=%llu min=%u rlc=%u/%u)", res, (unsigned long long)m.P, st->minDataPageId, st->rlcPhysicalStartingPage, st->nextRLCPhysicalPageLocation);
    dig(res);
    lastFail = res != 0;
    if (res != 0 && !(tolerant && fl.faults.fired > fb)) viol("flush-failed", fmt("embedDBFlush returned %d", res));
    if (res == 0 && fl.faults.wfired > wb) viol("failure-hidden", "embedDBFlush returned success although a page write or erase failed during it");
    checkWrittenPages(ls, nullptr);
    // a flush that fails on the medium may already have reclaimed the oldest block for the page it could not write
    if (res != 0) m.mn = std::max<uint64_t>(m.mn, std::min<uint64_t>(m.P, modelMn(c, m.P + 1)));
    if (res == 0 && m.bufStart != m.hist.size() && !(tolerant && fl.faults.fired > fb)) viol("flush-no-write", "embedDBFlush returned success but buffered records were not written");
    if (checkDurable && res == 0) durableCheck("embedDBFlush", true, true, true);
    endOp("flushes");
}
void Db::flushVar() {
    if (!c.vdata()) return;
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_FLUSH;
    uint32_t fb = fl.faults.fired, wb = fl.faults.wfired;
    if (costOn()) costBegin(nullptr);
    int8_t res = embedDBFlushVar(st);
    if (costOn()) costWrite("variable data flush", nullptr, false, true);
    TRACE("flushVar -> %d", res);
    dig(res);
    lastFail = res != 0;
    if (res != 0 && !(tolerant && fl.faults.fired > fb)) viol("flush-failed", fmt("embedDBFlushVar returned %d", res));
    if (res == 0 && fl.faults.wfired > wb) viol("failure-hidden", "embedDBFlushVar returned success although a page write or erase failed during it");
    checkWrittenPages(ls, nullptr);
    if (checkDurable && res == 0) durableCheck("embedDBFlushVar", false, false, true);
    endOp("var_flushes");
}
Query Db::genQuery(Rng &r, bool keys, bool data) {
    Query q;
    if (keys) {
        q.hasMinK = r.pct(65);
        q.hasMaxK = r.pct(65);
        q.minK = probeKey(r);
        q.maxK = probeKey(r);
        if (q.hasMinK && q.hasMaxK && q.minK > q.maxK && r.pct(90)) std::swap(q.minK, q.maxK);
        if (r.pct(10)) { q.hasMinK = q.hasMaxK = true; q.maxK = q.minK; }
    }
    if (data) {
        q.hasMinD = r.pct(70);
        q.hasMaxD = r.pct(70);
        if (!q.hasMinD && !q.hasMaxD) q.hasMinD = true;
        auto bound = [&](std::vector<uint8_t> &d, int32_t &v) {
            if (!m.hist.empty() && r.pct(75)) {
                size_t lo = r.pct(50) ? std::min(m.cutRec(), m.hist.size() - 1) : 0;
                const Rec &x = m.hist[lo + r.below(m.hist.size() - lo)];
                d = x.data;
                int32_t dv = (int32_t)((int64_t)x.val + (int64_t)r.below(3) - 1);
                if (c.dataCmp == 1) { int16_t s = dv; memcpy(d.data(), &s, 2); }
                else if (c.dataCmp >= 2) memcpy(d.data(), &dv, 4);
                v = valOf(c, d);
            } else genData(c, r, r.below(100), d, v);
        };
        bound(q.minD, q.minV);
        bound(q.maxD, q.maxV);
        if (q.hasMinD && q.hasMaxD && q.minV > q.maxV && r.pct(90)) { std::swap(q.minD, q.maxD); std::swap(q.minV, q.maxV); }
        if (q.hasMinD && q.hasMaxD && r.pct(25)) {  // narrow range
            q.maxD = q.minD;
            int32_t v = (int32_t)std::min<int64_t>((int64_t)q.minV + (int64_t)r.below(8), INT32_MAX);
            if (c.dataCmp == 1) { int16_t s = v; memcpy(q.maxD.data(), &s, 2); }
            else if (c.dataCmp >= 2) memcpy(q.maxD.data(), &v, 4);
            q.maxV = valOf(c, q.maxD);
        }
    }
    return q;
}
void Db::query(const Query &q, bool withVar, Rng &rr, size_t limit) {
    withVar = withVar && c.vdata();
    uint8_t k1[8], k2[8];
    keyBytes(q.minK, k1);
    keyBytes(q.maxK, k2);
    std::vector<uint8_t> mk(k1, k1 + c.keySize), xk(k2, k2 + c.keySize), md(q.minD), xd(q.maxD);
    embedDBIterator it;
    memset(&it, c.memFill, sizeof it);
    it.minKey = q.hasMinK ? mk.data() : nullptr;
    it.maxKey = q.hasMaxK ? xk.data() : nullptr;
    it.minData = q.hasMinD ? md.data() : nullptr;
    it.maxData = q.hasMaxD ? xd.data() : nullptr;
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_READ;
    uint32_t fb = fl.faults.fired;
    bool cost = costOn() && !withVar;
    if (cost) costBegin(q.hasMinK ? mk.data() : nullptr);
    embedDBInitIterator(st, &it);
    struct Closer { embedDBIterator *i; ~Closer() { embedDBCloseIterator(i); } } closer{&it};
    size_t oldest = m.cutRec();
    int64_t last = -1;
    size_t n = 0;
    bool ended = false;
    std::vector<uint8_t> key(c.keySize), data(c.dataSize);
    // reclaimed-but-still-stored records may only appear as a contiguous run just below the oldest retained one
    size_t floorRec = SIZE_MAX;
    while (n < limit) {
        std::fill(key.begin(), key.end(), 0x33);
        std::fill(data.begin(), data.end(), 0x33);
        embedDBVarDataStream *s = (embedDBVarDataStream *)(uintptr_t)0x1;
        uint32_t fb2 = fl.faults.fired;
        int8_t res = withVar ? embedDBNextVar(st, &it, key.data(), dptr(data), &s) : embedDBNext(st, &it, key.data(), dptr(data));
        if (withVar) checkWrittenPages(ls, nullptr), ls = fl.log.size();
        dig(res);
        if (!res) {
            ended = true;
            break;
        }
        std::unique_ptr<embedDBVarDataStream, void (*)(void *)> own(withVar && s != (embedDBVarDataStream *)(uintptr_t)0x1 ? s : nullptr, vp_free);
        uint64_t k = 0;
        memcpy(&k, key.data(), c.keySize);
        digBytes(key.data(), key.size());
        digBytes(dptr(data), data.size());
        int64_t i = find(k);
        if (i < 0) viol("iter-phantom", fmt("iterator (%s) returned key %llu, never accepted", q.str().c_str(), (unsigned long long)k));
        if (i <= last) viol("iter-order", fmt("iterator (%s) returned key %llu after key %llu", q.str().c_str(), (unsigned long long)k, (unsigned long long)m.hist[last].key));
        if (m.hist[i].data != data) viol("iter-wrong-data", fmt("iterator (%s) returned wrong data for key %llu", q.str().c_str(), (unsigned long long)k));
        if (!matches(q, m.hist[i])) viol("iter-out-of-range", fmt("iterator (%s) returned key %llu value %d", q.str().c_str(), (unsigned long long)k, m.hist[i].val));
        if (floorRec == SIZE_MAX) floorRec = std::min((size_t)i, oldest);
        for (size_t j = last < 0 ? floorRec : last + 1; j < (size_t)i; j++)
            if (matches(q, m.hist[j])) viol("iter-missing", fmt("iterator (%s) skipped key %llu (record %zu, buffer starts at %zu, oldest retained %zu, value %d)", q.str().c_str(), (unsigned long long)m.hist[j].key, j, m.bufStart, oldest, m.hist[j].val));
        last = i;
        n++;
        cnt("records_iterated");
        if (withVar) {
            const Rec &r = m.hist[i];
            bool untouched = s == (embedDBVarDataStream *)(uintptr_t)0x1;
            if (untouched) viol("nextvar-no-stream-set", fmt("NextVar returned key %llu without setting the stream", (unsigned long long)k));
            if (r.varUnknown) {
            } else if (!r.hasVar) {
                if (s) viol("var-phantom", fmt("NextVar: key %llu was stored without variable data but a stream was returned", (unsigned long long)k));
            } else if (!s) {
                if (varMustExist(r) && !(tolerant && fl.faults.fired > fb2)) viol("var-false-deleted", fmt("NextVar: variable data of key %llu (first page %llu) missing, %llu pages written, %u allotted", (unsigned long long)k, (unsigned long long)r.vFirst, (unsigned long long)m.vW, c.nVar));
                cnt("var_reported_deleted");
            } else if (rr.pct(70)) {
                checkStream(s, r, rr, "NextVar");
            }
        }
    }
    if (cost) costQuery(q);
    bool faulted = tolerant && fl.faults.fired > fb;
    if (ended && !faulted) {
        size_t from = last < 0 ? oldest : last + 1;
        for (size_t j = from; j < m.hist.size(); j++)
            if (matches(q, m.hist[j])) viol("iter-missing", fmt("iterator (%s) ended without key %llu (record %zu of %zu, buffer starts at %zu, oldest retained %zu, value %d)", q.str().c_str(), (unsigned long long)m.hist[j].key, j, m.hist.size(), m.bufStart, oldest, m.hist[j].val));
        if (embedDBNext(st, &it, key.data(), dptr(data))) viol("iter-restart", "iterator returned a record after reporting the end");
    }
    TRACE("query %s var=%d -> %zu records%s", q.str().c_str(), withVar, n, ended ? "" : " (stopped early)");
    cnt(n ? "queries_nonempty" : "queries_empty");
    endOp("queries");
}
void Db::audit(Rng &r, int depth) {
    cnt("audits");
    Query all;
    query(all, depth >= 1 && c.vdata(), r);
    if (m.hist.empty()) {
        get(r.below(1000));
        return;
    }
    size_t n = m.hist.size(), cut = m.cutRec();
    size_t step = depth >= 2 ? 1 : std::max<size_t>(1, (n - cut) / 24);
    for (size_t i = cut; i < n; i += step) {
        if (depth >= 1 && c.vdata() && (depth >= 2 || r.pct(50))) getVar(m.hist[i].key, r);
        else get(m.hist[i].key);
        uint64_t k = m.hist[i].key;
        if (k < maxKeyVal() - 1 && find(k + 1) < 0 && (depth >= 2 || r.pct(30))) get(k + 1);
    }
    get(m.hist[n - 1].key);
    if (cut < n) get(m.hist[cut].key);
    if (cut > 0) {
        size_t j = cut - 1;
        get(m.hist[j].key);
        get(m.hist[r.below(cut)].key);
    }
    if (m.hist[0].key > 0) get(m.hist[0].key - 1);
    get(maxKeyVal() - 1);
    for (int i = 0; i < 2 + depth; i++) query(genQuery(r, true, false), false, r);
    if (c.dataCmp >= 1 || c.bmKind == 0)
        for (int i = 0; i < 2 + depth; i++) query(genQuery(r, r.pct(40), true), depth >= 1 && r.pct(30), r);
}

// ---------------------------------------------------------------- interleaved readers
void Db::itOpen(Rng &r, bool data, bool var) {
    auto *o = new OpenIt;
    o->q = genQuery(r, r.pct(70), data);
    memset(&o->it, c.memFill, sizeof o->it);
    memcpy(&o->kb[0], &o->q.minK, 8);
    memcpy(&o->kb[1], &o->q.maxK, 8);
    o->it.minKey = o->q.hasMinK ? &o->kb[0] : nullptr;
    o->it.maxKey = o->q.hasMaxK ? &o->kb[1] : nullptr;
    o->it.minData = o->q.hasMinD ? o->q.minD.data() : nullptr;
    o->it.maxData = o->q.hasMaxD ? o->q.maxD.data() : nullptr;
    o->histAtOpen = m.hist.size();
    o->useVar = var && c.vdata();
    fl.phase = PH_READ;
    fl.curOp++;
    embedDBInitIterator(st, &o->it);
    its.push_back(o);
    TRACE("itOpen #%zu %s", its.size() - 1, o->q.str().c_str());
    endOp("iterators_opened");
}
void Db::itStep(size_t idx, Rng &r) {
    OpenIt *o = its[idx];
    std::vector<uint8_t> key(c.keySize, 0x33), data(c.dataSize, 0x33);
    embedDBVarDataStream *s = nullptr;
    size_t ls = fl.log.size();
    fl.phase = PH_READ;
    fl.curOp++;
    bool var = o->useVar && r.pct(60);
    if (!c.vdata() && r.pct(4)) {
        // without variable data the call delivers nothing and does not move the iterator
        if (embedDBNextVar(st, &o->it, key.data(), dptr(data), &s) || s) viol("var-accepted", "embedDBNextVar delivered a record on a database without variable data");
        cnt("refused_var_calls");
    }
    int8_t res = var ? embedDBNextVar(st, &o->it, key.data(), dptr(data), &s) : embedDBNext(st, &o->it, key.data(), dptr(data));
    std::unique_ptr<embedDBVarDataStream, void (*)(void *)> own(s, vp_free);
    checkWrittenPages(ls, nullptr);
    dig(res);
    size_t oldest = m.cutRec();
    if (!res) {
        TRACE("itStep #%zu end", idx);
        for (size_t j = std::max<size_t>(o->last + 1, oldest); j < o->histAtOpen; j++)
            if (matches(o->q, m.hist[j])) viol("interleaved-missing", fmt("iterator (%s) ended without key %llu (record %zu, %zu at open, oldest retained %zu, buffer starts at %zu)", o->q.str().c_str(), (unsigned long long)m.hist[j].key, j, o->histAtOpen, oldest, m.bufStart));
        embedDBCloseIterator(&o->it);
        delete o;
        its.erase(its.begin() + idx);
        endOp("iterator_ends");
        return;
    }
    uint64_t k = 0;
    memcpy(&k, key.data(), c.keySize);
    TRACE("itStep #%zu key=%llu", idx, (unsigned long long)k);
    digBytes(key.data(), key.size());
    digBytes(dptr(data), data.size());
    int64_t i = find(k);
    if (i < 0) viol("interleaved-phantom", fmt("iterator (%s) returned key %llu, never accepted", o->q.str().c_str(), (unsigned long long)k));
    if (m.hist[i].data != data) viol("interleaved-wrong-data", fmt("iterator (%s) returned wrong data for key %llu", o->q.str().c_str(), (unsigned long long)k));
    if (!matches(o->q, m.hist[i])) viol("interleaved-out-of-range", fmt("iterator (%s) returned key %llu value %d", o->q.str().c_str(), (unsigned long long)k, m.hist[i].val));
    if (i <= o->last) viol("interleaved-order", fmt("iterator (%s) returned key %llu after key %llu", o->q.str().c_str(), (unsigned long long)k, (unsigned long long)m.hist[o->last].key));
    for (size_t j = std::max<size_t>(o->last + 1, oldest); j < (size_t)i && j < o->histAtOpen; j++)
        if (matches(o->q, m.hist[j])) viol("interleaved-missing", fmt("iterator (%s) skipped key %llu (record %zu)", o->q.str().c_str(), (unsigned long long)m.hist[j].key, j));
    o->last = i;
    o->returned++;
    if (var) {
        const Rec &rc = m.hist[i];
        if (!rc.hasVar) { if (s) viol("var-phantom", fmt("NextVar: key %llu was stored without variable data", (unsigned long long)k)); }
        else if (!s) { if (varMustExist(rc)) viol("var-false-deleted", fmt("NextVar: variable data of key %llu missing", (unsigned long long)k)); }
        else checkStream(s, rc, r, "NextVar");
    }
    endOp("iterator_steps");
}
void Db::itCloseAll() {
    for (auto *o : its) { embedDBCloseIterator(&o->it); delete o; }
    its.clear();
}
void Db::stOpen(Rng &r) {
    if (!c.vdata() || m.hist.empty()) return;
    size_t lo = m.cutRec();
    size_t i = lo + r.below(m.hist.size() - lo);
    const Rec &rc = m.hist[i];
    if (!rc.hasVar || rc.varLen == 0) return;
    uint8_t kb[8];
    keyBytes(rc.key, kb);
    std::vector<uint8_t> key(kb, kb + c.keySize), data(c.dataSize);
    size_t ls = fl.log.size();
    fl.phase = PH_READ;
    fl.curOp++;
    embedDBVarDataStream *s = nullptr;
    int8_t res = embedDBGetVar(st, key.data(), dptr(data), &s);
    checkWrittenPages(ls, nullptr);
    if (res == 1 && !varMustExist(m.hist[i])) return;
    if (res != 0 || !s) { vp_free(s); viol("getvar-missing", fmt("getVar of key %llu returned %d", (unsigned long long)m.hist[i].key, res)); }
    auto *o = new OpenStream;
    o->s = s;
    o->rec = i;
    varBytes(rc.varSeed, rc.varLen, o->expect);
    streams.push_back(o);
    if (s->totalBytes != rc.varLen) viol("var-length", fmt("key %llu: stream length %u, stored %u", (unsigned long long)rc.key, s->totalBytes, rc.varLen));
    TRACE("stOpen #%zu key=%llu", streams.size() - 1, (unsigned long long)rc.key);
    endOp("streams_opened");
}
void Db::stStep(size_t idx, Rng &r) {
    OpenStream *o = streams[idx];
    bool must = varMustExist(m.hist[o->rec]);
    uint32_t chunk = 1 + r.below(c.pageSize);
    std::vector<uint8_t> b(chunk, 0x77);
    fl.phase = PH_READ;
    fl.curOp++;
    bool done = false;
    if (must && r.pct(5)) {
        // asking for nothing delivers nothing and does not move the stream
        uint32_t n = r.pct(50) ? embedDBVarDataStreamRead(st, o->s, nullptr, chunk) : embedDBVarDataStreamRead(st, o->s, b.data(), 0);
        if (n) viol("var-short", fmt("reading nothing from a stream returned %u bytes", n));
        cnt("empty_stream_reads");
    }
    if (must) {
        uint32_t n = embedDBVarDataStreamRead(st, o->s, b.data(), chunk);
        TRACE("stStep #%zu pos=%u chunk=%u -> %u", idx, o->pos, chunk, n);
        uint32_t want = std::min<uint32_t>(chunk, o->expect.size() - o->pos);
        if (n != want) viol("var-short", fmt("interleaved stream of key %llu: %u bytes at %u, expected %u", (unsigned long long)m.hist[o->rec].key, n, o->pos, want));
        if (n && memcmp(b.data(), o->expect.data() + o->pos, n)) viol("var-bytes", fmt("interleaved stream of key %llu: wrong bytes at %u", (unsigned long long)m.hist[o->rec].key, o->pos));
        o->pos += n;
        done = o->pos == o->expect.size();
    } else done = true;
    if (done) {
        vp_free(o->s);
        delete o;
        streams.erase(streams.begin() + idx);
    }
    endOp("stream_steps");
}
// Variable-data calls on a database without variable data report an error and change nothing.
void Db::refused(Rng &r) {
    if (c.vdata()) return;
    std::vector<uint8_t> key(c.keySize, 0), data(c.dataSize, 0x33), bytes(1 + r.below(40), 0x44);
    uint64_t k = m.any && r.pct(50) ? std::min(m.maxKeyTried + 1, maxKeyVal()) : probeKey(r);
    uint8_t kb[8];
    keyBytes(k, kb);
    memcpy(key.data(), kb, c.keySize);
    embedDBVarDataStream *s = nullptr;
    size_t ls = fl.log.size();
    fl.curOp++;
    fl.phase = PH_READ;
    int which = r.below(3);
    if (which == 0) {
        int8_t res = embedDBPutVar(st, key.data(), dptr(data), bytes.data(), bytes.size());
        if (res == 0) viol("var-accepted", fmt("embedDBPutVar of key %llu succeeded on a database without variable data", (unsigned long long)k));
    } else if (which == 1) {
        int8_t res = embedDBGetVar(st, key.data(), dptr(data), &s);
        if (res == 0 || s) viol("var-accepted", fmt("embedDBGetVar of key %llu returned %d on a database without variable data", (unsigned long long)k, res));
    } else {
        int8_t res = embedDBFlushVar(st);
        if (res != 0) viol("flush-failed", fmt("embedDBFlushVar returned %d on a database without variable data", res));
    }
    if (fl.log.size() != ls) viol("var-accepted", "a variable-data call on a database without variable data changed the storage");
    endOp("refused_var_calls");
}
void Db::stCloseAll() {
    for (auto *s : streams) { vp_free(s->s); delete s; }
    streams.clear();
}
