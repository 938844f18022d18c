// C14: the spline driven directly. The oracle knows every (first key, page) pair added and checks that the interval
// returned for any key contains the page whose key range covers it. The point array is an exact-size allocation, so a
// point written or read outside it is reported by AddressSanitizer.
#include "common.h"
#include "sut.h"
#ifdef SUT_DIST
extern "C" void splineInit(spline *, id_t, size_t, uint8_t);
#endif

static thread_local int tKeySize;
static thread_local uint64_t tCompares;
static int8_t cmpKey(void *a, void *b) {
    uint64_t x = 0, y = 0;
    memcpy(&x, a, tKeySize);
    memcpy(&y, b, tKeySize);
    tCompares++;
    return x < y ? -1 : x > y;
}
static void *heapKey(std::vector<uint8_t> &v, uint64_t k) {
    v.assign((uint8_t *)&k, (uint8_t *)&k + tKeySize);
    return v.data();
}

void splineEpisode(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    Rng r(mix(mix(seed, 0x5914), ix));
    cnt("spline_episodes");
    static const int KS[] = {4, 8, 1, 2, 4, 8, 3, 5, 7, 6, 4, 8};
    tKeySize = KS[r.below(12)];
    uint64_t maxKey = tKeySize == 8 ? UINT64_MAX : (1ull << (8 * tKeySize)) - 1;
    id_t size = r.pct(40) ? r.in(4, 8) : r.in(4, 64);
    size_t err = r.pct(70) ? r.in(0, 3) : r.pct(50) ? r.in(0, 20) : r.pct(70) ? r.in(0, 300) : r.pct(50) ? UINT32_MAX - r.below(3) : r.below(1u << 31);
    uint32_t p0 = r.pct(50) ? 0 : r.pct(50) ? r.in(1, 5000) : r.pct(80) ? 0x7fffff00u + r.below(600) : 0xfff00000u;
    size_t n = r.pct(30) ? r.in(1, 12) : th ? r.in(10, 3000) : r.in(10, 600);
    int mode = r.below(9);
    if (tKeySize == 1) n = std::min<size_t>(n, 200);
    TRACE("spline keySize=%d size=%u err=%zu firstPage=%u pages=%zu mode=%d", tKeySize, size, err, p0, n, mode);
    g_states.insert(mix(mix(tKeySize * 100 + mode, size), err));

    spline s;
    memset(&s, r.pct(50) ? 0 : 0xA5, sizeof s);
    if (r.pct(50)) g_mallocFill = r.below(256);
    size_t live0 = vpLive();
    splineInit(&s, size, err, tKeySize);
    std::vector<uint64_t> keys;
    std::vector<uint8_t> kb;
    uint64_t base = r.pct(30) ? 0 : r.pct(50) ? r.below(1000) : r.next() & maxKey;
    base &= maxKey;
    uint64_t span = maxKey - base;
    if (span < n + 2) { base = maxKey > 2 * n ? r.below(maxKey / 4) : 0; span = maxKey - base; }
    uint64_t avg = std::max<uint64_t>(1, span / (n + 1));
    if (r.pct(50)) avg = std::min<uint64_t>(avg, 1 + r.below(1000));
    uint64_t cur = base, run = 0, step = 1;
    auto nextKey = [&](uint64_t &out) {
        uint64_t gap = 1;
        switch (mode) {
            case 0: gap = avg; break;
            case 1: gap = 1 + r.below(2 * avg); break;
            case 2: gap = r.pct(90) ? 1 + r.below(3) : 1 + r.below(8 * avg); break;
            case 3: if (!run) { run = 1 + r.below(40); step = 1 + r.below(2 * avg); } run--; gap = step; break;
            case 4: gap = 1ull << r.below(std::max(1, 8 * tKeySize - 2)); gap = std::min<uint64_t>(gap, 4 * avg); break;
            case 5: gap = (keys.size() % 2) ? 1 : 2 * avg; break;
            case 6: gap = 1; break;
            case 7: if (!run) { run = 1 + r.below(12); step = (step > 1) ? 1 : 1 + r.below(3 * avg); } run--; gap = step; break;
            case 8: gap = keys.size() + 1; break;
        }
        if (!gap) gap = 1;
        if (gap > maxKey - cur) gap = (maxKey - cur) ? 1 + r.below(maxKey - cur) : 0;
        if (!gap) return false;
        out = cur = cur + gap;
        return true;
    };
    auto check = [&](uint64_t q) {
        id_t loc, low, high;
        memset(&loc, 0xEE, 4); memset(&low, 0xEE, 4); memset(&high, 0xEE, 4);
        splineFind(&s, heapKey(kb, q), cmpKey, &loc, &low, &high);
        size_t pos = std::upper_bound(keys.begin(), keys.end(), q) - keys.begin();
        uint32_t last = p0 + (uint32_t)keys.size() - 1;
        dig(loc); dig(low); dig(high);
        cnt("lookups");
        if (pos == 0) {
            if (low > p0) viol("low-bound", fmt("key %llu below all keys: search would start at page %u, first page is %u", (unsigned long long)q, low, p0));
        } else {
            uint32_t page = p0 + (uint32_t)(pos - 1);
            if (low > page || high < page) viol("interval", fmt("key %llu is on page %u, spline says [%u,%u] estimate %u (error %zu, %zu pages, %zu points of %u)", (unsigned long long)q, page, low, high, loc, err, keys.size(), s.count, size));
            cnt(low == high ? "exact_intervals" : "wide_intervals");
        }
        if (s.count > 1 && cmpKey(heapKey(kb, q), splinePointLocation(&s, 0)) >= 0) {
            cnt("lookups_between_points");
            if ((loc > low && loc - low > err) || (high > loc && high - loc > err) || low > loc || loc > high) viol("interval-width", fmt("key %llu: interval [%u,%u] around estimate %u is wider than the error bound %zu", (unsigned long long)q, low, high, loc, err));
        }
        if (loc < p0 || loc > last) viol("estimate", fmt("key %llu: estimate %u outside pages [%u,%u]", (unsigned long long)q, loc, p0, last));
        if (high > last) viol("high-bound", fmt("key %llu: upper bound %u beyond last page %u", (unsigned long long)q, high, last));
    };
    auto probes = [&](int k) {
        if (!s.count) return;
        for (int i = 0; i < k; i++) {
            uint64_t q;
            switch (r.below(7)) {
                case 0: q = r.next() & maxKey; break;
                case 1: q = r.pct(50) ? 0 : maxKey; break;
                case 2: q = keys.back(); break;
                case 3: q = keys.front(); break;
                default: {
                    q = keys[r.below(keys.size())];
                    int w = r.below(4);
                    if (w == 1 && q < maxKey) q++;
                    if (w == 2 && q) q--;
                    if (w == 3) q += r.below(std::min<uint64_t>(maxKey - q, avg) + 1);
                }
            }
            check(q);
        }
    };
    bool erases = r.pct(35);
    uint64_t k;
    size_t maxCount = 0, dropped = 0;
    for (size_t i = 0; i < n && nextKey(k); i++) {
        if (p0 + (uint32_t)keys.size() < p0) break;
        keys.push_back(k);
        size_t before = s.count;
        splineAdd(&s, heapKey(kb, k), p0 + (uint32_t)(keys.size() - 1));
        TRACE("add (%llu, %u): %zu points", (unsigned long long)k, p0 + (uint32_t)(keys.size() - 1), s.count);
        if (s.count > size) viol("points", fmt("%zu points held, %u configured", s.count, size));
        if (s.count < before) dropped++;
        maxCount = std::max(maxCount, s.count);
        cnt("points_added");
        probes(1 + r.below(3));
        if (r.pct(1) && r.pct(30)) for (uint64_t q : keys) check(q);
        if (erases && r.pct(6)) {
            uint32_t e = r.below(s.count + 2);
            size_t c0 = s.count;
            int res = splineErase(&s, e);
            TRACE("erase %u -> %d (%zu points)", e, res, s.count);
            bool ok = e <= c0 && c0 - e != 1;
            if (e == 0 && c0 == 1) ok = res == 0;  // removing nothing from one point: either answer
            if ((res == 0) != ok) viol("erase-result", fmt("erasing %u of %zu points returned %d", e, c0, res));
            if (s.count != c0 - (res == 0 ? e : 0)) viol("erase-count", fmt("erasing %u of %zu points left %zu", e, c0, s.count));
            cnt("erases");
            if (s.count == 0) { cnt("emptied"); p0 = p0 + keys.size(); keys.clear(); if (p0 > 0xfffff000u) break; }
            else probes(4);
        }
    }
    if (s.count) {
        for (size_t i = 0; i < keys.size(); i++) {
            check(keys[i]);
            if (i + 1 < keys.size()) check(keys[i + 1] - 1);
        }
        check(0);
        check(maxKey);
    }
    if (splineSize(&s) < sizeof(spline) + (size_t)size * (tKeySize + 4)) viol("size-report", fmt("splineSize reports %u", splineSize(&s)));
    splineClose(&s);
    if (vpLive() != live0) viol("leak", fmt("%zu allocations left after splineClose", vpLive() - live0));
    g_mallocFill = -1;
    dig(maxCount);
    if (dropped) cnt("episodes_with_dropped_points");
    g_nontrivial = maxCount > 2;
    if (ix < 4) g_samples.push_back(fmt("episode %llu: %d-byte keys, %u points, error %zu, %zu pages from page %u, key pattern %d, at most %zu points used", (unsigned long long)ix, tKeySize, size, err, keys.size(), p0, mode, maxCount));
}
