// C26: bitmap helpers and comparators. Data values, bitmaps and bounds live in exact-size heap blocks at every alignment the
// library uses them with. The oracle needs no knowledge of where the buckets lie: it only uses the update function's own
// answer per value, and arithmetic order.
#include "common.h"
#include "sut.h"
#ifdef SUT_DIST
extern "C" {
void updateBitmapInt8(void *, void *); void buildBitmapInt8FromRange(void *, void *, void *); int8_t inBitmapInt8(void *, void *);
void updateBitmapInt16(void *, void *); void buildBitmapInt16FromRange(void *, void *, void *); int8_t inBitmapInt16(void *, void *);
void updateBitmapInt64(void *, void *); void buildBitmapInt64FromRange(void *, void *, void *); int8_t inBitmapInt64(void *, void *);
int8_t int32Comparator(void *, void *); int8_t int64Comparator(void *, void *);
}
#endif

struct Kind {
    const char *name;
    int valSize, bmSize;
    void (*update)(void *, void *);
    void (*build)(void *, void *, void *);
    int8_t (*in)(void *, void *);
    int64_t lo, hi;
};
static const Kind KINDS[3] = {
    {"Int8", 2, 1, updateBitmapInt8, buildBitmapInt8FromRange, inBitmapInt8, INT16_MIN, INT16_MAX},
    {"Int16", 4, 2, updateBitmapInt16, buildBitmapInt16FromRange, inBitmapInt16, INT32_MIN, INT32_MAX},
    {"Int64", 4, 8, updateBitmapInt64, buildBitmapInt64FromRange, inBitmapInt64, INT32_MIN, INT32_MAX},
};
// a heap block that ends exactly at the object's last byte
struct Blk {
    uint8_t *base, *p;
    Blk(size_t n, size_t shift) { base = (uint8_t *)malloc(n + shift); p = base + shift; }
    ~Blk() { free(base); }
    Blk(const Blk &) = delete;
};
static uint64_t upd(const Kind &k, int64_t v, uint64_t before, uint8_t *val, uint8_t *bm) {
    memcpy(val, &v, k.valSize);
    memcpy(bm, &before, k.bmSize);
    k.update(val, bm);
    uint64_t r = 0;
    memcpy(&r, bm, k.bmSize);
    int64_t back = 0;
    memcpy(&back, val, k.valSize);
    if (memcmp(&back, &v, k.valSize)) viol("bitmap-value-changed", fmt("updateBitmap%s changed its argument %lld", k.name, (long long)v));
    return r;
}
static int64_t critical(const Kind &k, Rng &r) {
    switch (r.below(8)) {
        case 0: return k.lo + (int64_t)r.below(4);
        case 1: return k.hi - (int64_t)r.below(4);
        case 2: return (int64_t)r.below(140) - 20;
        case 3: return 310 + (int64_t)r.below(700);
        case 4: return 320 + 10 * (int64_t)r.below(70) + (int64_t)r.below(3) - 1;
        case 5: { int64_t x = (int64_t)1 << r.below(8 * k.valSize - 1); x += (int64_t)r.below(3) - 1; return std::min(std::max(r.pct(50) ? -x : x, k.lo), k.hi); }
        case 6: return (int64_t)(r.below(21)) * 10 - 50 + (int64_t)r.below(3) - 1;
        default: return k.lo + (int64_t)(r.next() % (uint64_t)(k.hi - k.lo + 1));
    }
}
static void bitmapEpisode(const Kind &k, Rng &r, uint64_t ix, bool th) {
    Blk val(k.valSize, r.below(4)), bm(k.bmSize, r.below(3)), qb(k.bmSize, 0), lo(k.valSize, r.below(3)), hi(k.valSize, r.below(3));
    uint64_t mask = k.bmSize == 8 ? ~0ull : (1ull << (8 * k.bmSize)) - 1;
    // the bit of every value in the region where the buckets change
    const int64_t T0 = -100, T1 = 1200;
    std::vector<uint64_t> bits;
    for (int64_t v = T0; v <= T1; v++) bits.push_back(upd(k, v, 0, val.p, bm.p) & mask);
    // ranges: either side may be open
    int ranges = 6;
    for (int n = 0; n < ranges; n++) {
        bool hl = r.pct(75), hh = r.pct(75);
        int64_t a = critical(k, r), b = r.pct(30) ? a + (int64_t)r.below(40) : critical(k, r);
        if (b > k.hi) b = k.hi;
        if (a > b) std::swap(a, b);
        memcpy(lo.p, &a, k.valSize);
        memcpy(hi.p, &b, k.valSize);
        bool clean = r.pct(60);
        memset(qb.p, clean ? 0 : 0xff, k.bmSize);  // the caller's bitmap need not be cleared
        k.build(hl ? lo.p : nullptr, hh ? hi.p : nullptr, qb.p);
        uint64_t q = 0;
        memcpy(&q, qb.p, k.bmSize);
        dig(q);
        cnt("ranges_built");
        int64_t x0 = hl ? a : k.lo, x1 = hh ? b : k.hi;
        auto one = [&](int64_t v) {
            if (v < k.lo || v > k.hi) return;
            uint64_t m = upd(k, v, 0, val.p, bm.p) & mask;
            if (!m) viol("bitmap-empty", fmt("updateBitmap%s(%lld) sets no bit", k.name, (long long)v));
            cnt("values_updated");
            if (v >= x0 && v <= x1) {
                cnt("values_inside_range");
                if (!(m & q)) viol("bitmap-range-misses", fmt("buildBitmap%sFromRange(%s,%s) = %llx does not contain the bit %llx of value %lld", k.name, hl ? fmt("%lld", (long long)a).c_str() : "-", hh ? fmt("%lld", (long long)b).c_str() : "-", (unsigned long long)q, (unsigned long long)m, (long long)v));
            }
            // membership agrees with update
            memcpy(val.p, &v, k.valSize);
            memcpy(bm.p, &q, k.bmSize);
            bool in = k.in(val.p, bm.p) != 0;
            if (in != ((m & q) != 0)) viol("bitmap-membership", fmt("inBitmap%s(%lld, %llx) = %d, the value's own bit is %llx", k.name, (long long)v, (unsigned long long)q, in, (unsigned long long)m));
            uint64_t q2 = 0;
            memcpy(&q2, bm.p, k.bmSize);
            if (q2 != q) viol("bitmap-membership-writes", fmt("inBitmap%s changed the bitmap", k.name));
            // updates only add that value's bits
            uint64_t old = r.next() & mask;
            uint64_t u = upd(k, v, old, val.p, bm.p) & mask;
            if (u != (old | m)) viol("bitmap-update", fmt("updateBitmap%s(%lld) on %llx gives %llx, on 0 it gives %llx", k.name, (long long)v, (unsigned long long)old, (unsigned long long)u, (unsigned long long)m));
            // a page's bitmap contains all its values
            memcpy(val.p, &v, k.valSize);
            memcpy(bm.p, &u, k.bmSize);
            if (!k.in(val.p, bm.p)) viol("bitmap-lost-value", fmt("value %lld is not in a bitmap updated with it", (long long)v));
            g_states.insert(mix(m, k.bmSize * 10 + (v >= x0 && v <= x1)));
        };
        if (clean && (hl || hh)) {
            // a bitmap which matches more than the values of the range prunes nothing
            uint64_t all = (upd(k, x0, 0, val.p, bm.p) | upd(k, x1, 0, val.p, bm.p)) & mask;
            for (int64_t v = std::max(x0, T0); v <= std::min(x1, T1); v++) all |= bits[v - T0];
            cnt("ranges_exact");
            if (q & ~all) viol("bitmap-range-excess", fmt("buildBitmap%sFromRange(%s,%s) = %llx has bits of no value in the range (%llx)", k.name, hl ? fmt("%lld", (long long)a).c_str() : "-", hh ? fmt("%lld", (long long)b).c_str() : "-", (unsigned long long)q, (unsigned long long)all));
        }
        for (int64_t d = -3; d <= 3; d++) { one(a + d); one(b + d); }
        for (int64_t v = -10; v <= 130; v++) if (k.bmSize == 1 || v % 7 == 0) one(v);
        if (k.bmSize > 1) for (int64_t v = 300; v <= 1000; v += 1 + r.below(6)) one(v);
        for (int i = 0; i < 100; i++) one(critical(k, r));
    }
    if (th) {
        // a contiguous slice of the value space: together the episodes of the thorough run cover all of it
        uint64_t space = (uint64_t)(k.hi - k.lo) + 1, slices = k.valSize == 2 ? 4 : 2048, sz = space / slices;
        int64_t v0 = k.lo + (int64_t)((ix / 4) % slices * sz);
        int64_t a = v0 + (int64_t)r.below(sz), b = v0 + (int64_t)r.below(sz);
        if (a > b) std::swap(a, b);
        memcpy(lo.p, &a, k.valSize);
        memcpy(hi.p, &b, k.valSize);
        k.build(lo.p, hi.p, qb.p);
        uint64_t q = 0;
        memcpy(&q, qb.p, k.bmSize);
        for (int64_t v = v0; v < v0 + (int64_t)sz; v++) {
            uint64_t m = upd(k, v, 0, val.p, bm.p) & mask;
            if (!m) viol("bitmap-empty", fmt("updateBitmap%s(%lld) sets no bit", k.name, (long long)v));
            if (v >= a && v <= b && !(m & q)) viol("bitmap-range-misses", fmt("buildBitmap%sFromRange(%lld,%lld) misses value %lld", k.name, (long long)a, (long long)b, (long long)v));
            memcpy(bm.p, &q, k.bmSize);
            if ((k.in(val.p, bm.p) != 0) != ((m & q) != 0)) viol("bitmap-membership", fmt("inBitmap%s(%lld, %llx)", k.name, (long long)v, (unsigned long long)q));
        }
        cnt("values_swept", sz);
    }
    // no bounds: everything
    k.build(nullptr, nullptr, qb.p);
    uint64_t q = 0;
    memcpy(&q, qb.p, k.bmSize);
    if (q != mask) {  // every value must still match
        for (int i = 0; i < 300; i++) {
            int64_t v = critical(k, r);
            if (!(upd(k, v, 0, val.p, bm.p) & q)) viol("bitmap-range-misses", fmt("buildBitmap%sFromRange(-,-) misses %lld", k.name, (long long)v));
        }
    }
}
template <class T> static void compareEpisode(const char *name, int8_t (*cmp)(void *, void *), Rng &r) {
    auto val = [&]() -> T {
        switch (r.below(7)) {
            case 0: return (T)r.next();
            case 1: return (T)((uint64_t)1 << r.below(8 * sizeof(T)));
            case 2: return (T)(((uint64_t)1 << r.below(8 * sizeof(T))) - 1);
            case 3: return std::numeric_limits<T>::max() - (T)r.below(3);
            case 4: return std::numeric_limits<T>::min() + (T)r.below(3);
            case 5: return (T)r.below(300) - 150;
            default: return (T)(r.next() & r.next() & r.next());
        }
    };
    Blk x(sizeof(T), r.below(5)), y(sizeof(T), r.below(5));
    auto call = [&](T a, T b) {
        memcpy(x.p, &a, sizeof a);
        memcpy(y.p, &b, sizeof b);
        int c = cmp(x.p, y.p);
        if (memcmp(x.p, &a, sizeof a) || memcmp(y.p, &b, sizeof b)) viol("comparator-writes", fmt("%s changed an argument", name));
        return c < 0 ? -1 : c > 0;
    };
    for (int i = 0; i < 400; i++) {
        T a = val(), b = r.pct(25) ? a : r.pct(30) ? (T)((uint64_t)a ^ ((uint64_t)1 << r.below(8 * sizeof(T)))) : r.pct(30) ? (T)((uint64_t)a + r.below(5) - 2) : val(), c = val();
        int ab = call(a, b), ba = call(b, a), bc = call(b, c), ac = call(a, c);
        cnt("comparisons", 4);
        if (ab != (a < b ? -1 : a > b)) viol("comparator-order", fmt("%s(%lld, %lld) has sign %d", name, (long long)a, (long long)b, ab));
        if (ab != -ba) viol("comparator-antisymmetry", fmt("%s(%lld, %lld)", name, (long long)a, (long long)b));
        if (ab <= 0 && bc <= 0 && ac > 0) viol("comparator-transitivity", fmt("%s(%lld, %lld, %lld)", name, (long long)a, (long long)b, (long long)c));
        if (ac != (a < c ? -1 : a > c)) viol("comparator-order", fmt("%s(%lld, %lld) has sign %d", name, (long long)a, (long long)c, ac));
        dig(ab + 2);
    }
}
void helperEpisode(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    Rng r(mix(mix(seed, 0x4e19), ix));
    uint64_t k = p == "C19" ? ix / 8 : ix;
    cnt("helper_episodes");
    if (k % 4 < 3) {
        bitmapEpisode(KINDS[k % 4], r, k, th && p == "C26");
        if (g_samples.size() < 3) g_samples.push_back(fmt("episode %llu: updateBitmap/inBitmap/buildBitmapFromRange %s, 6 random ranges against boundary and random values", (unsigned long long)ix, KINDS[k % 4].name));
    } else {
        compareEpisode<int32_t>("int32Comparator", int32Comparator, r);
        compareEpisode<int64_t>("int64Comparator", int64Comparator, r);
        if (g_samples.size() < 4) g_samples.push_back(fmt("episode %llu: int32Comparator/int64Comparator on 800 triples (numeric order, antisymmetry, transitivity)", (unsigned long long)ix));
    }
    g_nontrivial = true;
}
