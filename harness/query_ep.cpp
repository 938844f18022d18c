// C15-C18: operator chains against a direct relational evaluation over the stored records.
#include "core.h"

typedef std::vector<uint8_t> Row;
struct Table {
    std::vector<int8_t> schema;   // signed widths as in embedDBSchema
    std::vector<char> isFloat;    // AVG output: compared numerically
    std::vector<Row> rows;
    bool keyFirst = true;         // column 0 is the unsigned, ascending, distinct key
    size_t off(size_t c) const { size_t o = 0; for (size_t i = 0; i < c; i++) o += abs(schema[i]); return o; }
    size_t width() const { return off(schema.size()); }
};

// ---- reference semantics (independent of the library's byte tricks: 1024-bit style comparison through sign-magnitude)
static int cmpCol(const uint8_t *a, const uint8_t *b, int w, bool sg) {
    if (w <= 8) {
        if (sg) {
            int64_t x = 0, y = 0;
            for (int i = 0; i < w; i++) { x |= (int64_t)((uint64_t)a[i] << (8 * i)); y |= (int64_t)((uint64_t)b[i] << (8 * i)); }
            if (w < 8) { int64_t lim = (int64_t)1 << (8 * w - 1); if (x >= lim) x -= 2 * lim; if (y >= lim) y -= 2 * lim; }
            return x < y ? -1 : x > y;
        }
        uint64_t x = 0, y = 0;
        for (int i = 0; i < w; i++) { x |= (uint64_t)a[i] << (8 * i); y |= (uint64_t)b[i] << (8 * i); }
        return x < y ? -1 : x > y;
    }
    std::vector<uint8_t> x(a, a + w), y(b, b + w);
    if (sg) { x[w - 1] ^= 0x80; y[w - 1] ^= 0x80; }
    for (int i = w; i-- > 0;) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
static uint64_t wideVal(const uint8_t *a, int w, bool sg) {  // value modulo 2^64
    uint64_t x = 0;
    for (int i = 0; i < 8; i++) x |= (uint64_t)(i < w ? a[i] : (sg && (a[w - 1] & 0x80)) ? 0xff : 0) << (8 * i);
    return x;
}

// ---- group functions: the library gives them no context, so each slot has its own instance
struct GCtx { int mode; size_t off; int w; uint64_t div; int calls; };
static thread_local GCtx G[6];
static bool sameGroup(const GCtx &g, const uint8_t *a, const uint8_t *b) {
    switch (g.mode) {
        case 0: return memcmp(a + g.off, b + g.off, g.w) == 0;
        case 1: return wideVal(a + g.off, std::min(g.w, 8), false) / g.div == wideVal(b + g.off, std::min(g.w, 8), false) / g.div;
        case 2: return true;
        default: return false;
    }
}
template <int I> static int8_t groupFn(const void *a, const void *b) { G[I].calls++; return sameGroup(G[I], (const uint8_t *)a, (const uint8_t *)b); }
template <int I> static void nameFn(embedDBAggregateFunc *f, embedDBSchema *s, void *rec, const void *last) {
    memcpy((uint8_t *)rec + getColOffsetFromSchema(s, f->colNum), (const uint8_t *)last + G[I].off, G[I].w);
}
typedef int8_t (*GroupFn)(const void *, const void *);
typedef void (*NameFn)(embedDBAggregateFunc *, embedDBSchema *, void *, const void *);
static const GroupFn GF[6] = {groupFn<0>, groupFn<1>, groupFn<2>, groupFn<3>, groupFn<4>, groupFn<5>};
static const NameFn NF[6] = {nameFn<0>, nameFn<1>, nameFn<2>, nameFn<3>, nameFn<4>, nameFn<5>};

// ---- a user's aggregate function: a digest of everything the operator hands to it
struct Probe { uint64_t h; uint32_t n; int phase; int width, cols; };  // phase: 1 reset, 2 adding, 3 computed
static uint64_t fold(uint64_t h, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001B3ull; return h; }
static void probeReset(embedDBAggregateFunc *f, embedDBSchema *in) {
    Probe *b = (Probe *)f->state;
    b->h = 0xcbf29ce484222325ull;
    b->n = 0;
    b->phase = in->numCols == b->cols ? 1 : 9;
}
static void probeAdd(embedDBAggregateFunc *f, embedDBSchema *in, const void *rec) {
    Probe *b = (Probe *)f->state;
    if ((b->phase != 1 && b->phase != 2) || in->numCols != b->cols) { b->phase = 9; return; }
    b->phase = 2;
    b->n++;
    b->h = fold(b->h, (const uint8_t *)rec, b->width);
}
static void probeCompute(embedDBAggregateFunc *f, embedDBSchema *out, void *buf, const void *last) {
    Probe *b = (Probe *)f->state;
    uint64_t v = b->phase == 2 ? fold(b->h ^ b->n, (const uint8_t *)last, b->width) : 0;
    b->phase = 3;
    memcpy((uint8_t *)buf + getColOffsetFromSchema(out, f->colNum), &v, 8);
}
// ---- a user's operator: copies its input's rows, with a shift of the first column, and notes how it is called
struct ShiftLog { int inits = 0, closes = 0, early = 0; };
struct Shift { uint64_t delta; ShiftLog *log; };
static void shiftInit(embedDBOperator *op) {
    Shift *s = (Shift *)op->state;
    s->log->inits++;
    op->input->init(op->input);
    op->schema = copySchema(op->input->schema);
    op->recordBuffer = createBufferFromSchema(op->schema);
}
static int8_t shiftNext(embedDBOperator *op) {
    Shift *s = (Shift *)op->state;
    if (s->log->inits != 1 || s->log->closes) { s->log->early++; return 0; }
    if (!op->input->next(op->input)) return 0;
    memcpy(op->recordBuffer, op->input->recordBuffer, getRecordSizeFromSchema(op->schema));
    uint64_t carry = s->delta;
    int w = abs(op->schema->columnSizes[0]);
    for (int i = 0; i < w && i < 8; i++, carry >>= 8) { carry += ((uint8_t *)op->recordBuffer)[i]; ((uint8_t *)op->recordBuffer)[i] = (uint8_t)carry; }
    return 1;
}
static void shiftClose(embedDBOperator *op) {
    Shift *s = (Shift *)op->state;
    s->log->closes++;
    op->input->close(op->input);
    embedDBFreeSchema(&op->schema);
    vp_free(op->recordBuffer);
    op->recordBuffer = nullptr;
    vp_free(op->state);
    op->state = nullptr;
}

struct Chain {
    embedDBOperator *top = nullptr;
    std::vector<ShiftLog *> shifts;
    Table t;
    std::vector<embedDBOperator *> ops;
    std::vector<embedDBIterator *> its;
    std::vector<std::vector<uint8_t> *> bytes;      // bounds and comparison values, exact-size
    std::vector<std::vector<embedDBAggregateFunc> *> funcs;
    std::vector<void *> states;
    int slots = 0;
    bool join = false, inited = false, closed = false;
    std::vector<embedDBOperator *> rights;          // second inputs of joins: freed by their owner
    size_t pos = 0;
    std::string desc;
    std::vector<uint8_t> *keep(const uint8_t *p, size_t n) { bytes.push_back(new std::vector<uint8_t>(p, p + n)); return bytes.back(); }
};

struct Source { Db *d; Table base; };

static void addScan(Chain &c, Source &s, Rng &r) {
    Db &d = *s.d;
    auto it = new embedDBIterator;
    memset(it, 0x5A, sizeof *it);
    Query q = d.genQuery(r, r.pct(40), r.pct(25));
    auto mk = c.keep((uint8_t *)&q.minK, d.c.keySize), xk = c.keep((uint8_t *)&q.maxK, d.c.keySize);
    it->minKey = q.hasMinK ? mk->data() : nullptr;
    it->maxKey = q.hasMaxK ? xk->data() : nullptr;
    it->minData = q.hasMinD ? c.keep(q.minD.data(), q.minD.size())->data() : nullptr;
    it->maxData = q.hasMaxD ? c.keep(q.maxD.data(), q.maxD.size())->data() : nullptr;
    embedDBInitIterator(d.st, it);
    c.its.push_back(it);
    std::vector<int8_t> sz, sg;
    for (int8_t x : s.base.schema) { sz.push_back(abs(x)); sg.push_back(x < 0 ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED); }
    embedDBSchema *sch = embedDBCreateSchema(sz.size(), sz.data(), sg.data());
    if (!sch) viol("schema-refused", "embedDBCreateSchema refused a valid schema");
    c.top = createTableScanOperator(d.st, it, sch);
    if (!c.top) viol("scan-refused", "createTableScanOperator returned NULL");
    embedDBFreeSchema(&sch);
    if (sch) viol("schema-free", "embedDBFreeSchema did not clear the pointer");
    c.ops.push_back(c.top);
    c.t = s.base;
    c.t.rows.clear();
    for (auto &row : s.base.rows) {
        Rec rec;
        memcpy(&rec.key, row.data(), d.c.keySize);
        rec.data.assign(row.begin() + d.c.keySize, row.end());
        rec.val = valOf(d.c, rec.data);
        if (d.matches(q, rec)) c.t.rows.push_back(row);
    }
    c.desc += "scan(" + q.str() + ")";
    cnt("op_scan");
}
static void addSelect(Chain &c, Rng &r) {
    std::vector<size_t> cand;
    for (size_t i = 0; i < c.t.schema.size() && i < 127; i++) if (!c.t.isFloat[i]) cand.push_back(i);
    if (cand.empty()) return;
    size_t col = r.pick(cand);
    int w = abs(c.t.schema[col]);
    bool sg = c.t.schema[col] < 0;
    size_t off = c.t.off(col);
    std::vector<uint8_t> v(w);
    if (!c.t.rows.empty() && r.pct(80)) {
        auto &row = c.t.rows[r.below(c.t.rows.size())];
        memcpy(v.data(), row.data() + off, w);
        if (r.pct(35)) v[r.below(w)] += 1 - 2 * (int)r.below(2);
    } else if (r.pct(30)) { memset(v.data(), r.pct(50) ? 0xff : 0, w); if (r.pct(50)) v[w - 1] ^= 0x80; }
    else for (auto &x : v) x = r.next();
    int op = r.pick<int>({SELECT_GT, SELECT_GTE, SELECT_LT, SELECT_LTE, SELECT_EQ, SELECT_NEQ});
    auto val = c.keep(v.data(), w);
    c.top = createSelectionOperator(c.top, col, op, val->data());
    if (!c.top) viol("select-refused", "createSelectionOperator returned NULL");
    c.ops.push_back(c.top);
    std::vector<Row> out;
    for (auto &row : c.t.rows) {
        int k = cmpCol(row.data() + off, v.data(), w, sg);
        bool ok = op == SELECT_GT ? k > 0 : op == SELECT_GTE ? k >= 0 : op == SELECT_LT ? k < 0 : op == SELECT_LTE ? k <= 0 : op == SELECT_EQ ? k == 0 : k != 0;
        if (ok) out.push_back(row);
    }
    c.t.rows.swap(out);
    c.desc += fmt(".select(col %zu w%d%s op %d)", col, w, sg ? "s" : "u", op);
    cnt("op_selection");
    cnt(sg ? "selection_signed" : "selection_unsigned");
}
static void addProject(Chain &c, Rng &r, bool keepKey) {
    std::vector<uint8_t> cols;
    for (size_t i = 0; i < c.t.schema.size(); i++) if ((i == 0 && keepKey) || r.pct(60)) cols.push_back(i);
    if (cols.empty()) cols.push_back(r.below(c.t.schema.size()));
    std::vector<uint8_t> tmp(cols);
    c.top = createProjectionOperator(c.top, tmp.size(), tmp.data());
    if (!c.top) viol("project-refused", "createProjectionOperator returned NULL");
    std::fill(tmp.begin(), tmp.end(), 0xEE);  // the list is the caller's
    c.ops.push_back(c.top);
    Table n;
    n.keyFirst = c.t.keyFirst && cols[0] == 0;
    for (uint8_t i : cols) { n.schema.push_back(c.t.schema[i]); n.isFloat.push_back(c.t.isFloat[i]); }
    for (auto &row : c.t.rows) {
        Row o;
        for (uint8_t i : cols) o.insert(o.end(), row.begin() + c.t.off(i), row.begin() + c.t.off(i) + abs(c.t.schema[i]));
        n.rows.push_back(o);
    }
    c.t = n;
    c.desc += fmt(".project(%zu cols)", cols.size());
    cnt("op_projection");
}
static void addShift(Chain &c, Rng &r) {
    int w = abs(c.t.schema[0]);
    uint64_t delta = 0, most = 0, lim = w >= 8 ? ~0ull >> 1 : (1ull << (8 * w - 1)) - 1;
    for (auto &row : c.t.rows) most = std::max(most, w <= 8 ? wideVal(row.data(), w, false) : lim);
    if (w <= 8 && !c.t.isFloat[0] && most < lim && r.pct(80)) delta = 1 + r.below(std::min<uint64_t>(lim - most, r.pct(60) ? 5 : 100000));
    auto op = (embedDBOperator *)vp_malloc(sizeof(embedDBOperator));
    auto st = (Shift *)vp_malloc(sizeof(Shift));
    c.shifts.push_back(new ShiftLog);
    *st = {delta, c.shifts.back()};
    *op = {c.top, shiftInit, shiftNext, shiftClose, st, nullptr, nullptr};
    c.top = op;
    c.ops.push_back(op);
    for (auto &row : c.t.rows) {
        uint64_t carry = delta;
        for (int i = 0; i < w && i < 8; i++, carry >>= 8) { carry += row[i]; row[i] = (uint8_t)carry; }
    }
    c.desc += fmt(".custom(+%llu)", (unsigned long long)delta);
    cnt("op_custom");
}
static thread_local bool bigGroups;
static void addAggregate(Chain &c, Rng &r, int slot) {
    GCtx &g = G[slot];
    std::vector<size_t> cand;
    for (size_t i = 0; i < c.t.schema.size(); i++) if (!c.t.isFloat[i]) cand.push_back(i);
    if (cand.empty() || slot >= 6) return;
    size_t gc = r.pct(40) ? 0 : r.pick(cand);
    if (bigGroups && r.pct(70)) gc = cand[std::min<size_t>(1, cand.size() - 1)];
    if (c.t.isFloat[gc]) gc = cand[0];
    g.mode = r.pct(45) ? 0 : r.pct(60) ? 1 : r.pct(50) ? 2 : 3;
    g.off = c.t.off(gc);
    g.w = abs(c.t.schema[gc]);
    uint64_t spread = 1;
    if (!c.t.rows.empty() && g.w <= 8) spread = wideVal(c.t.rows.back().data() + g.off, g.w, false) - wideVal(c.t.rows[0].data() + g.off, g.w, false);
    g.div = 1 + (r.pct(50) ? r.below(20) : r.below(1 + spread / 2));
    struct F { int kind; size_t col; int w; bool sg; int fl; };
    std::vector<F> fs;
    auto funcs = new std::vector<embedDBAggregateFunc>;
    c.funcs.push_back(funcs);
    int n = 1 + r.below(6);
    for (int i = 0; i < n; i++) {
        F f;
        f.col = r.pick(cand);
        f.kind = (i == 0 && r.pct(70)) ? 0 : r.below(7);
        f.fl = r.pct(50) ? 4 : 8;
        f.w = abs(c.t.schema[f.col]);
        f.sg = c.t.schema[f.col] < 0;
        if ((f.kind == 2 || f.kind == 5) && f.w > 8) f.kind = 1;
        if (f.kind == 6 && std::count(c.t.isFloat.begin(), c.t.isFloat.end(), 1)) f.kind = 1;  // averages are compared with a tolerance
        embedDBAggregateFunc *a = nullptr, name = {nullptr, nullptr, NF[slot], nullptr, 0, 0};
        switch (f.kind) {
            case 0: f.col = gc; f.w = g.w; f.sg = c.t.schema[gc] < 0; name.colSize = c.t.schema[gc]; funcs->push_back(name); cnt("agg_custom"); break;
            case 6: {
                auto pr = (Probe *)vp_malloc(sizeof(Probe));
                *pr = {0, 0, 0, (int)c.t.width(), (int)c.t.schema.size()};
                c.states.push_back(pr);
                funcs->push_back({probeReset, probeAdd, probeCompute, pr, (int8_t)(r.pct(50) ? 8 : -8), 0});
                f.fl = funcs->back().colSize;
                cnt("agg_digest");
                break;
            }
            case 1: a = createCountAggregate(); cnt("agg_count"); break;
            case 2: a = createSumAggregate(f.col); cnt(f.sg ? "agg_sum_signed" : "agg_sum_unsigned"); break;
            case 3: a = createMinAggregate(f.col, c.t.schema[f.col]); cnt("agg_min"); break;
            case 4: a = createMaxAggregate(f.col, c.t.schema[f.col]); cnt("agg_max"); break;
            case 5: a = createAvgAggregate(f.col, f.fl); cnt("agg_avg"); break;
        }
        if (f.kind && f.kind != 6) {
            if (!a) viol("agg-refused", fmt("aggregate function %d could not be created", f.kind));
            funcs->push_back(*a);
            if (a->state) c.states.push_back(a->state);
            vp_free(a);
        }
        fs.push_back(f);
    }
    c.top = createAggregateOperator(c.top, GF[slot], funcs->data(), funcs->size());
    if (!c.top) viol("agg-refused", "createAggregateOperator returned NULL");
    c.ops.push_back(c.top);
    Table n2;
    n2.keyFirst = c.t.keyFirst && fs[0].kind == 0 && gc == 0 && g.mode != 3;  // the last key of each run: ascending
    for (auto &f : fs) {
        n2.schema.push_back(f.kind == 0 ? c.t.schema[gc] : f.kind == 1 ? 4 : f.kind == 2 ? -8 : f.kind == 5 || f.kind == 6 ? f.fl : c.t.schema[f.col]);
        n2.isFloat.push_back(f.kind == 5);
    }
    for (size_t i = 0; i < c.t.rows.size();) {
        size_t j = i + 1;
        while (j < c.t.rows.size() && sameGroup(g, c.t.rows[j - 1].data(), c.t.rows[j].data())) j++;
        Row o;
        for (auto &f : fs) {
            size_t off = c.t.off(f.col);
            auto put = [&](const void *p, size_t k) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + k); };
            uint64_t sum = 0;
            const uint8_t *best = nullptr;
            for (size_t x = i; x < j; x++) {
                const uint8_t *v = c.t.rows[x].data() + off;
                if (f.kind == 2 || f.kind == 5) sum += wideVal(v, f.w, f.sg);
                if (f.kind == 3 && (!best || cmpCol(v, best, f.w, f.sg) < 0)) best = v;
                if (f.kind == 4 && (!best || cmpCol(v, best, f.w, f.sg) > 0)) best = v;
            }
            uint32_t count = j - i;
            switch (f.kind) {
                case 0: put(c.t.rows[j - 1].data() + g.off, g.w); break;
                case 1: put(&count, 4); break;
                case 2: put(&sum, 8); break;
                case 3: case 4: put(best, f.w); break;
                case 6: {
                    uint64_t h = 0xcbf29ce484222325ull;
                    for (size_t x = i; x < j; x++) h = fold(h, c.t.rows[x].data(), c.t.width());
                    h = fold(h ^ count, c.t.rows[j - 1].data(), c.t.width());
                    put(&h, 8);
                    break;
                }
                case 5: {
                    double v = f.sg ? (double)((long double)(int64_t)sum / count) : (double)((long double)sum / count);
                    float vf = f.sg ? (float)((long double)(int64_t)sum / count) : (float)((long double)sum / count);
                    if (f.fl == 8) put(&v, 8); else put(&vf, 4);
                    break;
                }
            }
        }
        n2.rows.push_back(o);
        cnt("groups_expected");
        if (j - i > 65536) cnt("groups_beyond_65536_rows");
        if (j - i > 1) cnt("groups_with_several_rows");
        i = j;
    }
    c.t = n2;
    c.desc += fmt(".aggregate(by col %zu mode %d, %zu functions)", gc, g.mode, fs.size());
    cnt("op_aggregate");
}
static void addJoin(Chain &a, Chain &b) {
    a.rights.insert(a.rights.end(), b.rights.begin(), b.rights.end());
    a.rights.push_back(b.top);
    a.top = createKeyJoinOperator(a.top, b.top);
    if (!a.top) viol("join-refused", "createKeyJoinOperator returned NULL");
    a.ops.insert(a.ops.end(), b.ops.begin(), b.ops.end());
    a.ops.push_back(a.top);
    a.its.insert(a.its.end(), b.its.begin(), b.its.end());
    a.bytes.insert(a.bytes.end(), b.bytes.begin(), b.bytes.end());
    a.funcs.insert(a.funcs.end(), b.funcs.begin(), b.funcs.end());
    a.states.insert(a.states.end(), b.states.begin(), b.states.end());
    a.shifts.insert(a.shifts.end(), b.shifts.begin(), b.shifts.end());
    a.join = true;
    Table n;
    n.schema = a.t.schema;
    n.schema.insert(n.schema.end(), b.t.schema.begin(), b.t.schema.end());
    n.isFloat = a.t.isFloat;
    n.isFloat.insert(n.isFloat.end(), b.t.isFloat.begin(), b.t.isFloat.end());
    int w = abs(a.t.schema[0]);
    std::multimap<std::string, size_t> by;
    for (size_t j = 0; j < b.t.rows.size(); j++) by.emplace(std::string((const char *)b.t.rows[j].data(), w), j);
    for (auto &x : a.t.rows) {
        auto m = by.equal_range(std::string((const char *)x.data(), w));
        for (auto i = m.first; i != m.second; ++i) {  // equal keys stay in insertion order
            Row o = x;
            o.insert(o.end(), b.t.rows[i->second].begin(), b.t.rows[i->second].end());
            n.rows.push_back(o);
        }
    }
    cnt("join_pairs_expected", n.rows.size());
    cnt(n.rows.empty() ? "joins_empty" : "joins_nonempty");
    a.t = n;
    a.desc = "join(" + a.desc + ", " + b.desc + ")";
    cnt("op_join");
}
static void initChain(Chain &c) {
    c.top->init(c.top);
    c.inited = true;
    embedDBSchema *s = c.top->schema;
    if (!s || !c.top->recordBuffer) viol("op-init", "operator not initialised: " + c.desc);
    if (s->numCols != c.t.schema.size() || memcmp(s->columnSizes, c.t.schema.data(), s->numCols)) viol("op-schema", "output schema differs: " + c.desc);
    if (getRecordSizeFromSchema(s) != c.t.width()) viol("op-schema", fmt("record size %u, expected %zu", getRecordSizeFromSchema(s), c.t.width()));
    for (size_t i = 0; i < c.t.schema.size(); i++) if (getColOffsetFromSchema(s, i) != c.t.off(i)) viol("op-schema", fmt("column %zu at offset %u, expected %zu", i, getColOffsetFromSchema(s, i), c.t.off(i)));
}
static void stepChain(Chain &c) {
    int8_t res = exec(c.top);
    dig(res);
    cnt("exec_calls");
    if (c.pos >= c.t.rows.size()) {
        if (res) viol("op-extra", fmt("row %zu returned, only %zu expected: %s", c.pos, c.t.rows.size(), c.desc.c_str()));
        c.pos++;
        cnt("end_reports");
        return;
    }
    if (!res) viol("op-missing", fmt("ended after %zu of %zu rows: %s", c.pos, c.t.rows.size(), c.desc.c_str()));
    const Row &e = c.t.rows[c.pos];
    const uint8_t *g = (const uint8_t *)c.top->recordBuffer;
    for (size_t i = 0; i < c.t.schema.size(); i++) {
        size_t o = c.t.off(i), w = abs(c.t.schema[i]);
        if (c.t.isFloat[i]) {
            double x, y;
            if (w == 4) { float a, b; memcpy(&a, g + o, 4); memcpy(&b, e.data() + o, 4); x = a; y = b; }
            else { memcpy(&x, g + o, 8); memcpy(&y, e.data() + o, 8); }
            double tol = (w == 4 ? 1e-6 : 1e-12) * std::max(fabs(x), fabs(y));
            if (!(fabs(x - y) <= tol)) viol("op-average", fmt("row %zu column %zu: %.17g, expected %.17g: %s", c.pos, i, x, y, c.desc.c_str()));
        } else {
            digBytes(g + o, w);
            if (memcmp(g + o, e.data() + o, w)) viol("op-value", fmt("row %zu column %zu (width %d) differs: got %02x.. expected %02x..: %s", c.pos, i, c.t.schema[i], g[o], e[o], c.desc.c_str()));
        }
    }
    c.pos++;
    cnt("rows_compared");
}
static void closeChain(Chain &c, Rng &r) {
    bool statesFirst = r.pct(50);
    auto freeStates = [&]() { for (void *s : c.states) vp_free(s); c.states.clear(); };
    if (statesFirst) freeStates();
    c.top->close(c.top);
    for (auto l : c.shifts) {
        if (l->inits != c.inited || l->early || l->closes != 1) viol("op-protocol", fmt("a custom operator was initialised %d, closed %d and asked for rows outside %d times: %s", l->inits, l->closes, l->early, c.desc.c_str()));
        delete l;
    }
    c.shifts.clear();
    if (r.pct(60)) {
        embedDBFreeOperatorRecursive(&c.top);
        for (auto &o : c.rights) embedDBFreeOperatorRecursive(&o);
        cnt(c.join ? "join_chains_freed_recursively" : "chains_freed_recursively");
    }
    else for (auto o : c.ops) vp_free(o);
    freeStates();
    for (auto i : c.its) { embedDBCloseIterator(i); delete i; }
    for (auto b : c.bytes) delete b;
    for (auto f : c.funcs) delete f;
    c.closed = true;
    cnt("chains_closed");
}

static std::vector<int8_t> genSchema(Rng &r, int keySize, int dataSize) {
    std::vector<int8_t> s;
    s.push_back(keySize);
    int mode = r.below(4), left = dataSize;
    while (left > 0) {
        int w = mode == 0 ? (left >= 4 ? 4 : left) : mode == 1 ? 1 + r.below(8) : mode == 2 ? r.pick<int>({1, 2, 4, 8}) : (r.pct(80) ? 1 + r.below(8) : 1 + r.below(40));
        if (w > left) w = left;
        s.push_back(r.pct(50) ? -w : w);
        left -= w;
    }
    return s;
}

static void schemaChecks(Rng &r) {
    size_t live = vpLive();
    int n = r.pct(80) ? 1 + r.below(12) : 1 + r.below(255);
    std::vector<int8_t> sz, sg;
    for (int i = 0; i < n; i++) { sz.push_back(r.pct(85) ? 1 + r.below(8) : 1 + r.below(127)); sg.push_back(r.pct(50) ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED); }
    int bad = r.below(3);
    if (bad == 0) {
        if (r.pct(50)) sz[r.below(n)] = 0;
        else sg[r.below(n)] = 2 + r.below(100);
        embedDBSchema *s = embedDBCreateSchema(n, sz.data(), sg.data());
        if (s) viol("schema-accepted", "embedDBCreateSchema accepted a column of size zero or of unknown signedness");
        if (vpLive() != live) viol("leak", "refused schema was not released");
        cnt("schemas_refused");
        return;
    }
    embedDBSchema *s = embedDBCreateSchema(n, sz.data(), sg.data());
    if (!s) viol("schema-refused", "embedDBCreateSchema refused a valid schema");
    embedDBSchema *k = copySchema(s);
    std::fill(s->columnSizes, s->columnSizes + s->numCols, 0x11);
    embedDBFreeSchema(&s);
    embedDBFreeSchema(&s);  // freeing a cleared pointer is allowed
    size_t tot = 0;
    for (int i = 0; i < n; i++) {
        if (k->columnSizes[i] != (sg[i] == embedDB_COLUMN_SIGNED ? -sz[i] : sz[i])) viol("schema", fmt("column %d stored as %d", i, k->columnSizes[i]));
        if (getColOffsetFromSchema(k, i) != tot) viol("schema", fmt("column %d at offset %u, expected %zu", i, getColOffsetFromSchema(k, i), tot));
        tot += sz[i];
    }
    if (getRecordSizeFromSchema(k) != tot) viol("schema", fmt("record size %u, expected %zu", getRecordSizeFromSchema(k), tot));
    uint8_t *b = (uint8_t *)createBufferFromSchema(k);
    for (size_t i = 0; i < tot; i++) b[i] = i;
    vp_free(b);
    embedDBFreeSchema(&k);
    if (vpLive() != live) viol("leak", "schema not released");
    cnt("schemas_checked");
}

void queryEpisode(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    Rng r(mix(mix(seed, 0x9e01 + p[2]), ix));
    cnt("query_episodes");
    if (r.pct(40)) g_mallocFill = r.pick<int>({0x00, 0xff, 0xa5});
    bool scale = ix >= 9000000 && ix < 10000000;  // more rows than 16-bit numbers can count
    bigGroups = scale;
    int nd = (p == "C17" || (r.pct(30) && !scale)) ? 2 : 1;
    std::vector<std::unique_ptr<Rng>> rg;
    std::vector<std::unique_ptr<Db>> dbs;
    std::vector<Source> src;
    std::vector<uint64_t> shared;
    for (int i = 0; i < nd; i++) {
        rg.emplace_back(new Rng(r.next()));
        Rng &g = *rg.back();
        Cfg c = genCfg(g, p);
        if (!c.dataSize) c.dataSize = 4;  // a scan has at least one column of data
        if (c.keySize < 2) c.keySize = 4;
        if (scale) { if (c.keySize < 4) c.keySize = 4; c.longVar = false; c.params &= ~EMBEDDB_RECORD_LEVEL_CONSISTENCY; }
        if (i) c.keySize = dbs[0]->c.keySize;
        if (c.keySize != 4 && c.keySize != 8) c.cmpKind = 0;
        if (r.pct(60)) c.dataSize = std::max(c.dataSize, r.pick<int>({8, 12, 16, 23, 32}));
        auto per = [&]() { return (c.pageSize - 22 - 2 * (c.keySize + c.dataSize)) / (c.keySize + c.dataSize + 4); };
        while (per() < 1) c.pageSize *= 2;
        if (scale) c.nData = c.E * (70000 / per() / c.E + 8);
        dbs.emplace_back(new Db(c, &g));
        Db &d = *dbs.back();
        d.salt = g.next();
        d.fl.discipline = false;
        d.checkPages = false;
        TRACE("db %d: %s", i, c.str().c_str());
        d.openChecked(true);
        Source s;
        s.d = &d;
        s.base.schema = genSchema(g, c.keySize, c.dataSize);
        // records
        uint64_t maxK = d.maxKeyVal();
        size_t n = g.pct(8) ? 0 : g.pct(50) ? g.below(40) : g.below(th ? 900 : 300);
        if (scale) n = 65600 + g.below(3000);
        n = std::min<size_t>(n, maxK / 4);
        std::vector<uint64_t> keys;
        uint64_t k = g.pct(30) ? 0 : g.below(std::max<uint64_t>(1, std::min<uint64_t>(maxK / 4, g.pct(50) ? 300 : UINT64_MAX)));
        if (scale) k = g.below(1000);
        uint64_t step = scale ? 1 + g.below(4) : 1 + g.below(g.pct(70) ? 4 : std::max<uint64_t>(1, maxK / 4 / (n + 1)));
        bool exact = false;
        if (scale) {
        } else if (g.pct(40) && n) {  // keys on both sides of the sign bit
            if (g.pct(50)) step = std::max<uint64_t>(1, maxK / (n + 1));
            uint64_t half = maxK / 2, back = std::min<uint64_t>(half, step > half / n ? half : step * n / 2);
            k = half - back + g.below(std::max<uint64_t>(1, back));
        } else if (g.pct(40) && n && c.keySize > 1) {  // keys that only differ in some of their bytes
            int sh = c.keySize > 4 && g.pct(50) ? 32 : 8 * (1 + g.below(c.keySize - 1));
            step = (1 + g.below(3)) << sh;
            if (maxK / 2 / step < 3) step = 1ull << sh;
            n = std::min<size_t>(n, maxK / 2 / step);
            exact = true;
        }
        if (i && !shared.empty() && r.pct(85)) {
            int how = r.below(6);
            for (uint64_t x : shared) {
                if (how == 0) keys.push_back(x);                                              // identical
                else if (how == 1) { if (x < maxK - 1 && (keys.empty() || x + 1 > keys.back())) keys.push_back(x + 1); }  // shifted
                else if (r.pct(how == 2 ? 10 : how == 3 ? 50 : 90)) keys.push_back(x);
                else if (how >= 3 && r.pct(40) && x < maxK - 1 && (keys.empty() || x + 1 > keys.back())) keys.push_back(x + 1);
            }
            std::vector<uint64_t> u;
            for (uint64_t x : keys) if (u.empty() || x > u.back()) u.push_back(x);
            keys = u;
            if (how == 5) for (auto &x : keys) x = std::min<uint64_t>(maxK / 2, maxK) + (x / 4);
            u.clear();
            for (uint64_t x : keys) if ((u.empty() || x > u.back()) && x < maxK) u.push_back(x);
            keys = u;
        } else
            for (size_t j = 0; j < n && k < maxK - 1; j++) { keys.push_back(k); uint64_t d = exact ? step : 1 + g.below(step); if (d > maxK - k) break; k += d; }
        if (!i) shared = keys;
        // column patterns: runs, extremes, random
        std::vector<int> pat;
        for (size_t j = 0; j < s.base.schema.size(); j++) { s.base.isFloat.push_back(0); pat.push_back(g.below(5)); }
        if (scale && pat.size() > 1) pat[1] = 0;
        Row cur(s.base.width() - c.keySize, 0);
        for (size_t j = 0; j < keys.size(); j++) {
            Rec rec = d.makeRec(keys[j], c.vdata() ? (g.pct(20) ? 1 : 0) : -1);
            for (size_t q = 1; q < s.base.schema.size(); q++) {
                size_t o = s.base.off(q) - c.keySize, w = abs(s.base.schema[q]);
                switch (pat[q]) {
                    case 0: if (j == 0 || (scale ? g.below(50000) == 0 : g.pct(15))) for (size_t b = 0; b < w; b++) cur[o + b] = g.next(); break;          // runs
                    case 1: for (size_t b = 0; b < w; b++) cur[o + b] = g.next(); break;
                    case 2: { int64_t v = (int64_t)g.below(200) - 100; for (size_t b = 0; b < w; b++) cur[o + b] = b < 8 ? (uint8_t)(v >> (8 * b)) : (v < 0 ? 0xff : 0); break; }
                    case 3: { int e = g.below(5); memset(&cur[o], e == 0 ? 0 : e == 1 ? 0xff : e == 2 ? 0 : 0xff, w); if (e == 2) cur[o + w - 1] = 0x80; if (e == 3) cur[o + w - 1] = 0x7f; if (e == 4) { memset(&cur[o], 0, w); cur[o] = 1; } break; }
                    case 4: if (j == 0 || (scale ? g.below(100000) == 0 : g.pct(25))) { memset(&cur[o], 0, w); cur[o] = g.below(3); } break;                  // few groups
                }
            }
            rec.data = cur;
            rec.val = valOf(c, rec.data);
            d.put(rec, g.pct(10));
            if (g.pct(1)) d.flush();
        }
        if (g.pct(30)) d.flush();
        if (g.pct(15)) { d.flush(); reopen(d, true, g); }
        // what the storage engine itself returns is the table (a contiguous newest part of what was put)
        {
            embedDBIterator it;
            memset(&it, 0, sizeof it);
            embedDBInitIterator(d.st, &it);
            std::vector<uint8_t> kb(c.keySize), db(c.dataSize);
            std::vector<Row> rows;
            while (embedDBNext(d.st, &it, kb.data(), db.data())) { Row x(kb); x.insert(x.end(), db.begin(), db.end()); rows.push_back(x); }
            embedDBCloseIterator(&it);
            if (rows.size() > d.m.hist.size()) viol("scan-base", "more rows than records");
            for (size_t j = 0; j < rows.size(); j++) {
                const Rec &e = d.m.hist[d.m.hist.size() - rows.size() + j];
                if (memcmp(rows[j].data(), &e.key, c.keySize) || memcmp(rows[j].data() + c.keySize, e.data.data(), c.dataSize)) viol("scan-base", fmt("record %zu differs from what was put", j));
            }
            if (d.m.hist.size() - rows.size() > d.m.cutRec()) viol("scan-base", "retained records missing");
            s.base.rows = rows;
            if (rows.size() > 65536) cnt("tables_beyond_65536_rows");
            cnt("records_scanned", rows.size());
        }
        src.push_back(std::move(s));
    }
    size_t live0 = vpLive();
    if (p == "C18" || r.pct(20)) for (int i = 0; i < 6; i++) schemaChecks(r);
    if (vpLive() != live0) viol("leak", "schemas not released");
    int rounds = scale ? (p == "C17" ? 2 : 4) : th ? 24 : 10;
    for (int q = 0; q < rounds; q++) {
        int nc = r.pct(25) ? 2 : 1;  // chains executed in lock step share the databases' buffers
        std::vector<Chain> ch(nc);
        int slot = 0;
        for (auto &c : ch) {
            auto unary = [&](Chain &x, int most, bool keepKey) {
                int n = r.below(most + 1);
                for (int i = 0; i < n; i++) { if (r.pct(12)) addShift(x, r); else if (r.pct(50)) addSelect(x, r); else addProject(x, r, keepKey); }
            };
            std::function<void(Chain &, int)> keyed = [&](Chain &x, int depth) {
                addScan(x, src[r.below(src.size())], r);
                unary(x, 2, true);
                if (slot < 5 && r.pct(12)) { addAggregate(x, r, slot++); if (!x.t.keyFirst) viol("harness", "internal"); }
                if (depth < 2 && r.pct(25)) { Chain y; keyed(y, depth + 1); addJoin(x, y); unary(x, 1, true); }
            };
            bool wantJoin = p == "C17" || (p == "C18" || p == "C19" ? r.pct(35) : r.pct(8));
            bool wantAgg = p == "C16" || (p == "C18" || p == "C19" ? r.pct(40) : r.pct(8));
            if (wantJoin) {
                // the aggregate inside a join input must keep an ascending key, so only joins of plain chains here
                std::function<void(Chain &, int)> plain = [&](Chain &x, int depth) {
                    addScan(x, nd == 2 && depth == 0 ? src[0] : src[r.below(src.size())], r);
                    unary(x, 2, true);
                    if (depth < 2 && r.pct(15)) { Chain y; plain(y, depth + 1); addJoin(x, y); }
                };
                plain(c, 0);
                Chain y;
                addScan(y, nd == 2 ? src[r.pct(80) ? 1 : 0] : src[0], r);
                unary(y, 2, true);
                addJoin(c, y);
                unary(c, 2, false);
            } else {
                addScan(c, src[r.below(src.size())], r);
                unary(c, p == "C15" ? 4 : 2, false);
            }
            if (wantAgg && slot < 6) {
                addAggregate(c, r, slot++);
                unary(c, 2, false);
                if (slot < 6 && r.pct(15)) addAggregate(c, r, slot++);
            }
            TRACE("chain: %s -> %zu rows", c.desc.c_str(), c.t.rows.size());
            g_states.insert(mix(std::hash<std::string>()(c.desc), 1));
        }
        int how = r.below(p == "C18" ? 4 : 10);  // 0: never initialised, 1: closed part way, else run to the end
        for (auto &c : ch) if (how != 0) initChain(c);
        if (how != 0) {
            size_t steps = 0;
            for (auto &c : ch) steps += c.t.rows.size() + 3;
            if (how == 1) steps = r.below(steps + 1);
            for (size_t s = 0; s < steps; s++) {
                Chain &c = ch[r.below(nc)];
                if (c.pos > c.t.rows.size() + 2 && nc > 1) { stepChain(ch[0].pos > ch[0].t.rows.size() + 2 ? ch[1] : ch[0]); }
                else stepChain(c);
                if (r.pct(2)) { Db &d = *dbs[r.below(nd)]; if (!d.m.hist.empty()) d.get(d.m.hist.back().key); }
            }
            if (how > 1) { while (ch[0].pos <= ch[0].t.rows.size()) stepChain(ch[0]); if (nc > 1) while (ch[1].pos <= ch[1].t.rows.size()) stepChain(ch[1]); cnt("chains_run_to_end", nc); }
            else cnt("chains_closed_early", nc);
        } else cnt("chains_never_initialised", nc);
        if (g_nontrivial == false) for (auto &c : ch) if (c.t.rows.size() > 1 || p == "C18") g_nontrivial = true;
        if (ix < 3 && q == 0 && g_samples.size() < 6) g_samples.push_back(fmt("episode %llu: %s -> %zu rows", (unsigned long long)ix, ch[0].desc.c_str(), ch[0].t.rows.size()));
        for (auto &c : ch) closeChain(c, r);
        if (vpLive() != live0) viol("leak", fmt("%zu allocations of the library left after closing and freeing: %s", vpLive() - live0, ch[0].desc.c_str()));
    }
    for (auto &d : dbs) d->close();
    dbs.clear();
    if (vpLive()) viol("leak", fmt("%zu allocations of the library left after closing the databases", vpLive()));
    g_mallocFill = -1;
    bigGroups = false;
}
