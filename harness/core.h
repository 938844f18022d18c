// Reference model of an EmbedDB database and the oracles that compare the real code with it.
#pragma once
#include "flash.h"

struct Cfg {
    int keySize = 4, dataSize = 4, pageSize = 128;
    int E = 2;
    uint32_t nData = 8, nIdx = 4, nVar = 8;
    int splPts = 8;
    size_t splErr = 1;
    int params = 0;
    bool mid = false;      // hundreds of pages, keys spread over the whole key space
    bool longVar = false;  // values over 65535 bytes and values that fill the variable storage
    int bmKind = 0;        // 0 none, 1 int8, 2 int16, 3 int64, 4.. custom widths
    int bmSize = 0;
    int cmpKind = 0;       // 0 harness comparator, 1 library comparator for keys
    int dataCmp = 0;       // 0 generic LE unsigned, 1 int16, 2 int32 (harness), 3 int32Comparator
    int eraseFill = -1;
    bool raw = false;
    uint8_t memFill = 0;   // prior content of state struct, page buffer
    int valueMode = 0;
    int keyMode = 0;
    bool vdata() const { return params & EMBEDDB_USE_VDATA; }
    bool index() const { return params & EMBEDDB_USE_INDEX; }
    bool rlc() const { return params & EMBEDDB_RECORD_LEVEL_CONSISTENCY; }
    bool binsearch() const { return params & EMBEDDB_USE_BINARY_SEARCH; }
    int bufBlocks() const { return 2 + (index() ? 2 : 0) + (vdata() ? 2 : 0); }
    std::string str() const;
    uint64_t tag() const;
};

struct Rec {
    uint64_t key = 0;
    std::vector<uint8_t> data;
    int32_t val = 0;      // value compared by compareData
    bool hasVar = false;
    bool varUnknown = false;  // in-flight at a crash / failed put: variable part not guaranteed
    uint32_t varLen = 0;
    uint64_t varSeed = 0;
    uint64_t vFirst = 0;  // variable pages written before this record's put started
    uint32_t op = 0;      // operation index of the put
};
void varBytes(uint64_t seed, uint32_t len, std::vector<uint8_t> &out);

// model state independent of the running instance (copied for crash branches)
struct Model {
    std::vector<Rec> hist;          // accepted records, ascending keys
    std::vector<size_t> pageFirst;  // pageFirst[i] = first record index of permanent page i; pages are contiguous
    size_t bufStart = 0;            // first record of the write buffer
    uint64_t P = 0;                 // permanent data pages written
    uint64_t mn = 0;                // oldest page that must be retained
    uint64_t vW = 0;                // variable pages written
    uint64_t vMin = 0;              // variable data starting before this page was given up by a restart
    uint64_t maxKeyTried = 0;       // largest key ever attempted
    int64_t failedKey = -1; // key of the last failed put with variable data and where that attempt started
    uint64_t failedVFirst = 0;
    bool any = false;
    size_t cutRec() const { return mn < pageFirst.size() ? pageFirst[mn] : bufStart; }
};

struct Query {
    bool hasMinK = false, hasMaxK = false, hasMinD = false, hasMaxD = false;
    uint64_t minK = 0, maxK = 0;
    std::vector<uint8_t> minD, maxD;
    int32_t minV = 0, maxV = 0;
    std::string str() const;
};

struct OpenIt {
    embedDBIterator it;
    Query q;
    uint64_t kb[2];  // key storage
    size_t histAtOpen;
    int64_t last = -1;
    size_t returned = 0;
    bool useVar = false;
    uint64_t serial = 0;
};
struct OpenStream {
    embedDBVarDataStream *s;
    size_t rec;
    std::vector<uint8_t> expect;
    uint32_t pos = 0;
};

struct Db {
    Cfg c;
    Flash fl;
    embedDBState *st = nullptr;
    void *buf = nullptr;
    bool isOpen = false;
    Model m;
    Rng *rng;
    uint64_t salt = 0;
    // oracle switches
    bool checkPages = true;    // page header/content monitor on each write (C30)
    bool checkStats = false;   // compare counters (C24)
    bool checkDurable = false; // acknowledged data must have been flushed (C32)
    bool checkCost = false;    // pages read and written per operation (C33)
    bool tolerant = false;     // faults are armed: failures allowed
    bool lastFail = false;
    std::function<void(embedDBState *)> tweak;  // changes the configuration just before embedDBInit
    uint64_t statBaseR[3] = {0}, statBaseW[3] = {0};
    std::vector<Rec> maybe;  // RLC: puts that failed because their page could not be flushed; one may still reappear after a restart
    void resolveMaybe();
    std::vector<OpenIt *> its;
    std::vector<OpenStream *> streams;
    // timeline of this instance's log (crash-point reconstruction)
    uint64_t baseP = 0, baseV = 0;
    std::vector<size_t> permLog;

    Db(const Cfg &cfg, Rng *r);
    ~Db();
    // --- lifecycle
    int8_t open(bool reset);                  // returns embedDBInit's result
    void openChecked(bool reset);
    void close();                             // embedDBClose + free state
    void discard();                           // as close, ignoring monitors (after a simulated crash)
    // --- operations with oracle
    Rec makeRec(uint64_t key, int varMode);   // varMode: -1 none via put, 0 none via putVar(NULL), 1 with data
    int8_t put(Rec r, bool viaPut);           // expects success unless tolerant; returns status
    void putBad(uint64_t key, bool var);
    void get(uint64_t key);
    void getVar(uint64_t key, Rng &r);
    void flush();
    void flushVar();
    void query(const Query &q, bool withVar, Rng &r, size_t limit = SIZE_MAX);
    void audit(Rng &r, int depth);            // full contents
    void endOp(const char *op);
    Query genQuery(Rng &r, bool keys, bool data);
    uint64_t genKey(Rng &r);                  // next ascending key
    uint64_t probeKey(Rng &r);
    // interleaved readers
    void itOpen(Rng &r, bool data, bool var);
    void itStep(size_t i, Rng &r);
    void itCloseAll();
    void stOpen(Rng &r);
    void stStep(size_t i, Rng &r);
    void stCloseAll();
    void refused(Rng &r);
    // helpers
    int64_t find(uint64_t key) const;
    int cmpVal(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) const;
    bool matches(const Query &q, const Rec &r) const;
    void keyBytes(uint64_t k, uint8_t *out) const { memcpy(out, &k, 8); }
    uint64_t maxKeyVal() const;
    void afterMutation(const char *op, bool accepted);
    void checkWrittenPages(size_t logStart, const Rec *pending);
    void checkIndexPage(const Mut &w);
    std::map<uint64_t, std::vector<uint8_t>> pageBm;
    uint64_t eVar(uint64_t w) const {
        if (w + 1 <= c.nVar) return 0;
        return c.E * ((w + 1 - c.nVar + c.E - 1) / c.E);
    }
    bool varMustExist(const Rec &r) const { return r.vFirst >= std::max(eVar(m.vW), m.vMin); }
    void checkStream(embedDBVarDataStream *s, const Rec &r, Rng &rng, const char *who);
    bool costOn() const { return checkCost && !tolerant; }
    void costBegin();
    void costBegin(void *key);
    void costGet(uint64_t k, std::vector<uint8_t> key, bool found);
    void costQuery(const Query &q);
    void costWrite(const char *op, const Rec *r, bool bufferEmpty, bool ok);
    uint32_t costLow = 0, costHigh = 0;  // pages the search structure allows for the current operation
    bool costCovered = false;            // the key lies between the points which the spline still has
    uint64_t costW[3] = {0, 0, 0}, costE[3] = {0, 0, 0};
    bool statsOn = false;
    void statReset();
    void printed();
    void durableCheck(const char *op, bool data, bool idx, bool var);
    void statCheck(const char *op);
    uint64_t hits = 0;
    uint64_t varOverheadMin = 0;
};

int32_t valOf(const Cfg &c, const std::vector<uint8_t> &d);
struct KeyGen {
    int mode;
    uint64_t step, limit;
};
Cfg genCfg(Rng &r, const std::string &profile);
// the bytes of record data, which may be none
inline const uint8_t *dptr(const std::vector<uint8_t> &v) { static const uint8_t none[1] = {0}; return v.empty() ? none : v.data(); }
inline uint8_t *dptr(std::vector<uint8_t> &v) { static thread_local uint8_t none[1]; return v.empty() ? none : v.data(); }
int64_t modelMn(const Cfg &c, uint64_t P);
// model of what a reopen must recover when only the first k logged mutations reached storage
// (kVar: number of logged mutations which the variable data file kept, SIZE_MAX: the same k)
Model crashedModel(const Db &d, size_t k, const Flash &img, const Rec *&optional, size_t kVar = SIZE_MAX);
bool intactPage(const Cfg &c, const Flash &fl, uint64_t id);

// operation mix
struct Mix {
    int put = 40, putBad = 2, get = 12, getVar = 6, flush = 2, flushVar = 1, query = 5, dquery = 5, audit = 1, restart = 1, itOpen = 0, itStep = 0, stOpen = 0, stStep = 0;
    bool restartNoFlush = false;  // restarts may skip the flush (buffered records are then lost without RLC)
    int burst = 0;                // max puts per put-op, 0: about a page
    int varPct = 60;              // puts with variable data
    int viaPut = 15;              // on a variable-data database: fixed put through embedDBPut
};
void runOps(Db &d, const Mix &mx, size_t nOps, size_t maxPuts, Rng &r);
void reopen(Db &d, bool flush, Rng &r);
size_t putsForWraps(const Db &d, double wraps);
Mix mixFor(const std::string &profile, const Cfg &c);
