// Simulated flash implementing the public embedDBFileInterface, with storage-discipline
// monitor, mutation log (for crash-point reconstruction) and fault injection.
#pragma once
#include "sut.h"
#include "common.h"

enum { F_DATA = 0, F_IDX = 1, F_VAR = 2 };
enum MutKind { M_WRITE, M_ERASE, M_TRUNC };
enum Phase { PH_INIT, PH_PUT, PH_READ, PH_FLUSH, PH_CLOSE, PH_NONE };

struct Flash;
struct SimFile {
    Flash *fl = nullptr;
    int idx = 0;
    uint32_t pages = 0;         // allotted pages
    bool exists = false;
    int opened = 0;
    uint32_t extent = 0;        // file length in pages
    std::vector<uint8_t> bytes; // pages*pageSize
    std::vector<uint8_t> st;    // 0 blank (never written or erased), 1 written
    bool dirty = false;         // pages written since the last successful flush or close
};
struct Mut {
    uint8_t file;
    uint8_t kind;
    uint32_t a, b;
    uint32_t op;                   // op index
    std::vector<uint8_t> content;  // M_WRITE
};
struct Faults {
    // fail the n-th (0-based) call from now of the given kind, for len calls
    int64_t readAt = -1, writeAt = -1, eraseAt = -1, openAt = -1, flushAt = -1;
    int64_t readLen = 1, writeLen = 1, eraseLen = 1, openLen = 1, flushLen = 1;
    int file = -1;  // only calls on this file count, -1 for all files
    uint32_t fired = 0;
    uint32_t flushFired = 0;
    uint32_t wfired = 0;        // failed writes, erases and flushes among them
    bool clobber = false;
    bool any() const { return readAt >= 0 || writeAt >= 0 || eraseAt >= 0 || openAt >= 0 || flushAt >= 0; }
    bool on(int f) const { return file < 0 || file == f; }
    void clear() { *this = Faults(); }
};

// A real file interface driven alongside the simulation (C27).
struct Mirror {
    virtual ~Mirror() {}
    virtual void open(int file, uint8_t mode, int8_t simResult) = 0;
    virtual void close(int file) = 0;
    virtual void flush(int file) = 0;
    virtual void write(int file, void *buf, uint32_t page, uint32_t ps) = 0;
    virtual void erase(int file, uint32_t a, uint32_t b, uint32_t ps) = 0;
    virtual void read(int file, const void *expect, uint32_t page, uint32_t ps, int what) = 0;  // what: 1 written page, 0 beyond the end
};
extern thread_local std::function<std::unique_ptr<Mirror>(Flash *)> g_mkMirror;

struct Flash {
    std::unique_ptr<Mirror> mirror;
    SimFile f[3];
    uint32_t pageSize = 512, eraseSize = 4;
    int eraseFill = -1;  // -1 no-op erase; else fill byte
    bool raw = false;    // raw device: every page readable, always present
    uint8_t rawFill = 0xff;
    bool logging = false;
    bool discipline = true;  // raise on violations of the storage discipline
    bool strictReads = true;
    std::vector<Mut> log;
    struct FlushEv { size_t pos; uint8_t file; };  // everything of this file logged before pos is durable
    std::vector<FlushEv> flushLog;
    uint32_t curOp = 0;
    Phase phase = PH_NONE;
    // calls seen (successful) and attempted
    uint64_t reads[3] = {0, 0, 0}, writes[3] = {0, 0, 0}, erases[3] = {0, 0, 0}, flushes[3] = {0, 0, 0};
    uint64_t failedReads = 0;
    bool logReads = false;
    std::vector<std::pair<int, uint32_t>> readLog;  // successful page reads (file, page) while logReads is on
    Faults faults;
    std::string err;  // first discipline violation (raised by check())
    std::string errCode;
    embedDBFileInterface iface;

    Flash();
    Flash(const Flash &) = delete;
    void setup(uint32_t ps, uint32_t es, uint32_t nd, uint32_t ni, uint32_t nv);
    void setErr(const char *code, const std::string &m) { if (err.empty()) { errCode = code; err = m; } }
    void check() {
        if (!err.empty() && discipline) { std::string c = errCode, e = err; err.clear(); throw Violation{c, e}; }
        err.clear();
    }
    // storage image copy (contents only)
    struct Image { bool exists[3]; uint32_t extent[3]; std::vector<uint8_t> bytes[3], st[3]; };
    void save(Image &im) const;
    void load(const Image &im);
    void apply(const Mut &m);  // apply a logged mutation to the contents
    void durable(int file) { f[file].dirty = false; if (logging) flushLog.push_back({log.size(), (uint8_t)file}); }
    uint64_t hash() const;
};
