// C27: the three provided file interfaces against a page-store model: the desktop one on real files, the SD one (and the SD
// wrapper under it) and the dataflash one on host stand-ins of their media, healthy and failing.
#include "core.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "fakes/SdFat.h"

extern "C" {
embedDBFileInterface *getFileInterface();
embedDBFileInterface *getMockEraseFileInterface();
void *setupFile(char *);
void tearDownFile(void *);
embedDBFileInterface *getSDInterface();
void *setupSDFile(char *);
void tearDownSDFile(void *);
embedDBFileInterface *getDataflashInterface();
void *setupDataflashFile(uint32_t, uint32_t);
void tearDownDataflashFile(void *);
void init_sdcard(void *);
int32_t dfread(int32_t page, void *p, int32_t n);
int32_t dfwrite(int32_t page, void *p, int32_t n);
}
FakeSd *g_sd;

// ---- stand-in of the dataflash chip
struct FakeDf {
    uint32_t pages, pageSize;
    std::vector<std::vector<uint8_t>> mem;
    int64_t failRead = -1, failWrite = -1;
    int failHow = 0;
    uint64_t fired = 0;
    std::string err;
};
static FakeDf *g_df;
extern "C" int32_t dfread(int32_t page, void *p, int32_t n) {
    if (page < 0 || (uint32_t)page >= g_df->pages || n < 0 || (uint32_t)n > g_df->pageSize) { g_df->err = fmt("read of %d bytes at device page %d", n, page); return 0; }
    if (FakeSd::hit(g_df->failRead)) { g_df->fired++; return g_df->failHow == 0 ? 0 : g_df->failHow == 1 ? -1 : n - 1; }
    memcpy(p, g_df->mem[page].data(), n);
    return n;
}
extern "C" int32_t dfwrite(int32_t page, void *p, int32_t n) {
    if (page < 0 || (uint32_t)page >= g_df->pages || n < 0 || (uint32_t)n > g_df->pageSize) { g_df->err = fmt("write of %d bytes at device page %d", n, page); return 0; }
    if (FakeSd::hit(g_df->failWrite)) { g_df->fired++; return g_df->failHow == 0 ? 0 : g_df->failHow == 1 ? -1 : n - 1; }
    memcpy(g_df->mem[page].data(), p, n);
    return n;
}

static std::string workDir() {
    static std::string d;
    if (d.empty()) {
        const char *w = getenv("VP_WORK");
        if (w && *w) d = w;
        else { char t[] = "/tmp/vpfileXXXXXX"; d = mkdtemp(t); }
    }
    return d;
}
static int openFds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (d && readdir(d)) n++;
    if (d) closedir(d);
    return n;
}

enum Kind { K_DESK, K_MOCK, K_SD, K_DF };
static const char *KN[] = {"desktop", "desktop with simulated erase", "SD", "dataflash"};

// A medium with its interface and files
struct Medium {
    Kind k;
    embedDBFileInterface *itf = nullptr;
    FakeSd sd;
    SdFat32 card;
    FakeDf df;
    std::vector<std::string> names;
    std::vector<void *> handles;
    size_t vp0;
    int fd0;
    explicit Medium(Kind kind) : k(kind) {
        vp0 = vpLive();
        fd0 = openFds();
        if (k == K_DESK) itf = getFileInterface();
        else if (k == K_MOCK) itf = getMockEraseFileInterface();
        else if (k == K_SD) { g_sd = &sd; init_sdcard(&card); itf = getSDInterface(); }
        else { g_df = &df; itf = getDataflashInterface(); }
    }
    void *add(const std::string &name, uint32_t start = 0, uint32_t num = 0) {
        void *h;
        std::vector<char> n(name.begin(), name.end());
        n.push_back(0);
        if (k <= K_MOCK) h = setupFile(n.data());
        else if (k == K_SD) h = setupSDFile(n.data());
        else h = setupDataflashFile(start, num);
        memset(n.data(), '#', n.size() - 1);  // the name handed in need not outlive the call
        handles.push_back(h);
        return h;
    }
    void drop(void *h) {
        if (k <= K_MOCK) tearDownFile(h);
        else if (k == K_SD) tearDownSDFile(h);
        else tearDownDataflashFile(h);
        for (size_t i = 0; i < handles.size(); i++)
            if (handles[i] == h) { handles.erase(handles.begin() + i); break; }
    }
    void finish() {
        while (!handles.empty()) drop(handles.back());
        vp_free(itf);
        itf = nullptr;
#ifndef VP_NOTRACK
        if (vpLive() != vp0) viol("file-leak", fmt("%zu allocations of the %s interface left after tearing all files down", vpLive() - vp0, KN[k]));
#endif
        if (k == K_SD && sd.live) viol("file-leak", fmt("%d SD file objects left after tearing all files down", sd.live));
        if (openFds() != fd0) viol("file-leak", fmt("%d file descriptors left open after tearing all files down", openFds() - fd0));
    }
    ~Medium() {
        for (auto &n : names) unlink(n.c_str());
        if (k == K_SD) { sd.files.clear(); }
    }
};

struct PageM { std::vector<uint8_t> b; bool known; };
struct FileM {
    std::string name;
    void *h = nullptr;
    bool exists = false, open = false;
    std::map<uint32_t, PageM> pg;     // pages written since the file was created
    std::set<uint32_t> dirty;         // written since the last successful flush or close
    bool doubt = false;               // a write, flush or close has failed since then
    uint32_t endMax = 0;              // no page at or beyond this one was ever written or could have been
    uint32_t start = 0, num = 0;
};

static void body(Medium &m, Rng &r, bool th, uint32_t ps) {
    int nf = 1 + r.below(3);
    std::vector<FileM> fs(nf);
    uint32_t next = 0;
    bool df = m.k == K_DF, desk = m.k <= K_MOCK;
    for (int i = 0; i < nf; i++) {
        FileM &f = fs[i];
        if (df) {
            f.start = next + r.below(4);
            f.num = 1 + r.below(24);
            next = f.start + f.num;
        }
        std::string nm = r.pct(20) ? fmt("f%d%s", i, std::string(60, 'x').c_str()) : fmt("f%d", i);
        f.name = desk ? workDir() + "/" + nm : nm;
        if (desk) { unlink(f.name.c_str()); m.names.push_back(f.name); }
        f.h = m.add(f.name, f.start, f.num);
    }
    std::vector<std::vector<uint8_t>> shadow;
    if (df) {
        m.df.pages = next + r.below(4);
        m.df.pageSize = ps;
        m.df.mem.resize(m.df.pages);
        for (auto &p : m.df.mem) { p.resize(ps); for (auto &b : p) b = r.next(); }
        shadow = m.df.mem;
    }
    // exact-size page buffer, sometimes not aligned
    auto withBuf = [&](std::function<void(uint8_t *)> fn) {
        size_t off = r.pct(25) ? 1 + r.below(7) : 0;
        uint8_t *raw = (uint8_t *)malloc(ps + off);
        try { fn(raw + off); } catch (...) { free(raw); throw; }
        free(raw);
    };
    bool faulty = false;
    auto anyFired = [&] { return faulty || m.sd.fired || m.df.fired; };
    auto doubtful = [&](FileM &f) {
        f.doubt = true;
        for (uint32_t p : f.dirty) if (f.pg.count(p)) f.pg[p].known = false;
    };
    auto readPage = [&](FileM &f, uint32_t p, void *h, bool other) {
        withBuf([&](uint8_t *b) {
            for (uint32_t i = 0; i < ps; i++) b[i] = 0x5c ^ i;
            uint64_t fired = m.sd.fired + m.df.fired;
            int8_t rc = m.itf->read(b, p, ps, h);
            TRACE("%sread %s page %u -> %d", other ? "other opener: " : "", f.name.c_str(), p, rc);
            cnt("reads");
            bool fault = faulty || m.sd.fired + m.df.fired != fired;
            if (rc != 0 && rc != 1) viol("file-result", fmt("%s: read returned %d", KN[m.k], rc));
            if (m.sd.fired + m.df.fired != fired && rc != 0) viol("file-read-success", fmt("%s: read of page %u reported success although the medium failed", KN[m.k], p));
            auto it = f.pg.find(p);
            if (fault && rc == 0) { cnt("failed_reads"); if (desk && !f.dirty.empty() && !other) doubtful(f); return; }
            if (it != f.pg.end()) {
                if (!it->second.known) return;
                if (rc != 1) viol("file-read-failed", fmt("%s: read of page %u (%u bytes), written before, failed", KN[m.k], p, ps));
                if (memcmp(b, it->second.b.data(), ps)) viol("file-read-content", fmt("%s: page %u (%u bytes) read back differs from what was last written%s", KN[m.k], p, ps, other ? " and flushed" : ""));
                cnt("pages_compared");
            } else if (df) {
                if (p >= f.num) { if (rc) viol("file-partition", fmt("read of page %u of a %u-page partition succeeded", p, f.num)); cnt("refused"); }
                else if (!rc || memcmp(b, shadow[f.start + p].data(), ps)) viol("file-read-content", fmt("dataflash page %u of the partition at %u reads wrong", p, f.start));
            } else if (p >= f.endMax && !f.doubt) {
                if (rc != 0) viol("file-read-beyond", fmt("%s: read of page %u beyond the %u pages of the file succeeded", KN[m.k], p, f.endMax));
                cnt("refused");
            }
        });
    };
    auto clean = [&](FileM &f) { if (!f.doubt) f.dirty.clear(); };
    auto openFile = [&](FileM &f, uint8_t mode, bool expectFault) {
        uint64_t fired = m.sd.fired;
        int8_t rc = m.itf->open(f.h, mode);
        bool fault = m.sd.fired != fired || (expectFault && faulty);
        TRACE("open %s mode %d -> %d", f.name.c_str(), mode, rc);
        cnt("opens");
        if (rc != 0 && rc != 1) viol("file-result", fmt("%s: open returned %d", KN[m.k], rc));
        if (df) {
            if (mode <= 1 && rc != 1) viol("file-open", fmt("dataflash: open in mode %d of a partition failed", mode));
            f.open = f.exists = true;
            return;
        }
        bool want = mode == EMBEDDB_FILE_MODE_W_PLUS_B || f.exists;
        if (fault && rc == 0) {
            // a create that fails may have emptied or created the file already, or not
            cnt("failed_opens");
            if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
                for (auto &x : f.pg) x.second.known = false;
                f.doubt = true;
                if (m.k == K_SD) f.exists = m.sd.files.count(f.name); else { struct stat sb; f.exists = stat(f.name.c_str(), &sb) == 0; }
            }
            return;
        }
        if (want != (rc == 1)) viol("file-open", fmt("%s: open in %s mode of a file that %s returned %d", KN[m.k], mode == EMBEDDB_FILE_MODE_W_PLUS_B ? "create" : "update", f.exists ? "exists" : "does not exist", rc));
        if (rc == 1) {
            f.open = f.exists = true;
            if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
                f.pg.clear();
                f.dirty.clear();
                f.doubt = false;
                f.endMax = 0;
                cnt("created");
                if (!faulty) { readPage(f, 0, f.h, false); }
            }
        } else cnt("refused");
    };
    int steps = th ? 400 : 120, faultSteps = 0;
    uint32_t span = r.pct(70) ? 12 + r.below(20) : 60 + r.below(200);
    struct rlimit saved;
    getrlimit(RLIMIT_FSIZE, &saved);
    auto heal = [&] {
        if (faulty && desk) setrlimit(RLIMIT_FSIZE, &saved);
        faulty = false;
        m.sd.failRead = m.sd.failWrite = m.sd.failSeek = m.sd.failOpen = m.sd.failTruncate = -1;
        m.sd.capacity = (size_t)-1;
        m.df.failRead = m.df.failWrite = -1;
        faultSteps = 0;
    };
    bool withFaults = r.pct(50);
    try {
        for (int s = 0; s < steps; s++) {
            FileM &f = fs[r.below(nf)];
            if (faultSteps && --faultSteps == 0) heal();
            if (withFaults && !faultSteps && r.pct(5)) {
                faultSteps = 3 + r.below(12);
                if (desk) {
                    if (!r.pct(60)) { struct rlimit l = saved; l.rlim_cur = r.below(span * ps); setrlimit(RLIMIT_FSIZE, &l); faulty = true; cnt("full_medium"); TRACE("-- files limited to %llu bytes", (unsigned long long)l.rlim_cur); }
                } else if (df) {
                    m.df.failHow = r.below(3);
                    (r.pct(50) ? m.df.failRead : m.df.failWrite) = r.below(4);
                } else {
                    m.sd.shortWrite = r.pct(50);
                    switch (r.below(6)) {
                        case 0: m.sd.failRead = r.below(3); break;
                        case 1: m.sd.failWrite = r.below(6); break;
                        case 2: m.sd.failSeek = r.below(4); break;
                        case 3: m.sd.failOpen = 0; break;
                        case 4: m.sd.failTruncate = 0; break;
                        case 5: m.sd.capacity = m.sd.used() + r.below(4 * ps); cnt("full_medium"); break;
                    }
                    TRACE("-- fault armed");
                }
            }
            if (!f.open) {
                if (f.exists && !df && !faultSteps && !faulty && !f.doubt && ps > 1 && r.pct(25)) {
                    // the file ends in the middle of a page, as after a power loss: that page does not exist
                    std::vector<uint8_t> tail(1 + r.below(ps - 1));
                    for (auto &b : tail) b = r.next();
                    bool done = false;
                    if (desk) {
                        struct stat sb;
                        if (stat(f.name.c_str(), &sb) == 0 && (uint64_t)sb.st_size == (uint64_t)f.endMax * ps) {
                            FILE *x = fopen(f.name.c_str(), "ab");
                            if (x) { done = fwrite(tail.data(), tail.size(), 1, x) == 1; fclose(x); }
                        }
                    } else if (m.sd.files.count(f.name)) {
                        auto n = m.sd.files[f.name];
                        if (n->now.size() == (size_t)f.endMax * ps && n->durable == n->now) {
                            n->now.insert(n->now.end(), tail.begin(), tail.end());
                            n->durable = n->now;
                            done = true;
                        }
                    }
                    if (done) {
                        TRACE("-- %zu bytes of page %u appended to %s", tail.size(), f.endMax, f.name.c_str());
                        cnt("partial_pages");
                        openFile(f, EMBEDDB_FILE_MODE_R_PLUS_B, false);
                        if (f.open) readPage(f, f.endMax, f.h, false);
                        continue;
                    }
                }
                if (r.pct(4)) {
                    uint8_t mode = r.pick<uint8_t>({2, 3, 7, 255});
                    if (!df && m.itf->open(f.h, mode)) viol("file-open", fmt("%s: open with unknown mode %d succeeded", KN[m.k], mode));
                }
                openFile(f, f.exists && r.pct(75) ? EMBEDDB_FILE_MODE_R_PLUS_B : r.pct(80) ? EMBEDDB_FILE_MODE_W_PLUS_B : EMBEDDB_FILE_MODE_R_PLUS_B, true);
                continue;
            }
            int op = r.below(100);
            if (op < 40) {
                uint32_t p;
                if (df) p = r.pct(85) ? r.below(f.num) : r.pct(50) ? f.num + r.below(3) : r.pick<uint32_t>({0xffffffffu, 0xffffffffu - f.start, 0x80000000u, 0u - f.start});
                else if (r.pct(45)) p = f.endMax;                       // append
                else if (r.pct(70) && f.endMax) p = r.below(f.endMax);  // in place
                else p = r.below(span);                                 // anywhere, may leave a gap
                if (!df && p > span * 3) p = r.below(span);
                withBuf([&](uint8_t *b) {
                    for (uint32_t i = 0; i < ps; i++) b[i] = r.next();
                    std::vector<uint8_t> copy(b, b + ps);
                    uint64_t fired = m.sd.fired + m.df.fired;
                    int8_t rc = m.itf->write(b, p, ps, f.h);
                    TRACE("write %s page %u -> %d", f.name.c_str(), p, rc);
                    cnt("writes");
                    bool fault = m.sd.fired + m.df.fired != fired;
                    if (rc != 0 && rc != 1) viol("file-result", fmt("%s: write returned %d", KN[m.k], rc));
                    if (memcmp(b, copy.data(), ps)) viol("file-write-buffer", fmt("%s: write changed the caller's buffer", KN[m.k]));
                    if (fault && rc) viol("file-write-success", fmt("%s: write of page %u reported success although the medium failed", KN[m.k], p));
                    if (df && p >= f.num) {
                        if (rc) viol("file-partition", fmt("write of page %u of a %u-page partition succeeded", p, f.num));
                        cnt("refused");
                        return;
                    }
                    if (!rc && !fault && !faulty) viol("file-write-failed", fmt("%s: write of page %u (%u bytes) failed on a healthy medium", KN[m.k], p, ps));
                    f.dirty.insert(p);
                    if (rc) {
                        f.pg[p] = {copy, true};
                        f.endMax = std::max(f.endMax, p + 1);
                        if (df) shadow[f.start + p] = copy;
                        cnt("pages_written");
                    } else {
                        cnt("failed_writes");
                        f.pg[p] = {copy, false};
                        f.endMax = std::max(f.endMax, p + 1);
                        if (desk) doubtful(f);
                        if (df) shadow[f.start + p] = m.df.mem[f.start + p];
                    }
                });
            } else if (op < 75) {
                uint32_t p = r.pct(80) && f.endMax ? r.below(f.endMax) : r.pct(70) ? r.below(span + 3) : f.endMax + r.below(3);
                if (df && r.pct(20)) p = r.pick<uint32_t>({f.num, f.num + 1, 0xffffffffu, 0xffffffffu - f.start, 0u - f.start, 0x80000000u});
                readPage(f, p, f.h, false);
            } else if (op < 79) {
                uint32_t a = r.below(std::max(1u, df ? f.num : f.endMax)), b = a + 1 + r.below(4);
                if (df && b > f.num) b = f.num;
                if (b <= a) continue;
                bool inside = !df && b <= f.endMax;
                int8_t rc = m.itf->erase(a, b, ps, f.h);
                TRACE("erase %s [%u,%u) -> %d", f.name.c_str(), a, b, rc);
                cnt("erases");
                if (rc != 0 && rc != 1) viol("file-result", fmt("%s: erase returned %d", KN[m.k], rc));
                if (!rc && !faulty) viol("file-erase-failed", fmt("%s: erase of [%u,%u) failed on a healthy medium", KN[m.k], a, b));
                for (uint32_t p = a; p < b; p++) {
                    auto it = f.pg.find(p);
                    if (it != f.pg.end()) it->second.known = false;
                    else if (!df) f.pg[p] = {{}, false};
                    if (df) f.pg.erase(p), shadow[f.start + p] = m.df.mem[f.start + p];
                    f.dirty.insert(p);
                }
                if (!df) f.endMax = std::max(f.endMax, b);
                if (!rc) doubtful(f);
                (void)inside;
            } else if (op < 88) {
                int8_t rc = m.itf->flush(f.h);
                TRACE("flush %s -> %d", f.name.c_str(), rc);
                cnt("flushes");
                if (rc != 0 && rc != 1) viol("file-result", fmt("%s: flush returned %d", KN[m.k], rc));
                if (!rc && !faulty && !f.doubt) viol("file-flush-failed", fmt("%s: flush failed on a healthy medium", KN[m.k]));
                if (!rc) { doubtful(f); cnt("failed_flushes"); }
                else clean(f);
                if (rc && !faulty && !f.doubt) {
                    if (m.k == K_SD && !faultSteps) {
                        // what was flushed is on the card
                        auto n = m.sd.files[f.name];
                        for (auto &x : f.pg)
                            if (x.second.known && ((uint64_t)(x.first + 1) * ps > n->durable.size() || memcmp(&n->durable[(size_t)x.first * ps], x.second.b.data(), ps)))
                                viol("file-flush-lost", fmt("SD: page %u is not on the card after a successful flush", x.first));
                        cnt("flushed_images");
                    }
                    if (desk || (m.k == K_SD && !faultSteps)) {
                        void *h2 = m.add(f.name, f.start, f.num);
                        if (m.itf->open(h2, EMBEDDB_FILE_MODE_R_PLUS_B) != 1) viol("file-open", fmt("%s: a flushed file cannot be opened again", KN[m.k]));
                        for (auto &x : f.pg) if (r.pct(40)) readPage(f, x.first, h2, true);
                        if (m.itf->close(h2) != 1) viol("file-close", fmt("%s: close failed", KN[m.k]));
                        m.drop(h2);
                        cnt("second_openers");
                    }
                }
            } else if (op < 95) {
                int8_t rc = m.itf->close(f.h);
                TRACE("close %s -> %d", f.name.c_str(), rc);
                cnt("closes");
                f.open = false;
                if (rc != 0 && rc != 1) viol("file-result", fmt("%s: close returned %d", KN[m.k], rc));
                if (!rc && !faulty && !f.doubt) viol("file-close", fmt("%s: close failed on a healthy medium", KN[m.k]));
                if (!rc) { doubtful(f); cnt("failed_closes"); }
                if (faulty && f.doubt) doubtful(f);
                clean(f);
                f.dirty.clear();
                f.doubt = f.doubt && (faulty || !rc);
                if (f.doubt) for (auto &x : f.pg) (void)x;
                if (r.pct(30)) {  // a new handle on the same file
                    m.drop(f.h);
                    f.h = m.add(f.name, f.start, f.num);
                } else if (m.k == K_SD && r.pct(50) && std::none_of(fs.begin(), fs.end(), [](FileM &x) { return x.open; })) {
                    m.sd.powerLoss();
                    cnt("power_losses");
                }
            } else {
                for (auto &x : f.pg) readPage(f, x.first, f.h, false);
                cnt("full_comparisons");
            }
            if (df) {
                if (!m.df.err.empty()) viol("file-device", "dataflash: " + m.df.err);
                for (uint32_t p = 0; p < m.df.pages; p++)
                    if (m.df.mem[p] != shadow[p]) viol("file-other-page", fmt("dataflash: device page %u changed without being written", p));
            }
        }
        heal();
        for (auto &f : fs) {
            if (!f.open) {
                if (!f.exists) continue;
                openFile(f, EMBEDDB_FILE_MODE_R_PLUS_B, false);
                if (!f.open) continue;
            }
            for (auto &x : f.pg) readPage(f, x.first, f.h, false);
            if (r.pct(70)) {
                if (m.itf->close(f.h) != 1 && !f.doubt) viol("file-close", fmt("%s: close failed on a healthy medium", KN[m.k]));
                f.open = false;
            }
        }
    } catch (...) { heal(); throw; }
    (void)anyFired;
    if (m.sd.fired + m.df.fired) cnt("medium_failures", m.sd.fired + m.df.fired);
}

// ---- desktop only: /dev/full, impossible names, very large page numbers
static void special(Medium &m, Rng &r, uint32_t ps) {
    std::vector<uint8_t> b(ps, 7), c(ps);
    {
        struct stat sb;
        if (stat("/dev/full", &sb) == 0 && S_ISCHR(sb.st_mode)) {
            void *h = m.add("/dev/full");
            if (m.itf->open(h, EMBEDDB_FILE_MODE_W_PLUS_B)) {
                bool failed = false;
                int n = 1 + r.below(20);
                for (int i = 0; i < n && !failed; i++) failed = m.itf->write(b.data(), i, ps, h) != 1;
                if (!failed) failed = m.itf->flush(h) != 1;
                if (!failed) viol("file-write-success", fmt("%s: %d pages written and flushed to a full device without a failure being reported", KN[m.k], n));
                m.itf->close(h);
                cnt("full_medium");
            }
            m.drop(h);
        }
    }
    for (std::string bad : {workDir() + "/none/x", workDir(), std::string("")}) {
        void *h = m.add(bad);
        for (uint8_t mode : {EMBEDDB_FILE_MODE_W_PLUS_B, EMBEDDB_FILE_MODE_R_PLUS_B})
            if (m.itf->open(h, mode)) viol("file-open", fmt("%s: open of '%s' succeeded", KN[m.k], bad.c_str()));
        m.drop(h);
        cnt("refused", 2);
    }
    std::string n = workDir() + "/big", side = workDir() + "/side";
    m.names.push_back(n);
    m.names.push_back(side);
    void *h = m.add(n);
    if (m.itf->open(h, EMBEDDB_FILE_MODE_W_PLUS_B) != 1) viol("file-open", "create failed");
    uint32_t base = (uint32_t)((1ull << 32) / ps);
    std::vector<uint32_t> pages = {0, 1, base - 1, base, base + 1, base / 2, base / 2 + 1, (uint32_t)(base + r.below(1000000)), base * 2};
    std::map<uint32_t, uint8_t> put;
    for (uint32_t p : pages) {
        int fd = open(side.c_str(), O_RDWR | O_CREAT, 0600);
        bool possible = fd >= 0 && ftruncate(fd, ((off_t)p + 1) * ps) == 0;
        if (fd >= 0) close(fd);
        if (!possible) continue;
        uint8_t v = r.next();
        std::fill(b.begin(), b.end(), v);
        if (m.itf->write(b.data(), p, ps, h) != 1) viol("file-write-failed", fmt("%s: write of page %u (%u bytes) failed on a healthy medium", KN[m.k], p, ps));
        put[p] = v;
        cnt("large_offsets");
        for (auto &x : put) {
            if (m.itf->read(c.data(), x.first, ps, h) != 1) viol("file-read-failed", fmt("%s: read of page %u failed", KN[m.k], x.first));
            for (uint8_t y : c) if (y != x.second) viol("file-read-content", fmt("%s: page %u (%u bytes) differs after writing page %u", KN[m.k], x.first, ps, p));
            cnt("pages_compared");
        }
    }
    if (m.itf->close(h) != 1) viol("file-close", "close failed");
    m.drop(h);
    // forgotten files are closed by their teardown
    h = m.add(n);
    if (m.itf->open(h, EMBEDDB_FILE_MODE_R_PLUS_B) != 1) viol("file-open", "update mode failed on an existing file");
    m.drop(h);
}

// ---- a database workload on a real interface, compared call by call with the simulated flash
struct RealMirror : Mirror {
    Medium &m;
    Flash *fl;
    void *h[3] = {0, 0, 0};
    bool isOpen[3] = {0, 0, 0};
    static int serial;
    RealMirror(Medium &md, Flash *f) : m(md), fl(f) {
        uint32_t next = 0;
        serial++;
        bool create = m.k != K_DF && f->raw;
        if (create) {  // files that exist and are empty instead of a raw device
            f->raw = false;
            for (auto &x : f->f) { x.extent = 0; x.exists = true; }
        }
        for (int i = 0; i < 3; i++) {
            std::string n = fmt("db%d_%d", serial, i);
            if (m.k <= K_MOCK) { n = workDir() + "/" + n; unlink(n.c_str()); m.names.push_back(n); }
            h[i] = m.add(n, next, f->f[i].pages);
            next += f->f[i].pages;
            if (create) { m.itf->open(h[i], EMBEDDB_FILE_MODE_W_PLUS_B); m.itf->close(h[i]); }
        }
        if (m.k == K_DF) {
            m.df.pages = next;
            m.df.pageSize = f->pageSize;
            m.df.mem.assign(next, std::vector<uint8_t>(f->pageSize, 0xff));
        }
    }
    ~RealMirror() { for (int i = 0; i < 3; i++) m.drop(h[i]); }
    void bad(const char *code, const std::string &s) { fl->setErr(code, std::string(KN[m.k]) + ": " + s); }
    void open(int f, uint8_t mode, int8_t sim) override {
        int8_t rc = m.itf->open(h[f], mode);
        if (rc == 1) isOpen[f] = true;
        if (rc != sim && !(m.k == K_DF)) bad("file-open", fmt("open of file %d in mode %d returned %d, expected %d", f, mode, rc, sim));
        cnt("opens");
    }
    void close(int f) override {
        if (m.itf->close(h[f]) != 1) bad("file-close", fmt("close of file %d failed", f));
        isOpen[f] = false;
        cnt("closes");
    }
    void flush(int f) override { if (m.itf->flush(h[f]) != 1) bad("file-flush-failed", fmt("flush of file %d failed", f)); cnt("flushes"); }
    void write(int f, void *b, uint32_t p, uint32_t ps) override { if (m.itf->write(b, p, ps, h[f]) != 1) bad("file-write-failed", fmt("write of page %u of file %d failed", p, f)); cnt("writes"); }
    void erase(int f, uint32_t a, uint32_t b, uint32_t ps) override { if (m.itf->erase(a, b, ps, h[f]) != 1) bad("file-erase-failed", fmt("erase of [%u,%u) of file %d failed", a, b, f)); cnt("erases"); }
    void read(int f, const void *e, uint32_t p, uint32_t ps, int what) override {
        uint8_t *b = (uint8_t *)malloc(ps);
        int8_t rc = m.itf->read(b, p, ps, h[f]);
        cnt("reads");
        if (what == 1) {
            if (rc != 1) bad("file-read-failed", fmt("read of page %u of file %d failed", p, f));
            else if (memcmp(b, e, ps)) bad("file-read-content", fmt("page %u of file %d reads differently from what was written", p, f));
            cnt("pages_compared");
        } else if (rc == 1 && m.k != K_DF) bad("file-read-beyond", fmt("read of page %u beyond the end of file %d succeeded", p, f));
        free(b);
    }
};
int RealMirror::serial;

void fileEpisode(const std::string &, uint64_t seed, uint64_t ix, bool th) {
    Rng r(mix(mix(seed, 0xf11e), ix));
    Kind k = (Kind)(ix % 4);
    signal(SIGXFSZ, SIG_IGN);
    uint32_t ps = r.pct(60) ? r.pick<uint32_t>({512, 512, 128, 1024, 256}) : r.pick<uint32_t>({64, 100, 24, 513, 2048, 4096, 510, 33});
    cnt("episodes");
    cnt(fmt("episodes_%s", k == K_DESK ? "desktop" : k == K_MOCK ? "mock_erase" : k == K_SD ? "sd" : "dataflash").c_str());
    g_states.insert(mix(k, ps));
    Medium m(k);
    if (ix / 4 % 4 == 3) {
        static const char *SUB[] = {"C07", "C10", "C31", "C05", "C13", "C23"};
        const char *sub = SUB[r.below(6)];
        TRACE("database workload %s on the %s interface", sub, KN[k]);
        g_mkMirror = [&](Flash *f) { return std::unique_ptr<Mirror>(new RealMirror(m, f)); };
        try { coreEpisode(sub, r.next() % 100000, sub[1] == '1' && sub[2] == '3' ? r.next() % 1000 * 3 + 1 : r.next() % 1000, false); } catch (...) { g_mkMirror = nullptr; throw; }
        g_mkMirror = nullptr;
        cnt("database_workloads");
    } else {
        TRACE("%s interface, pages of %u bytes", KN[k], ps);
        body(m, r, th, ps);
        if (k <= K_MOCK && r.pct(30)) special(m, r, ps);
    }
    m.finish();
    g_nontrivial = true;
    dig(r.next());
    if (ix < 8) g_samples.push_back(fmt("%s interface, %u-byte pages: %llu page contents compared so far, %llu calls failed by the medium", KN[k], ps, (unsigned long long)g_cnt["pages_compared"], (unsigned long long)(g_cnt["failed_writes"] + g_cnt["failed_reads"])));
}
