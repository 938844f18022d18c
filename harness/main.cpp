// Shard driver. Runs a range of episodes of one profile and reports what the monitors observed.
//   drv --profile P --seed S --from A --to B [--thorough] [--trace] [--out FILE] [--progress FILE]
// Exit: 0 all episodes held, 3 violation (last line "VIOL <episode> <code> <message>"), other: crash of the code under test.
#include "common.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <mutex>
#include <unordered_map>

thread_local std::map<std::string, uint64_t> g_cnt;
thread_local std::set<uint64_t> g_states;
thread_local std::vector<std::string> g_samples;
thread_local uint64_t g_digest;
thread_local bool g_sharedStdout;
bool g_trace;
thread_local bool g_nontrivial;
thread_local int g_mallocFill = -1;

// ---- allocation tracker
static std::unordered_map<void *, size_t> *live;
static std::mutex liveMx;
static size_t allocs;
extern "C" void *vp_malloc(size_t n) {
    void *p = malloc(n);
    if (!p) return p;
    if (g_mallocFill >= 0) memset(p, g_mallocFill, n);
#ifndef VP_NOTRACK
    std::lock_guard<std::mutex> l(liveMx);
    if (!live) live = new std::unordered_map<void *, size_t>;
    (*live)[p] = n;
    allocs++;
#endif
    return p;
}
extern "C" void *vp_calloc(size_t a, size_t b) {
    int f = g_mallocFill;
    g_mallocFill = -1;
    void *p = vp_malloc(a * b);
    g_mallocFill = f;
    if (p) memset(p, 0, a * b);
    return p;
}
extern "C" void vp_free(void *p) {
#ifndef VP_NOTRACK
    if (p) {
        std::lock_guard<std::mutex> l(liveMx);
        if (live) live->erase(p);
    }
#endif
    free(p);  // a double or wild free is reported by AddressSanitizer here
}
extern "C" void *vp_realloc(void *p, size_t n) {
#ifndef VP_NOTRACK
    std::lock_guard<std::mutex> l(liveMx);
    if (p && live) live->erase(p);
    void *q = realloc(p, n);
    if (!live) live = new std::unordered_map<void *, size_t>;
    if (q) (*live)[q] = n;
    return q;
#else
    return realloc(p, n);
#endif
}
size_t vpLive() { return live ? live->size() : 0; }
size_t vpAllocs() { return allocs; }
void vpReset() {
    if (!live) return;
    for (auto &x : *live) free(x.first);
    live->clear();
    g_mallocFill = -1;
}

void dispatch(const std::string &p, uint64_t seed, uint64_t ix, bool th) {
    if (p == "C14") splineEpisode(p, seed, ix, th);
    else if (p == "C15" || p == "C16" || p == "C17") queryEpisode(p, seed, ix, th);
    else if (p == "C18") { if (ix % 2) queryEpisode(p, seed, ix, th); else coreEpisode(p, seed, ix, th); }
    else if (p == "C19") {
        if (ix % 200 < 2) exampleEpisode(ix);
        switch (ix % 8) {
            case 5: queryEpisode(p, seed, ix, th); break;
            case 6: splineEpisode(p, seed, ix, th); break;
            case 7: helperEpisode(p, seed, ix, th); break;
            default: coreEpisode(p, seed, ix, th);
        }
    }
    else if (p == "C21") configEpisode(p, seed, ix, th);
    else if (p == "C25") equivEpisode(p, seed, ix, th);
    else if (p == "C26") helperEpisode(p, seed, ix, th);
    else if (p == "C27") fileEpisode(p, seed, ix, th);
    else if (p == "C22T") threadEpisode(p, seed, ix, th);
    else coreEpisode(p, seed, ix, th);
}

static volatile uint64_t *progress;
static uint64_t dummy[2];
static void onHang(int) {
    static const char m[] = "HANG\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(4);
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char **argv) {
    std::string profile, out, prog;
    uint64_t seed = 1, from = 0, to = 1;
    bool thorough = false;
    unsigned hangSec = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--profile") profile = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") out = val();
        else if (a == "--progress") prog = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--trace") g_trace = true;
        else if (a == "--hang") hangSec = atoi(val().c_str());
    }
    progress = dummy;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 16) == 0) {
            void *p = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) progress = (volatile uint64_t *)p;
        }
    }
    signal(SIGVTALRM, onHang);
    std::vector<uint64_t> digs;
    std::vector<char> nontriv;
    int rc = 0;
    std::string vmsg, vcode;
    uint64_t vep = 0;
    for (uint64_t ix = from; ix < to; ix++) {
        progress[0] = ix + 1;
        struct itimerval tv = {{0, 0}, {(long)hangSec, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        g_digest = 0x1234567;
        g_nontrivial = false;
        vpReset();
        try {
            dispatch(profile, seed, ix, thorough);
        } catch (Violation &v) {
            rc = 3;
            vcode = v.code;
            vmsg = v.msg;
            vep = ix;
        }
        digs.push_back(g_digest);
        nontriv.push_back(g_nontrivial);
        if (rc) break;
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    vpReset();
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) return 9;
        fprintf(f, "{\"cnt\":{");
        bool first = true;
        for (auto &x : g_cnt) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; }
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < g_samples.size() && i < 6; i++) fprintf(f, "%s%s", i ? "," : "", jstr(g_samples[i]).c_str());
        fprintf(f, "],\"states\":[");
        first = true;
        for (auto x : g_states) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)x); first = false; }
        fprintf(f, "],\"dig\":[");
        for (size_t i = 0; i < digs.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)digs[i]);
        fprintf(f, "],\"nontrivial\":[");
        for (size_t i = 0; i < nontriv.size(); i++) fprintf(f, "%s%d", i ? "," : "", nontriv[i]);
        fprintf(f, "],\"allocs\":%zu", allocs);
        if (rc) fprintf(f, ",\"viol\":{\"ep\":%llu,\"code\":%s,\"msg\":%s}", (unsigned long long)vep, jstr(vcode).c_str(), jstr(vmsg).c_str());
        fprintf(f, "}\n");
        fclose(f);
    }
    if (rc) fprintf(stderr, "VIOL %llu %s %s\n", (unsigned long long)vep, vcode.c_str(), vmsg.c_str());
    progress[0] = 0;
    return rc;
}
