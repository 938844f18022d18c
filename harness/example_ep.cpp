// C19: the example program shipped with the library, run with the sanitizers watching and its output captured.
#include "common.h"
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int vpExampleMain(void);
static std::string text;
extern "C" void vpExampleText(const char *s) { text += s; }
extern "C" void vpExampleExit(int code) { viol("example-failed", fmt("the example program gave up with exit(%d): ...%s", code, text.substr(text.size() > 200 ? text.size() - 200 : 0).c_str())); }
static size_t lines(const char *start, const char *part) {
    size_t n = 0, p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) e = text.size();
        std::string l = text.substr(p, e - p);
        if (l.compare(0, strlen(start), start) == 0 && l.find(part) != std::string::npos) n++;
        p = e + 1;
    }
    return n;
}
static int rmOne(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
void exampleEpisode(uint64_t ix) {
    const char *w = getenv("VP_WORK");
    std::string dir = std::string(w ? w : "/tmp") + "/exampleXXXXXX";
    if (!mkdtemp(&dir[0])) return;
    char old[4096];
    if (!getcwd(old, sizeof old) || chdir(dir.c_str())) return;
    mkdir("build", 0755);
    mkdir("build/artifacts", 0755);
    static const int fills[4] = {-1, 0x00, 0xff, 0xa5};
    g_mallocFill = fills[ix % 4];
    text.clear();
    int rc = vpExampleMain();
    if (vpLive()) cnt("example_kept_allocations", vpLive());
    vpReset();
    g_mallocFill = -1;
    if (chdir(old)) {}
    nftw(dir.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
    if (rc) viol("example-failed", fmt("the example program returned %d", rc));
    if (lines("Error", "") || lines("ERROR", "")) viol("example-failed", "the example program reported an error: " + text.substr(text.find("rror"), 100));
    size_t in = lines("Inserted", ""), inVar = lines("Inserted", "variable-length"), ret = lines("Returned", ""), it = lines("Iterated", ""), itVar = lines("Iterated", "variable-length");
    TRACE("example: inserted %zu (%zu variable), returned %zu, iterated %zu (%zu variable)", in, inVar, ret, it, itVar);
    if (itVar != inVar || it != in) viol("example-lost", fmt("the example program inserted %zu records (%zu with variable data) but iterated over %zu (%zu)", in, inVar, it, itVar));
    cnt("example_runs");
    cnt("example_lines", lines("", ""));
}
