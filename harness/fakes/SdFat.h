// Host stand-in for the SdFat classes used by lib/SD-Wrapper. It keeps SdFat's documented behaviour: seeking beyond the end
// of a file fails, a write at the end extends the file, copies of a file object are separate positions on one open file,
// data and size reach the medium when a file is flushed or closed, and a full or failing medium makes single calls fail.
#pragma once
#include <fcntl.h>
#include <stdint.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#ifndef O_READ
#define O_READ O_RDONLY
#define O_WRITE O_WRONLY
#endif
typedef int oflag_t;

struct FakeSd {
    struct Node { std::vector<uint8_t> now, durable; };
    std::map<std::string, std::shared_ptr<Node>> files;
    size_t capacity = (size_t)-1;  // bytes in all files together
    // countdowns to a failing call of each kind, -1 for none
    int64_t failRead = -1, failWrite = -1, failSeek = -1, failOpen = -1, failTruncate = -1;
    bool shortWrite = false;
    uint64_t fired = 0, calls = 0;
    int live = 0;  // live file objects
    static bool hit(int64_t &c) { if (c < 0) return false; return c-- == 0; }
    bool fail(int64_t &c) { calls++; if (hit(c)) { fired++; return true; } return false; }
    size_t used() const { size_t n = 0; for (auto &f : files) n += f.second->now.size(); return n; }
    void powerLoss() { for (auto &f : files) f.second->now = f.second->durable; }
};
extern FakeSd *g_sd;

class File32 {
    std::shared_ptr<FakeSd::Node> n;
    size_t pos = 0;
    bool rd = false, wr = false;
public:
    File32() { if (g_sd) g_sd->live++; }
    File32(const File32 &o) : n(o.n), pos(o.pos), rd(o.rd), wr(o.wr) { if (g_sd) g_sd->live++; }
    File32 &operator=(const File32 &) = default;
    ~File32() { if (g_sd) g_sd->live--; }
    void attach(std::shared_ptr<FakeSd::Node> x, bool r, bool w) { n = x; pos = 0; rd = r; wr = w; }
    bool isOpen() const { return (bool)n; }
    operator bool() const { return isOpen(); }
    bool sync() { if (!n) return false; n->durable = n->now; return true; }
    void flush() { sync(); }
    bool close() { bool r = sync(); n.reset(); return r; }
    bool isReadable() const { return n && rd; }
    bool isWritable() const { return n && wr; }
    uint32_t size() const { return n ? n->now.size() : 0; }
    uint32_t fileSize() const { return size(); }
    uint32_t position() const { return pos; }
    uint32_t curPosition() const { return pos; }
    uint32_t available() const { return n && pos < n->now.size() ? n->now.size() - pos : 0; }
    bool seek(uint32_t p) {
        if (!n || g_sd->fail(g_sd->failSeek) || p > n->now.size()) return false;
        pos = p;
        return true;
    }
    bool seekSet(uint32_t p) { return seek(p); }
    bool seekCur(int32_t o) { return seek(pos + o); }
    bool seekEnd(int32_t o = 0) { return seek(size() + o); }
    bool truncate() { return truncate(pos); }
    bool truncate(uint32_t len) {
        if (!n || !wr || g_sd->fail(g_sd->failTruncate) || len > n->now.size()) return false;
        n->now.resize(len);
        if (pos > len) pos = len;
        return sync();
    }
    int read(void *b, size_t c) {
        if (!n || !rd || g_sd->fail(g_sd->failRead)) return -1;
        size_t k = pos < n->now.size() ? n->now.size() - pos : 0;
        if (k > c) k = c;
        if (k) memcpy(b, n->now.data() + pos, k);
        pos += k;
        return (int)k;
    }
    size_t write(const void *b, size_t c) {
        if (!n || !wr) return 0;
        bool f = g_sd->fail(g_sd->failWrite);
        size_t k = c;
        if (f) k = g_sd->shortWrite ? c / 2 : 0;
        if (pos + k > n->now.size() && g_sd->capacity != (size_t)-1) {
            size_t grow = pos + k - n->now.size(), room = g_sd->capacity > g_sd->used() ? g_sd->capacity - g_sd->used() : 0;
            if (grow > room) { g_sd->fired++; k -= grow - room; }
        }
        if (pos + k > n->now.size()) n->now.resize(pos + k);
        if (k) memcpy(n->now.data() + pos, b, k);
        pos += k;
        return k;
    }
};
typedef File32 SdFile32;

class SdFat32 {
public:
    File32 open(const char *p, oflag_t fl = O_RDONLY) {
        File32 f;
        if (g_sd->fail(g_sd->failOpen)) return f;
        auto it = g_sd->files.find(p);
        if (it == g_sd->files.end()) {
            if (!(fl & O_CREAT)) return f;
            it = g_sd->files.emplace(p, std::make_shared<FakeSd::Node>()).first;
        }
        int acc = fl & O_ACCMODE;
        f.attach(it->second, acc != O_WRONLY, acc != O_RDONLY);
        if (fl & O_TRUNC) { it->second->now.clear(); it->second->durable.clear(); }
        if (fl & O_APPEND) f.seek(it->second->now.size());
        return f;
    }
    bool exists(const char *p) { return g_sd->files.count(p) != 0; }
    bool remove(const char *p) { return g_sd->files.erase(p) != 0; }
};
typedef SdFat32 SdFat;
