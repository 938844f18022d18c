#include "flash.h"
thread_local std::function<std::unique_ptr<Mirror>(Flash *)> g_mkMirror;

static int8_t sRead(void *buf, uint32_t page, uint32_t ps, void *file) {
    SimFile *f = (SimFile *)file;
    Flash *fl = f->fl;
    if (fl->faults.readAt >= 0 && fl->faults.on(f->idx)) {
        if (fl->faults.readAt == 0) {
            fl->faults.fired++;
            TRACE("  [fault] read file %d page %u", f->idx, page);
            if (fl->faults.clobber) memset(buf, 0xEE, ps);
            if (--fl->faults.readLen <= 0) fl->faults.readAt = -1;
            return 0;
        }
        fl->faults.readAt--;
    }
    if (ps != fl->pageSize) fl->setErr("io-pagesize", fmt("read with page size %u", ps));
    if (!f->opened) { fl->setErr("io-closed", fmt("read of file %d while not open", f->idx)); return 0; }
    if (page >= f->pages) {
        if (fl->phase != PH_INIT) fl->setErr("read-out-of-range", fmt("read of page %u beyond the %u allotted pages of file %d", page, f->pages, f->idx));
        fl->failedReads++;
        return 0;
    }
    if (page >= f->extent && !fl->raw) {
        if (fl->mirror) fl->mirror->read(f->idx, nullptr, page, ps, 0);
        fl->failedReads++;
        return 0;
    }
    if (fl->phase == PH_READ && fl->strictReads && !f->st[page] && fl->eraseFill >= 0)  // a no-op erase may leave pages which recovery can still use
        fl->setErr("read-blank", fmt("query reads erased or never written page %u of file %d", page, f->idx));
    if (getenv("VP_IO")) TRACE("  [read file %d page %u id %u]", f->idx, page, *(uint32_t*)&f->bytes[(size_t)page * ps]);
    memcpy(buf, &f->bytes[(size_t)page * ps], ps);
    if (fl->mirror && f->st[page]) fl->mirror->read(f->idx, buf, page, ps, 1);
    fl->reads[f->idx]++;
    if (fl->logReads) fl->readLog.push_back({f->idx, page});
    return 1;
}
static int8_t sWrite(void *buf, uint32_t page, uint32_t ps, void *file) {
    SimFile *f = (SimFile *)file;
    Flash *fl = f->fl;
    if (fl->faults.writeAt >= 0 && fl->faults.on(f->idx)) {
        if (fl->faults.writeAt == 0) {
            fl->faults.fired++;
            fl->faults.wfired++;
            if (--fl->faults.writeLen <= 0) fl->faults.writeAt = -1;
            return 0;
        }
        fl->faults.writeAt--;
    }
    if (ps != fl->pageSize) fl->setErr("io-pagesize", fmt("write with page size %u", ps));
    if (!f->opened) { fl->setErr("io-closed", fmt("write of file %d while not open", f->idx)); return 0; }
    if (page >= f->pages) {
        fl->setErr("write-out-of-range", fmt("write of page %u beyond the %u allotted pages of file %d", page, f->pages, f->idx));
        return 0;
    }
    if (f->st[page]) fl->setErr("rewrite-without-erase", fmt("page %u of file %d rewritten without an erase", page, f->idx));
    if (fl->phase == PH_READ && f->idx != F_VAR)
        fl->setErr("query-writes", fmt("a query wrote page %u of file %d", page, f->idx));
    Mut m{(uint8_t)f->idx, M_WRITE, page, page + 1, fl->curOp, std::vector<uint8_t>((uint8_t *)buf, (uint8_t *)buf + ps)};
    fl->apply(m);
    if (fl->mirror) fl->mirror->write(f->idx, buf, page, ps);
    if (getenv("VP_IO")) TRACE("  [write file %d page %u id %u]", f->idx, page, *(uint32_t *)buf);
    fl->writes[f->idx]++;
    f->dirty = true;
    if (fl->logging) fl->log.push_back(std::move(m));
    return 1;
}
static int8_t sErase(uint32_t a, uint32_t b, uint32_t ps, void *file) {
    SimFile *f = (SimFile *)file;
    Flash *fl = f->fl;
    if (fl->faults.eraseAt >= 0 && fl->faults.on(f->idx)) {
        if (fl->faults.eraseAt == 0) {
            fl->faults.fired++;
            fl->faults.wfired++;
            if (--fl->faults.eraseLen <= 0) fl->faults.eraseAt = -1;
            return 0;
        }
        fl->faults.eraseAt--;
    }
    if (ps != fl->pageSize) fl->setErr("io-pagesize", fmt("erase with page size %u", ps));
    if (!f->opened) { fl->setErr("io-closed", fmt("erase of file %d while not open", f->idx)); return 0; }
    if (b <= a || b > f->pages) {
        fl->setErr("erase-out-of-range", fmt("erase of pages [%u,%u) outside the %u allotted pages of file %d", a, b, f->pages, f->idx));
        return 0;
    }
    if (a % fl->eraseSize || b % fl->eraseSize)
        fl->setErr("erase-misaligned", fmt("erase of [%u,%u) is not aligned to erase blocks of %u pages (file %d)", a, b, fl->eraseSize, f->idx));
    Mut m{(uint8_t)f->idx, M_ERASE, a, b, fl->curOp, {}};
    fl->apply(m);
    if (fl->mirror) fl->mirror->erase(f->idx, a, b, ps);
    if (getenv("VP_IO")) TRACE("  [erase file %d %u..%u]", f->idx, a, b);
    fl->erases[f->idx]++;
    if (fl->logging) fl->log.push_back(std::move(m));
    return 1;
}
static int8_t sClose(void *file) {
    SimFile *f = (SimFile *)file;
    if (f->opened != 1) f->fl->setErr("close-unopened", fmt("file %d closed while its open count is %d", f->idx, f->opened));
    f->opened = 0;
    f->fl->durable(f->idx);
    if (f->fl->mirror) f->fl->mirror->close(f->idx);
    return 1;
}
static int8_t sOpen(void *file, uint8_t mode) {
    SimFile *f = (SimFile *)file;
    Flash *fl = f->fl;
    if (fl->faults.openAt >= 0) {
        if (fl->faults.openAt == 0) {
            fl->faults.fired++;
            if (--fl->faults.openLen <= 0) fl->faults.openAt = -1;
            return 0;
        }
        fl->faults.openAt--;
    }
    if (mode == EMBEDDB_FILE_MODE_R_PLUS_B) {
        if (!f->exists && !fl->raw) {
            if (fl->mirror) fl->mirror->open(f->idx, mode, 0);
            return 0;
        }
        f->exists = true;
    } else if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
        Mut m{(uint8_t)f->idx, M_TRUNC, 0, 0, fl->curOp, {}};
        fl->apply(m);
        if (fl->logging) fl->log.push_back(std::move(m));
        fl->durable(f->idx);
    } else {
        fl->setErr("open-mode", fmt("open with unknown mode %d", mode));
        return 0;
    }
    if (f->opened) fl->setErr("double-open", fmt("file %d opened twice", f->idx));
    f->opened = 1;
    if (fl->mirror) fl->mirror->open(f->idx, mode, 1);
    return 1;
}
static int8_t sFlush(void *file) {
    SimFile *f = (SimFile *)file;
    if (f->fl->faults.flushAt >= 0 && f->fl->faults.on(f->idx)) {
        if (f->fl->faults.flushAt == 0) {
            f->fl->faults.fired++;
            f->fl->faults.wfired++;
            f->fl->faults.flushFired++;
            if (--f->fl->faults.flushLen <= 0) f->fl->faults.flushAt = -1;
            return 0;
        }
        f->fl->faults.flushAt--;
    }
    if (!f->opened) f->fl->setErr("io-closed", fmt("flush of file %d while not open", f->idx));
    if (f->fl->mirror) f->fl->mirror->flush(f->idx);
    f->fl->flushes[f->idx]++;
    f->fl->durable(f->idx);
    return 1;
}

Flash::Flash() {
    iface.read = sRead;
    iface.write = sWrite;
    iface.erase = sErase;
    iface.close = sClose;
    iface.open = sOpen;
    iface.flush = sFlush;
}
void Flash::setup(uint32_t ps, uint32_t es, uint32_t nd, uint32_t ni, uint32_t nv) {
    pageSize = ps;
    eraseSize = es;
    uint32_t n[3] = {nd, ni, nv};
    for (int i = 0; i < 3; i++) {
        f[i].fl = this;
        f[i].idx = i;
        f[i].pages = n[i];
        f[i].exists = false;
        f[i].opened = 0;
        f[i].extent = raw ? n[i] : 0;
        f[i].bytes.assign((size_t)n[i] * ps, raw ? rawFill : 0);
        f[i].st.assign(n[i], 0);
    }
    if (g_mkMirror) mirror = g_mkMirror(this);
}
void Flash::apply(const Mut &m) {
    SimFile &x = f[m.file];
    if (m.kind == M_TRUNC) {
        x.exists = true;
        x.extent = raw ? x.pages : 0;
        std::fill(x.bytes.begin(), x.bytes.end(), raw ? rawFill : 0);
        std::fill(x.st.begin(), x.st.end(), 0);
    } else if (m.kind == M_WRITE) {
        memcpy(&x.bytes[(size_t)m.a * pageSize], m.content.data(), pageSize);
        x.st[m.a] = 1;
        if (m.a + 1 > x.extent) x.extent = m.a + 1;
    } else {
        for (uint32_t p = m.a; p < m.b && p < x.pages; p++) {
            x.st[p] = 0;
            if (eraseFill >= 0) {
                memset(&x.bytes[(size_t)p * pageSize], eraseFill, pageSize);
                if (p + 1 > x.extent) x.extent = p + 1;
            }
        }
    }
}
void Flash::save(Image &im) const {
    for (int i = 0; i < 3; i++) {
        im.exists[i] = f[i].exists;
        im.extent[i] = f[i].extent;
        im.bytes[i] = f[i].bytes;
        im.st[i] = f[i].st;
    }
}
void Flash::load(const Image &im) {
    for (int i = 0; i < 3; i++) {
        f[i].exists = im.exists[i];
        f[i].extent = im.extent[i];
        f[i].bytes = im.bytes[i];
        f[i].st = im.st[i];
        f[i].opened = 0;
        f[i].dirty = false;
    }
}
uint64_t Flash::hash() const {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < 3; i++) {
        for (uint8_t b : f[i].bytes) h = (h ^ b) * 1099511628211ull;
        h = (h ^ f[i].extent) * 1099511628211ull;
    }
    return h;
}
