#include "vfs.h"
#include "alloc.h"
#include <errno.h>
Vfs *g_vfs;
void vfs_install(Vfs *v) { g_vfs = v; }

int Vfs::op(const char *kind, const std::string &path, i64 a, i64 b)
{
    if (killed || sim->failed) { errno = EIO; return -1; }
    u64 ns = kind[1] == 'w' ? 20000 + (u64)b * 10 : 5000 + (u64)b;
    if (!sim->ev(kind, a, b, (i64)path.size(), ns)) { errno = EIO; return -1; }
    i64 n = nops++;
    if (kill_at >= 0 && n >= kill_at) {
        killed = true; sim->note("PROCESS KILLED in %s %s", kind, path.c_str());
        if (kind[1] == 'w') CNT(*sim, "fault:kill-in-write"); else CNT(*sim, "fault:kill-at-file-operation");
        oparg = torn;
        return -2;
    }
    if (!sticky.empty() && sticky == path) { errno = EIO; CNT(*sim, "fault:file-operation-again"); return -1; }
    for (auto &f : faults) if (f.op == n) {
        fired++;
        sim->note("%s %s fails (kind %d)", kind, path.c_str(), f.kind);
        switch (kind[1]) {
        case 'o': CNT(*sim, "fault:open"); break;
        case 'r': CNT(*sim, "fault:read"); break;
        case 'w': CNT(*sim, "fault:write"); break;
        case 'k': CNT(*sim, "fault:seek"); break;
        case 'c': CNT(*sim, "fault:close"); break;
        default: CNT(*sim, "fault:other"); break;
        }
        if (f.kind == 1) sticky = path;
        oparg = f.arg;
        static const int errs[] = {EIO, ENOSPC, EINTR, EAGAIN};
        errno = errs[f.arg & 3];
        return f.kind == 2 ? 1 : -1;
    }
    return 0;
}

static ssize_t vf_read(void *c, char *buf, size_t n)
{
    VHandle *h = (VHandle *)c; Vfs &v = *h->fs;
    if (!h->rd) { errno = EBADF; return -1; }
    int r = v.op("Fread", h->path, h->pos, (i64)n);
    if (r < 0) return -1;
    Bytes &d = v.files[h->path].data;
    size_t left = h->pos < (i64)d.size() ? d.size() - (size_t)h->pos : 0;
    size_t k = std::min(n, left);
    if (r == 1) { if (k > 1) k = (size_t)v.oparg % k; else return -1; if (k == 0) return -1; }
    if (v.shortseed && k > 1) {
        u64 x = mix64(v.shortseed + v.nread++);
        if (x & 1) { k = 1 + (size_t)(x >> 8) % k; CNT(*v.sim, "fault:short-read"); }
    }
    if (k) memcpy(buf, d.data() + h->pos, k);
    h->pos += (i64)k;
    return (ssize_t)k;
}
static ssize_t vf_write(void *c, const char *buf, size_t n)
{
    VHandle *h = (VHandle *)c; Vfs &v = *h->fs;
    if (!h->wr) { errno = EBADF; return 0; }
    int r = v.op("Fwrite", h->path, h->pos, (i64)n);
    if (r == -1) return 0;
    size_t k = n;
    if (r == 1 || r == -2) k = n ? (size_t)v.oparg % (n + (r == -2)) : 0;
    VFile &f = v.files[h->path];
    if (h->append) h->pos = (i64)f.data.size();
    size_t end = (size_t)h->pos + k;
    if (v.capacity >= 0 && end > f.data.size()) {
        i64 room = v.capacity - v.used();
        i64 grow = (i64)(end - f.data.size());
        if (grow > room) {
            CNT(*v.sim, "fault:disk-full");
            v.fired++;
            k -= (size_t)std::min<i64>((i64)k, grow - std::max<i64>(0, room));
            end = (size_t)h->pos + k;
            r = 1; errno = ENOSPC;
        }
    }
    if (k) {
        h->undo_pos = (size_t)h->pos; h->undo_size = f.data.size();
        h->undo.assign(f.data.begin() + (long)std::min(h->undo_pos, f.data.size()), f.data.begin() + (long)std::min(end, f.data.size()));
        h->wrote = true;
        if (f.data.size() < end) f.data.resize(end);
        memcpy(f.data.data() + h->pos, buf, k);
        f.written = true;
        h->pos += (i64)k;
        v.sim->mixbytes(buf, k);
    }
    if (r != 0) return 0;
    return (ssize_t)n;
}
static int vf_seek(void *c, off64_t *off, int whence)
{
    VHandle *h = (VHandle *)c; Vfs &v = *h->fs;
    int r = v.op("Fkseek", h->path, *off, whence);
    if (r != 0) return -1;
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (i64)v.files[h->path].data.size();
    if (base + *off < 0) { errno = EINVAL; return -1; }
    h->pos = base + *off;
    *off = h->pos;
    return 0;
}
static int vf_close(void *c)
{
    VHandle *h = (VHandle *)c; Vfs &v = *h->fs;
    h->open = false;
    i64 before = v.fired;
    int r = v.op("Fclose", h->path, 0, 0);
    if (r != 0 && r != -2 && v.fired != before && h->wrote && (v.oparg & 4)) {
        // written back late, and that failed: the last data is lost
        Bytes &d = v.files[h->path].data;
        if (h->undo_pos + h->undo.size() <= d.size()) {
            std::copy(h->undo.begin(), h->undo.end(), d.begin() + (long)h->undo_pos);
            if (h->undo_size < d.size()) d.resize(h->undo_size);
            v.lost = true; CNT(*v.sim, "fault:close-loses-data");
        }
    }
    return r == 0 ? 0 : -1;
}

void Vfs::close_all()
{
    bool k = killed; killed = true;
    for (auto &h : handles) if (h->open) { fclose(h->fp); h->open = false; }
    killed = k;
    handles.clear();
}

extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *path, const char *mode)
{
    if (!g_vfs) return __real_fopen(path, mode);
    Vfs &v = *g_vfs;
    AllocPause pause;
    std::string p(path), m(mode);
    int r = v.op("Fopen", p, (i64)m.size(), m[0]);
    if (r != 0) { if (r == 1 || r == -2) errno = EMFILE; return nullptr; }
    bool plus = m.find('+') != std::string::npos;
    auto it = v.files.find(p);
    if (m[0] == 'r') {
        if (it == v.files.end()) { errno = ENOENT; return nullptr; }
        if (plus && it->second.readonly) { errno = EACCES; return nullptr; }
    } else if (m[0] == 'w') {
        if (it != v.files.end() && it->second.readonly) { errno = EACCES; return nullptr; }
        v.files[p].data.clear(); v.files[p].written = true;
    } else v.files[p].written = true;
    auto h = std::unique_ptr<VHandle>(new VHandle);
    h->fs = &v; h->path = p; h->rd = m[0] == 'r' || plus; h->wr = m[0] != 'r' || plus; h->append = m[0] == 'a';
    cookie_io_functions_t io = {vf_read, vf_write, vf_seek, vf_close};
    h->fp = fopencookie(h.get(), mode, io);
    if (!h->fp) abort();
    i64 bs = v.bufs.empty() ? 4096 : v.bufs[v.handles.size() % v.bufs.size()];
    if (bs <= 0) setvbuf(h->fp, nullptr, _IONBF, 0);
    else { h->buf.resize((size_t)std::min<i64>(bs, 1 << 16)); setvbuf(h->fp, h->buf.data(), _IOFBF, h->buf.size()); }
    FILE *fp = h->fp;
    v.handles.push_back(std::move(h));
    return fp;
}
extern "C" FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
extern "C" int __real_remove(const char *);
extern "C" int __real_rename(const char *, const char *);
extern "C" int __wrap_remove(const char *path)
{
    if (!g_vfs) return __real_remove(path);
    if (g_vfs->op("Fdel", path, 0, 0)) return -1;
    if (!g_vfs->files.erase(path)) { errno = ENOENT; return -1; }
    return 0;
}
extern "C" int __wrap_unlink(const char *path) { return __wrap_remove(path); }
extern "C" int __wrap_rename(const char *a, const char *b)
{
    if (!g_vfs) return __real_rename(a, b);
    if (g_vfs->op("Fren", a, 0, 0)) return -1;
    auto it = g_vfs->files.find(a);
    if (it == g_vfs->files.end()) { errno = ENOENT; return -1; }
    VFile f = it->second; g_vfs->files.erase(it); f.written = true; g_vfs->files[b] = f;
    return 0;
}
static VHandle *of(FILE *f) { if (g_vfs) for (auto &h : g_vfs->handles) if (h->fp == f) return h.get(); return nullptr; }
extern "C" int __real_fileno(FILE *);
extern "C" int __wrap_fileno(FILE *f) { return of(f) ? 1000000 : __real_fileno(f); }
extern "C" int __real_fsync(int);
extern "C" int __wrap_fsync(int fd) { if (fd != 1000000) return __real_fsync(fd); return g_vfs->op("Fysnc", "", 0, 0) ? -1 : 0; }
extern "C" int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
