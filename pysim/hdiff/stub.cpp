/* The stand-in: makes patches of its own simple format (and sequential ones),
 * fails the way the library does (exceptions and FALSE) when told to. */
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "HDiffPatch/stub.h"

extern "C" {
long long stub_calls;      /* library steps since the last reset */
long long stub_fail_at;    /* the n-th of them fails (0: none) */
long long stub_fail_for;
long long stub_failed;
long long stub_files;      /* open temporary files */
}

static bool fails(void)
{
    stub_calls++;

    if (stub_fail_at && stub_calls >= stub_fail_at && stub_calls < stub_fail_at + stub_fail_for) {
        stub_failed++;

        return true;
    }

    return false;
}

extern "C" int __real_fseek(FILE *f, long off, int whence);
extern "C" size_t __real_fread(void *p, size_t size, size_t n, FILE *f);

extern "C" int __wrap_fseek(FILE *f, long off, int whence)
{
    return fails() ? -1 : __real_fseek(f, off, whence);
}

extern "C" size_t __wrap_fread(void *p, size_t size, size_t n, FILE *f)
{
    return fails() ? __real_fread(p, size, n / 2, f) : __real_fread(p, size, n, f);
}

static void want(bool ok, const char *what)
{
    if (!ok) {
        throw std::runtime_error(what);
    }
}

static hpatch_BOOL mem_read(const hpatch_TStreamInput *s, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *end)
{
    if (fails() || pos > s->streamSize || (hpatch_StreamPos_t)(end - out) > s->streamSize - pos) {
        return hpatch_FALSE;
    }

    if (end > out) {
        memcpy(out, (const unsigned char *)s->streamImport + pos, end - out);
    }

    return hpatch_TRUE;
}

void mem_as_hStreamInput(hpatch_TStreamInput *out, const unsigned char *mem, const unsigned char *mem_end)
{
    out->streamImport = (void *)mem;
    out->streamSize = mem_end - mem;
    out->read = mem_read;
}

static hpatch_BOOL mem_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, const unsigned char *data, const unsigned char *end)
{
    if (fails() || pos > s->streamSize || (hpatch_StreamPos_t)(end - data) > s->streamSize - pos) {
        return hpatch_FALSE;
    }

    if (end > data) {
        memcpy((unsigned char *)s->streamImport + pos, data, end - data);
    }

    return hpatch_TRUE;
}

void mem_as_hStreamOutput(hpatch_TStreamOutput *out, unsigned char *mem, unsigned char *mem_end)
{
    memset(out, 0, sizeof(*out));
    out->streamImport = mem;
    out->streamSize = mem_end - mem;
    out->write = mem_write;
}

static hpatch_BOOL file_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, const unsigned char *data, const unsigned char *end)
{
    hpatch_TFileStreamOutput *self = (hpatch_TFileStreamOutput *)s->streamImport;

    if (fails() || self->m_file == NULL || pos != self->out_pos
        || fwrite(data, 1, end - data, self->m_file) != (size_t)(end - data)) {
        self->fileError = hpatch_TRUE;

        return hpatch_FALSE;
    }

    self->out_pos += end - data;
    self->out_length = self->out_pos;

    return hpatch_TRUE;
}

void hpatch_TFileStreamOutput_init(hpatch_TFileStreamOutput *self)
{
    memset(self, 0, sizeof(*self));
}

hpatch_BOOL hpatch_TFileStreamOutput_tmpfile(hpatch_TFileStreamOutput *self, hpatch_StreamPos_t max_size)
{
    int fd;

    if (fails()) {
        return hpatch_FALSE;
    }

    fd = memfd_create("hdiff", 0);
    self->m_file = fdopen(fd, "w+b");
    stub_files++;
    self->base.streamImport = self;
    self->base.streamSize = max_size;
    self->base.write = file_write;

    return hpatch_TRUE;
}

hpatch_BOOL hpatch_TFileStreamOutput_close(hpatch_TFileStreamOutput *self)
{
    if (self->m_file != NULL) {
        fclose(self->m_file);
        self->m_file = NULL;
        stub_files--;
    }

    return fails() ? hpatch_FALSE : hpatch_TRUE;
}

static void put(std::vector<unsigned char> &d, uint64_t v, int n)
{
    while (n--) {
        d.push_back((unsigned char)v);
        v >>= 8;
    }
}

static uint64_t num(const unsigned char *p, int n)
{
    uint64_t v = 0;

    while (n--) {
        v = v << 8 | p[n];
    }

    return v;
}

static uint32_t sum(const unsigned char *p, size_t n)
{
    uint32_t h = 2166136261u;

    for (size_t i = 0; i < n; i++) {
        h = (h ^ p[i]) * 16777619u;
    }

    return h;
}

static void size(std::vector<unsigned char> &d, uint64_t v)
{
    unsigned char b = v & 0x3f;

    v >>= 6;

    while (v) {
        d.push_back(b | 0x80);
        b = v & 0x7f;
        v >>= 7;
    }

    d.push_back(b);
}

#define HEAD 34

static void make(const std::vector<unsigned char> &n, const std::vector<unsigned char> &o, std::vector<unsigned char> &d,
                 int how, uint64_t arg, int type)
{
    want(!fails(), "simulated: library failed");

    if (type == 0) {
        size_t same = n.size() < o.size() ? n.size() : o.size();

        if (n.empty()) {
            return;
        }

        size(d, same);

        for (size_t i = 0; i < same; i++) {
            d.push_back(n[i] - o[i]);
        }

        size(d, n.size() - same);
        d.insert(d.end(), n.begin() + same, n.end());

        size(d, 0);

        return;
    }

    put(d, 0x46464944, 4);
    put(d, how, 1);
    put(d, arg, 4);
    put(d, type, 1);
    put(d, n.size(), 8);
    put(d, o.size(), 8);
    put(d, sum(o.data(), o.size()), 4);
    put(d, sum(n.data(), n.size()), 4);

    for (size_t i = 0; i < n.size(); i++) {
        d.push_back(n[i] ^ (o.empty() ? 0 : o[i % o.size()]));
    }
}

void create_compressed_diff(const unsigned char *new_p, const unsigned char *new_end, const unsigned char *old_p,
                            const unsigned char *old_end, std::vector<unsigned char> &diff,
                            const hdiff_TCompress *plugin, int match_score, int patch_type)
{
    want(plugin == NULL, "no plugins here");
    make(std::vector<unsigned char>(new_p, new_end), std::vector<unsigned char>(old_p, old_end), diff, 0, match_score, patch_type);
}

static std::vector<unsigned char> all(const hpatch_TStreamInput *s)
{
    std::vector<unsigned char> v(s->streamSize);
    size_t pos = 0;

    while (pos < v.size()) {
        size_t n = v.size() - pos < 700 ? v.size() - pos : 700;

        want(s->read(s, pos, &v[pos], &v[pos] + n), "read of stream failed");
        pos += n;
    }

    return v;
}

void create_compressed_diff_stream(const hpatch_TStreamInput *new_data, const hpatch_TStreamInput *old_data,
                                   const hpatch_TStreamOutput *diff, const hdiff_TCompress *plugin,
                                   size_t match_block_size, int patch_type)
{
    std::vector<unsigned char> d;
    size_t pos = 0;

    want(plugin == NULL, "no plugins here");
    make(all(new_data), all(old_data), d, 1, match_block_size, patch_type);
    want(diff->write != NULL, "no output");

    while (pos < d.size()) {
        size_t n = d.size() - pos < 900 ? d.size() - pos : 900;

        want(diff->write(diff, pos, &d[pos], &d[pos] + n), "write of stream failed");
        pos += n;
    }
}

hpatch_BOOL getCompressedDiffInfo(hpatch_compressedDiffInfo *out, const hpatch_TStreamInput *diff)
{
    unsigned char h[HEAD];

    memset(out, 0, sizeof(*out));

    if (!diff->read(diff, 0, h, h + HEAD) || num(h, 4) != 0x46464944) {
        return hpatch_FALSE;
    }

    out->newDataSize = num(h + 10, 8);
    out->oldDataSize = num(h + 18, 8);

    return hpatch_TRUE;
}

hpatch_BOOL patch_decompress_with_cache(const hpatch_TStreamOutput *out_new, const hpatch_TStreamInput *old, const hpatch_TStreamInput *diff,
                                        hpatch_TDecompress *plugin, unsigned char *cache, unsigned char *cache_end)
{
    hpatch_compressedDiffInfo info;
    unsigned char b[500];
    unsigned char h[HEAD];

    if (plugin != NULL || cache_end - cache < 1024 || fails()) {
        return hpatch_FALSE;
    }

    memset(cache, 0xa5, cache_end - cache < 65536 ? cache_end - cache : 65536);

    if (!getCompressedDiffInfo(&info, diff) || !diff->read(diff, 0, h, h + HEAD)
        || out_new->streamSize != info.newDataSize || old->streamSize != info.oldDataSize) {
        return hpatch_FALSE;
    }

    try {
        std::vector<unsigned char> o = all(old);

        if (sum(o.data(), o.size()) != num(h + 26, 4)) {
            return hpatch_FALSE;
        }

        for (hpatch_StreamPos_t pos = 0; pos < info.newDataSize;) {
            size_t n = info.newDataSize - pos < sizeof(b) ? (size_t)(info.newDataSize - pos) : sizeof(b);

            if (!diff->read(diff, HEAD + pos, b, b + n)) {
                return hpatch_FALSE;
            }

            for (size_t i = 0; i < n; i++) {
                b[i] ^= o.empty() ? 0 : o[(pos + i) % o.size()];
            }

            if (!out_new->write(out_new, pos, b, b + n)) {
                return hpatch_FALSE;
            }

            pos += n;
        }
    } catch (const std::exception &) {
        return hpatch_FALSE;
    }

    return hpatch_TRUE;
}
