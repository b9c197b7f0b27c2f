// Stand-ins for the allocator calls of the library (the library objects are rewritten to call these).
// They account for every block, fill fresh memory with varying garbage, and can make one request fail.
#include "engine.h"
#include <cerrno>
#include <mutex>
#include <unordered_map>
#include <pthread.h>

namespace {
struct Blk { size_t n; long ord; };
std::mutex mx;
std::unordered_map<void *, Blk> *live;
long fail_at, failed, seq;
int fill_kind;

bool inject()
{
    // caller holds mx
    seq++;
    if (fail_at > 0 && seq == fail_at) { failed++; return true; }
    if (fail_at < 0 && seq >= -fail_at) { failed++; return true; }
    return false;
}
void *note(void *p, size_t n)
{
    if (!live) live = new std::unordered_map<void *, Blk>();
    if (p) (*live)[p] = {n, seq};
    return p;
}
void garbage(void *p, size_t n)
{
    static const int pat[] = {0xff, 0x7f, 0x00, 0xfe, 0x40};
    if (p) memset(p, pat[(seq + fill_kind) % 5], n);
}
}

namespace pbt {
void vf_case(long at) { std::lock_guard<std::mutex> l(mx); seq = 0; failed = 0; fail_at = at; }
void vf_fillkind(int k) { fill_kind = k; }
void vf_off() { std::lock_guard<std::mutex> l(mx); fail_at = 0; }
long vf_count() { std::lock_guard<std::mutex> l(mx); return seq; }
long vf_failed() { std::lock_guard<std::mutex> l(mx); return failed; }
long vf_live() { std::lock_guard<std::mutex> l(mx); return live ? (long)live->size() : 0; }
std::string vf_list(long since)
{
    std::lock_guard<std::mutex> l(mx);
    std::string r;
    int k = 0;
    if (live) for (auto &b : *live) if (b.second.ord > since && k++ < 6) r += (r.empty() ? "" : ", ") + std::to_string(b.second.n) + " bytes (request " + std::to_string(b.second.ord) + ")";
    return r;
}
}

extern "C" {
void *vf_malloc(size_t n)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n);
    garbage(p, n);
    return note(p, n);
}
void *vf_calloc(size_t a, size_t b)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) { errno = ENOMEM; return nullptr; }
    return note(calloc(a, b), a * b);
}
void *vf_realloc(void *q, size_t n)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) { errno = ENOMEM; return nullptr; }
    size_t old = 0;
    if (q && live) {
        auto i = live->find(q);
        if (i != live->end()) { old = i->second.n; live->erase(i); }
    }
    // always a new block, so that stale pointers into the old one show up
    void *p = malloc(n ? n : 1);
    if (!p) return nullptr;
    garbage(p, n);
    if (q) {
        if (!old) { ::free(p); return note(realloc(q, n), n); }
        memcpy(p, q, old < n ? old : n);
        ::free(q);
    }
    return note(p, n);
}
void vf_free(void *p)
{
    std::lock_guard<std::mutex> l(mx);
    if (p && live) live->erase(p);
    free(p);
}
int vf_posix_memalign(void **r, size_t al, size_t n)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) return ENOMEM;
    int rc = posix_memalign(r, al, n);
    if (rc == 0) { garbage(*r, n); note(*r, n); }
    return rc;
}
void *vf_aligned_alloc(size_t al, size_t n)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) { errno = ENOMEM; return nullptr; }
    void *p = aligned_alloc(al, n);
    garbage(p, n);
    return note(p, n);
}
char *vf_strdup(const char *s)
{
    std::lock_guard<std::mutex> l(mx);
    if (inject()) { errno = ENOMEM; return nullptr; }
    char *p = strdup(s);
    return (char *)note(p, strlen(s) + 1);
}
ssize_t vf_getline(char **b, size_t *n, FILE *f)
{
    // the buffer belongs to the library, reallocation goes through the stand-in
    size_t len = 0;
    for (;;) {
        int ch = fgetc(f);
        if (ch == EOF && len == 0) return -1;
        if (!*b || len + 2 > *n) {
            size_t m = *b ? *n * 2 : 120;
            char *p = (char *)vf_realloc(*b, m);
            if (!p) return -1;
            *b = p;
            *n = m;
        }
        if (ch == EOF) break;
        (*b)[len++] = (char)ch;
        if (ch == '\n') break;
    }
    (*b)[len] = 0;
    return (ssize_t)len;
}
}
