// Allocation and release of every kind of object of the library in one history: contents of the objects are followed by
// a model, a failing request for memory leaves every other object alone
#include "la.h"
#include <memory>
#ifdef VF_ALLOC
namespace pbt { long vf_failed(); }
#endif
extern "C" {
armas_cbuf_t *armas_cbuf_new(size_t cmem, size_t l1mem);
void armas_cbuf_free(armas_cbuf_t *cbuf);
}
using namespace pbt;

namespace {
enum Kind { K_DENSE, K_PIVOT, K_WBUF, K_CBUF, K_SPARSE, K_ACCUM, K_NKIND };
struct Obj {
    Kind k = K_DENSE;
    bool heap = false;      // object itself was allocated by the library
    void *p = nullptr;      // the object
    armas_dense_t m;
    armas_pivot_t piv;
    armas_wbuf_t w;
    armas_cbuf_t cb;
    armas_accum_t acc;
    std::vector<double> v;              // model: elements
    std::vector<int> iv;
    size_t bytes = 0;
    uint64_t pat = 0;
    int r = 0, cc = 0;
    armassp_type_enum sk = ARMASSP_COO;
    struct E { int i, j; double v; };
    std::vector<E> e;
};
long nfailed()
{
#ifdef VF_ALLOC
    return mode.inject ? pbt::vf_failed() : 0;
#else
    return 0;
#endif
}
uint8_t patb(uint64_t s, size_t i) { return (uint8_t)(mix64(s + i / 8) >> (8 * (i % 8))); }

struct World {
    Src &s;
    Case &c;
    std::vector<std::unique_ptr<Obj>> o;
    World(Src &s_, Case &c_) : s(s_), c(c_) {}
    ~World() { for (auto &x : o) drop(*x); }

    void drop(Obj &x)
    {
        if (!x.p) return;
        switch (x.k) {
        case K_DENSE: if (x.heap) armas_free((armas_dense_t *)x.p); else armas_release((armas_dense_t *)x.p); break;
        case K_PIVOT: if (x.heap) armas_pivot_free((armas_pivot_t *)x.p); else armas_pivot_release((armas_pivot_t *)x.p); break;
        case K_WBUF: if (x.heap) armas_wfree((armas_wbuf_t *)x.p); else armas_wrelease((armas_wbuf_t *)x.p); break;
        case K_CBUF: if (x.heap) armas_cbuf_free((armas_cbuf_t *)x.p); else armas_cbuf_release((armas_cbuf_t *)x.p); break;
        case K_SPARSE: armassp_free((armas_sparse_t *)x.p); break;
        case K_ACCUM: armas_accum_release((armas_accum_t *)x.p); break;
        default: break;
        }
        x.p = nullptr;
    }
    // elements of an object as the model has them
    void verify(Obj &x, const char *when)
    {
        if (!x.p) return;
        switch (x.k) {
        case K_DENSE: {
            auto *A = (armas_dense_t *)x.p;
            if (A->rows != x.r || A->cols != x.cc || (x.r && x.cc && A->step < x.r)) c.fail("%s: matrix of %dx%d is %dx%d with stride %d", when, x.r, x.cc, A->rows, A->cols, A->step);
            for (int j = 0; j < x.cc; j++) for (int i = 0; i < x.r; i++)
                if (!(armas_get(A, i, j) == x.v[(size_t)j * x.r + i])) c.fail("%s: element (%d,%d) of %dx%d matrix is %g, stored value is %g", when, i, j, x.r, x.cc, armas_get(A, i, j), x.v[(size_t)j * x.r + i]);
            break;
        }
        case K_PIVOT: {
            auto *P = (armas_pivot_t *)x.p;
            if (armas_pivot_size(P) != (int)x.iv.size()) c.fail("%s: pivot vector of %zu has size %d", when, x.iv.size(), armas_pivot_size(P));
            for (size_t i = 0; i < x.iv.size(); i++) if (armas_pivot_get(P, (int)i) != x.iv[i]) c.fail("%s: pivot %zu is %d, stored value is %d", when, i, armas_pivot_get(P, (int)i), x.iv[i]);
            break;
        }
        case K_WBUF: {
            auto *W = (armas_wbuf_t *)x.p;
            if (W->bytes != x.bytes) c.fail("%s: workspace of %zu bytes has %zu", when, x.bytes, W->bytes);
            for (size_t i = 0; i < x.bytes; i++) if ((uint8_t)W->buf[i] != (x.pat ? patb(x.pat, i) : 0)) c.fail("%s: byte %zu of workspace was modified", when, i);
            break;
        }
        case K_CBUF: {
            auto *B = (armas_cbuf_t *)x.p;
            if (B->len < x.bytes) c.fail("%s: cache buffer of %zu bytes has %zu", when, x.bytes, B->len);
            if ((uintptr_t)B->data % 64) c.fail("%s: cache buffer is not aligned to cache line", when);
            if (x.pat) for (size_t i = 0; i < B->len; i++) if (((uint8_t *)B->data)[i] != patb(x.pat, i)) c.fail("%s: byte %zu of cache buffer was modified", when, i);
            break;
        }
        case K_SPARSE: {
            auto *S = (armas_sparse_t *)x.p;
            if (S->rows != x.r || S->cols != x.cc || S->kind != x.sk) c.fail("%s: sparse matrix %dx%d of kind %d is %dx%d of kind %d", when, x.r, x.cc, x.sk, S->rows, S->cols, S->kind);
            if (S->nnz != (int)x.e.size()) c.fail("%s: sparse matrix with %zu elements has %d", when, x.e.size(), S->nnz);
            std::vector<Obj::E> got;
            if (x.sk == ARMASSP_COO) for (int k = 0; k < S->nnz; k++) got.push_back({S->elems.ep[k].i, S->elems.ep[k].j, S->elems.ep[k].val});
            else for (int k = 0; k < armassp_nvertex(S); k++) for (int p = armassp_index(S, k); p < armassp_index(S, k + 1); p++) {
                int t = armassp_at(S, p);
                double v = S->elems.v[p];
                if (x.sk == ARMASSP_CSR) got.push_back({k, t, v}); else got.push_back({t, k, v});
            }
            auto lt = [](const Obj::E &a, const Obj::E &b) { return std::make_pair(a.i, a.j) < std::make_pair(b.i, b.j); };
            auto want = x.e;
            std::sort(got.begin(), got.end(), lt);
            std::sort(want.begin(), want.end(), lt);
            if (got.size() != want.size()) c.fail("%s: sparse matrix holds %zu elements, %zu were stored", when, got.size(), want.size());
            for (size_t k = 0; k < want.size(); k++) if (got[k].i != want[k].i || got[k].j != want[k].j || got[k].v != want[k].v) c.fail("%s: element (%d,%d) = %g of sparse matrix is (%d,%d) = %g", when, want[k].i, want[k].j, want[k].v, got[k].i, got[k].j, got[k].v);
            break;
        }
        case K_ACCUM: {
            auto *a = (armas_accum_t *)x.p;
            for (size_t i = 0; i < x.v.size(); i++) if (a->elems[i] != x.v[i] || a->mark[i] != x.iv[i]) c.fail("%s: accumulator element %zu is %g mark %d, stored %g mark %d", when, i, a->elems[i], a->mark[i], x.v[i], x.iv[i]);
            break;
        }
        default: break;
        }
    }
    void write(Obj &x)
    {
        Rng g(s.seed());
        switch (x.k) {
        case K_DENSE:
            for (int j = 0; j < x.cc; j++) for (int i = 0; i < x.r; i++) { double v = g.below(1000); armas_set((armas_dense_t *)x.p, i, j, v); x.v[(size_t)j * x.r + i] = v; }
            break;
        case K_PIVOT: for (size_t i = 0; i < x.iv.size(); i++) { x.iv[i] = g.below(100); armas_pivot_set((armas_pivot_t *)x.p, (int)i, x.iv[i]); } break;
        case K_WBUF:
            x.pat = g.next() | 1;
            for (size_t i = 0; i < x.bytes; i++) ((armas_wbuf_t *)x.p)->buf[i] = (char)patb(x.pat, i);
            break;
        case K_CBUF:
            x.pat = g.next() | 1;
            for (size_t i = 0; i < ((armas_cbuf_t *)x.p)->len; i++) ((uint8_t *)((armas_cbuf_t *)x.p)->data)[i] = patb(x.pat, i);
            break;
        case K_SPARSE: {
            auto *S = (armas_sparse_t *)x.p;
            if (x.sk == ARMASSP_COO) for (int k = 0; k < S->nnz; k++) x.e[k].v = S->elems.ep[k].val = g.below(1000);
            break;
        }
        case K_ACCUM: {
            auto *a = (armas_accum_t *)x.p;
            for (size_t i = 0; i < x.v.size(); i++) { x.v[i] = a->elems[i] = g.below(1000); x.iv[i] = a->mark[i] = g.below(9); a->queue[i] = g.below(9); }
            break;
        }
        default: break;
        }
    }
    // an operation did not succeed although nothing failed
    void mustfail(const char *what, long before)
    {
        if (nfailed() == before) c.fail("%s failed", what);
    }
};
}

TARGET(mem, storage, 10)
{
    World w(s, c);
    int steps = s.range(2, mode.thorough ? 30 : 12), made = 0;
    auto pick = [&](int kind) -> Obj * {
        std::vector<Obj *> l;
        for (auto &x : w.o) if (x->p && (kind < 0 || x->k == kind)) l.push_back(x.get());
        return l.empty() ? nullptr : l[s.below((int)l.size())];
    };
    auto dim = [&] { return s.chance(1, 12) ? 0 : s.chance(1, 6) ? s.range(10, 40) : s.range(1, 9); };
    auto fresh = [&](Kind k) -> Obj & { w.o.emplace_back(new Obj()); w.o.back()->k = k; made++; return *w.o.back(); };
    for (int st = 0; st < steps; st++) {
        long f0 = nfailed();
        switch (s.weighted({5, 3, 3, 3, 4, 2, 6, 6, 3, 4, 3, 4, 3, 2, 2})) {
        case 0: {   // dense
            Obj &x = fresh(K_DENSE);
            int r = dim(), cc = dim();
            x.heap = s.chance(1, 2);
            c.d(" dense(%d,%d)%s", r, cc, x.heap ? "*" : "");
            if (x.heap) {
                x.p = armas_alloc(r, cc);
                if (r == 0 || cc == 0) { if (x.p) c.fail("armas_alloc(%d,%d) gave a matrix", r, cc); break; }
            } else {
                memset(&x.m, 0x5a, sizeof x.m);
                x.p = armas_init(&x.m, r, cc);
                if (x.p && x.p != &x.m) c.fail("armas_init returned another matrix");
                if (!x.p) {
                    if (armas_size(&x.m) != 0) c.fail("matrix is %dx%d after failed initialization", x.m.rows, x.m.cols);
                    armas_release(&x.m);
                }
            }
            if (!x.p) { w.mustfail("allocation of matrix", f0); break; }
            x.r = r; x.cc = cc;
            x.v.assign((size_t)r * cc, 0.0);
            w.verify(x, "new");
            break;
        }
        case 1: {   // copy
            Obj *a = pick(K_DENSE);
            if (!a) break;
            Obj &x = fresh(K_DENSE);
            x.heap = true;
            c.d(" newcopy");
            x.p = armas_newcopy((armas_dense_t *)a->p);
            if (!x.p) { if (a->r && a->cc) w.mustfail("armas_newcopy", f0); break; }
            x.r = a->r; x.cc = a->cc; x.v = a->v;
            w.verify(x, "copy");
            break;
        }
        case 2: {
            Obj &x = fresh(K_PIVOT);
            int n = dim();
            x.heap = s.chance(1, 2);
            c.d(" pivot(%d)%s", n, x.heap ? "*" : "");
            x.p = x.heap ? armas_pivot_new(n) : armas_pivot_init(&x.piv, n);
            if (!x.p) { w.mustfail("allocation of pivot vector", f0); break; }
            x.iv.assign(n, 0);
            w.verify(x, "new");
            break;
        }
        case 3: {
            Obj &x = fresh(K_WBUF);
            x.bytes = s.range(1, 400);
            x.heap = s.chance(1, 2);
            c.d(" work(%zu)%s", x.bytes, x.heap ? "*" : "");
            x.p = x.heap ? armas_wnew(x.bytes) : armas_walloc(&x.w, x.bytes);
            if (!x.p) { if (!x.heap) armas_wrelease(&x.w); w.mustfail("allocation of workspace", f0); break; }
            w.verify(x, "new");
            break;
        }
        case 4: {
            Obj &x = fresh(K_CBUF);
            x.bytes = s.chance(1, 4) ? s.range(0, 64) : s.range(64, 6000);
            x.heap = s.chance(1, 2);
            c.d(" cbuf(%zu)%s", x.bytes, x.heap ? "*" : "");
            memset(&x.cb, 0, sizeof x.cb);
            x.p = x.heap ? armas_cbuf_new(x.bytes, 1024) : armas_cbuf_init(&x.cb, x.bytes, 1024);
            if (!x.p) { if (!x.heap) armas_cbuf_release(&x.cb); w.mustfail("allocation of cache buffer", f0); break; }
            w.verify(x, "new");
            break;
        }
        case 5: {
            Obj &x = fresh(K_ACCUM);
            int n = s.range(1, 30);
            c.d(" accum(%d)", n);
            if (armas_accum_allocate(&x.acc, n) != 0) { w.mustfail("armas_accum_allocate", f0); break; }
            x.p = &x.acc;
            x.v.assign(n, 0.0); x.iv.assign(n, 0);
            w.verify(x, "new");
            break;
        }
        case 6: {   // sparse
            Obj &x = fresh(K_SPARSE);
            int r = s.range(1, 9), cc = s.range(1, 9), n = s.range(0, 12);
            c.d(" coo(%d,%d,%d)", r, cc, n);
            x.p = armassp_new(r, cc, n, ARMASSP_COO);
            if (!x.p) { w.mustfail("armassp_new", f0); break; }
            x.r = r; x.cc = cc; x.sk = ARMASSP_COO;
            w.verify(x, "new");
            break;
        }
        case 7: {   // append until past the room, distinct places
            Obj *a = pick(K_SPARSE);
            if (!a || a->sk != ARMASSP_COO) break;
            Rng g(s.seed());
            int n = s.chance(1, 4) ? 81 : s.range(1, 9);
            for (int k = 0; k < n; k++) {
                int i = g.below(a->r), j = g.below(a->cc);
                bool used = false;
                for (auto &e : a->e) used |= e.i == i && e.j == j;
                if (used) continue;
                double v = g.below(1000);
                long f = nfailed();
                int rc = armassp_append((armas_sparse_t *)a->p, i, j, v);
                if (rc == 0) a->e.push_back({i, j, v});
                else w.mustfail("armassp_append", f);
            }
            c.d(" append(%zu)", a->e.size());
            w.verify(*a, "after append");
            break;
        }
        case 8: {
            Obj *a = pick(K_SPARSE);
            if (!a || a->sk != ARMASSP_COO) break;
            int n = (int)a->e.size() + s.range(0, 70);
            c.d(" resize(%d)", n);
            if (armassp_resize((armas_sparse_t *)a->p, n) != 0) w.mustfail("armassp_resize", f0);
            w.verify(*a, "after resize");
            break;
        }
        case 9: {   // convert, transpose, copy
            Obj *a = pick(K_SPARSE);
            if (!a) break;
            auto *A = (armas_sparse_t *)a->p;
            int how = a->sk == ARMASSP_COO ? s.below(3) : s.below(4);
            Obj n;
            n.k = K_SPARSE;
            n.r = a->r; n.cc = a->cc; n.e = a->e; n.sk = a->sk;
            const char *nm = "armassp_mkcopy";
            if (how == 0) n.p = armassp_mkcopy(A);
            else if (how < 3) { n.sk = how == 1 ? ARMASSP_CSR : ARMASSP_CSC; nm = "armassp_convert"; n.p = armassp_convert(A, n.sk); }
            else { nm = "armassp_transpose"; std::swap(n.r, n.cc); for (auto &e : n.e) std::swap(e.i, e.j); n.p = armassp_transpose(A); }
            c.d(" %s", nm);
            if (!n.p) { w.mustfail(nm, f0); break; }
            w.o.emplace_back(new Obj(n));
            made++;
            w.verify(*w.o.back(), nm);
            w.verify(*a, nm);
            break;
        }
        case 10: {  // sums and products of sparse matrices
            Obj *a = pick(K_SPARSE);
            if (!a || a->sk == ARMASSP_COO) break;
            c.d(" add");
            armas_sparse_t *S = armassp_add(1.0, (armas_sparse_t *)a->p, 0.0, (armas_sparse_t *)a->p, 0, nullptr);
            if (!S) { w.mustfail("armassp_add", f0); break; }
            Obj &x = fresh(K_SPARSE);
            x.p = S; x.r = a->r; x.cc = a->cc; x.e = a->e; x.sk = a->sk;
            w.verify(x, "armassp_add");
            break;
        }
        case 11: { Obj *a = pick(-1); if (a) { c.d(" write"); w.write(*a); w.verify(*a, "after write"); } break; }
        case 12: { Obj *a = pick(-1); if (a) { c.d(" free"); w.drop(*a); } break; }
        case 13: {  // cache buffer of the thread
            c.d(" thread cbuf");
            armas_cbuf_release_thread_global();
            armas_cbuf_t *cb = s.chance(1, 2) ? armas_cbuf_create_thread_global() : armas_cbuf_get_thread_global();
            if (!cb) { w.mustfail("cache buffer of the thread", f0); break; }
            if ((uintptr_t)cb->data % 64) c.fail("cache buffer of the thread is not aligned to cache line");
            memset(cb->data, 0xff, cb->len);
            if (armas_cbuf_get_thread_global() != cb) c.fail("thread has another cache buffer");
            break;
        }
        case 14: {  // release and use again
            Obj *a = pick(K_DENSE);
            if (!a || a->heap) break;
            auto *A = (armas_dense_t *)a->p;
            c.d(" release");
            armas_release(A);
            if (a->r && a->cc && armas_size(A) != 0) c.fail("released matrix is %dx%d", A->rows, A->cols);
            armas_release(A);
            a->p = nullptr;
            break;
        }
        }
    }
    for (auto &x : w.o) w.verify(*x, "at end of history");
    c.nontrivial = made > 1;
}

// ---- reservations from a workspace: a model of the position, nothing reserved overlaps, nothing leaves the buffer
TARGET(wbuf, reserve, 3)
{
    size_t n = s.chance(1, 8) ? s.range(0, 16) : s.range(1, 4096);
    armas_wbuf_t own = ARMAS_WBNULL, *w = &own;
    int how = s.below(3);
    std::vector<char> ub;
    if (how == 0) { if (!armas_walloc(w, n)) { c.discard(); return; } }
    else if (how == 1) { w = armas_wnew(n); if (!w) { c.discard(); return; } }
    else {
        ub.assign(n + 32, 0x5a);
        own.buf = ub.data() + 16; own.bytes = n; own.offset = 0;
    }
    struct Reg { size_t at, len; int pat; };
    std::vector<Reg> regs;
    size_t pos = 0;
    int steps = s.range(1, 30), got = 0, pat = 1;
    c.d(" workspace of %zu bytes (%s)", n, how == 0 ? "alloc" : how == 1 ? "new" : "user");
    std::vector<size_t> marks{0};
    auto agree = [&](const char *what) {
        if (armas_wpos(w) != pos || armas_wbytes(w) != n - pos || armas_wptr(w) != w->buf + pos || w->bytes != n)
            c.fail("after %s: position %zu, free %zu, expected %zu and %zu", what, armas_wpos(w), armas_wbytes(w), pos, n - pos);
        for (auto &r : regs)
            for (size_t i = 0; i < r.len; i++)
                if ((unsigned char)w->buf[r.at + i] != (r.pat & 0xff)) { c.fail("after %s: reserved bytes %zu..%zu changed", what, r.at, r.at + r.len); return; }
    };
    for (int k = 0; k < steps; k++) {
        size_t left = n - pos, want;
        switch (s.weighted({8, 4, 3, 2, 1, 1})) {
        case 0: case 1: case 2: {
            int m = s.below(3);
            void *p;
            size_t cnt = s.chance(1, 4) ? left / 8 + s.below(2) : s.chance(1, 4) ? left + s.below(2) : (size_t)s.range(0, 200);
            if (m == 0) { want = cnt * 8; p = armas_wreserve(w, cnt, 8); c.d(" reserve %zux8", cnt); }
            else if (m == 1) { want = cnt; p = armas_wreserve_bytes(w, cnt); c.d(" reserve %zu", cnt); }
            else { want = (cnt + 7) / 8; p = armas_wreserve_bits(w, cnt); c.d(" reserve %zu bits", cnt); }
            if (want > left) { if (p) { c.fail("reserved %zu bytes when %zu were left", want, left); break; } c.label("refused"); agree("refused reservation"); break; }
            if (!p) { c.fail("reservation of %zu bytes refused when %zu were left", want, left); break; }
            if (p != w->buf + pos) { c.fail("reservation starts at %td, expected %zu", (char *)p - w->buf, pos); break; }
            memset(p, pat & 0xff, want);
            regs.push_back({pos, want, pat++});
            pos += want; got++;
            agree("reservation");
            break;
        }
        case 3: {
            size_t to = marks[s.below((int)marks.size())];
            if (s.chance(1, 2)) { marks.push_back(pos); c.d(" mark"); break; }
            if (to > pos || to >= n) break;
            armas_wsetpos(w, to);
            c.d(" setpos %zu", to);
            pos = to;
            while (!regs.empty() && regs.back().at + regs.back().len > to) regs.pop_back();
            agree("setpos");
            break;
        }
        case 4:
            armas_wreset(w); pos = 0; regs.clear(); c.d(" reset");
            agree("reset");
            break;
        default: {
            size_t z = s.chance(1, 2) ? 0 : s.range(1, 4200), lim = z > 0 && z <= n ? z : n;
            std::vector<char> old(w->buf, w->buf + n);
            armas_wzero(w, z);
            c.d(" zero %zu", z);
            for (size_t i = 0; i < n; i++)
                if (w->buf[i] != (i < lim ? 0 : old[i])) { c.fail("zero of %zu bytes: byte %zu is %d", z, i, w->buf[i]); break; }
            regs.clear();
            agree("zero");
        }
        }
    }
    if (got > 1) c.nontrivial = true;
    if (how == 0) { armas_wrelease(w); if (w->buf || w->bytes || w->offset) c.fail("released workspace is not empty"); armas_wrelease(w); }
    else if (how == 1) armas_wfree(w);
    else for (int i = 0; i < 16; i++) if (ub[i] != 0x5a || ub[16 + n + i] != 0x5a) { c.fail("workspace operations wrote outside of the buffer"); break; }
}
// ---- cache buffers: usable area is cache line aligned, inside of its memory and of the promised size
TARGET(wbuf, cbuf, 2)
{
    size_t cmem = s.chance(1, 3) ? s.range(1, 600) * 64 : s.range(64, 300000), l1 = s.pickl({0, 64, 4096, 32768});
    armas_cbuf_t b = {};
    int kind = s.below(3);
    c.d(" cbuf %s of %zu bytes", kind == 0 ? "init" : kind == 1 ? "make" : "select", cmem);
    auto in = [&](const char *what, const char *lo, size_t len) {
        if (((uintptr_t)b.data & 63) != 0) c.fail("%s: buffer is not aligned to cache line", what);
        if (b.data < lo || b.len > len || (size_t)(b.data - lo) > len - b.len) c.fail("%s: %zu bytes at %td do not lie inside of memory of %zu bytes", what, b.len, b.data - lo, len);
    };
    if (kind == 0) {
        if (armas_cbuf_init(&b, cmem, l1) != &b) { c.fail("init failed"); return; }
        in("init", (char *)b.__unaligned, b.__nbytes);
        if (b.len < cmem) c.fail("init: %zu bytes usable, %zu were requested", b.len, cmem);
        if (b.cmem != cmem || b.l1mem != l1) c.fail("init: sizes %zu %zu are not those requested", b.cmem, b.l1mem);
        memset(b.data, 0x77, b.len);
        armas_cbuf_release(&b);
        if (b.data) c.fail("released buffer has data");
        armas_cbuf_release(&b);
    } else if (kind == 1) {
        std::vector<char> m(cmem + 64 + 64, 0x5a);
        size_t sh = s.range(0, 63);
        armas_cbuf_make(&b, m.data() + sh, cmem, l1);
        in("make", m.data() + sh, cmem + 64);
        if (b.l1mem != l1) c.fail("make: sizes are not those requested");
        armas_cbuf_release(&b);
        if (!b.data) c.fail("release of buffer with memory of the caller emptied it");
        memset(b.data, 0x77, b.len);
    } else {
        armas_env_t *e = armas_getenv();
        Conf cf = conf0();
        armas_wbuf_t w = ARMAS_WBNULL;
        std::vector<char> m;
        int src = s.below(3);
        size_t avail = 0, off = 0;
        if (src == 0) {
            avail = e->cmem + s.pickl({-64, -1, 0, 1, 64, 4096});
            off = s.range(0, 100);
            m.assign(avail + off, 0);
            w.buf = m.data(); w.bytes = avail + off; w.offset = off;
            cf.work = &w;
        } else if (src == 1) cf.optflags |= ARMAS_CBUF_LOCAL;
        if (armas_cbuf_select(&b, cf.ptr()) != 0) { c.fail("select failed"); return; }
        if (src == 0 && avail >= e->cmem) {
            in("select from workspace", m.data() + off, avail);
            if (w.offset != w.bytes) c.fail("select: workspace is not reserved");
            c.label("from workspace");
        } else if (src == 1) { in("select local", (char *)b.__unaligned, b.__nbytes); c.label("local"); }
        else {
            armas_cbuf_t *g = armas_cbuf_get_thread_global();
            if (!g || b.data != g->data || b.len != g->len || b.__unaligned) c.fail("select: not the buffer of the thread");
            if (src == 0 && w.offset != off) c.fail("select: unused workspace was reserved");
            c.label("thread");
        }
        memset(b.data, 0x77, b.len);
        armas_cbuf_release(&b);
    }
    c.nontrivial = true;
}
