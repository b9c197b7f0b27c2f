// Sparse matrices: storage operations against a map model (sp), arithmetic against dense references (sparith),
// iterative solvers and incomplete factorizations against their defining equations (spsolve).
#include "lap.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace pbt;
typedef std::map<std::pair<int, int>, double> Ent;
static const char *kname(int k) { return k == ARMASSP_CSC ? "CSC" : k == ARMASSP_CSR ? "CSR" : "COO"; }

struct Sp {     // sparse matrix and what it denotes
    armas_sparse_t *p = nullptr;
    int m = 0, n = 0, kind = ARMASSP_COO;
    Ent e;
    bool sorted = true;
    Sp() {}
    Sp(const Sp &) = delete;
    Sp &operator=(const Sp &) = delete;
    Sp(Sp &&o) { *this = std::move(o); }
    Sp &operator=(Sp &&o) { std::swap(p, o.p); m = o.m; n = o.n; kind = o.kind; e = o.e; sorted = o.sorted; return *this; }
    ~Sp() { armassp_free(p); }
    LM lm() const
    {
        LM A(m, n);
        for (auto &x : e) A(x.first.first, x.first.second) = x.second;
        return A;
    }
};
// structure of A is well formed and it holds exactly the elements of model
static void sp_verify(Case &c, const char *what, const armas_sparse_t *A, int m, int n, int kind, const Ent &e, bool sorted)
{
    if (A->kind != kind) c.fail("%s: storage is %s instead of %s", what, kname(A->kind), kname(kind));
    if (A->rows != m || A->cols != n) c.fail("%s: dimensions %dx%d instead of %dx%d", what, A->rows, A->cols, m, n);
    if (A->nnz != (int)e.size()) c.fail("%s: %d elements instead of %zu", what, A->nnz, e.size());
    if (A->size < A->nnz) c.fail("%s: %d elements but room for %d", what, A->nnz, A->size);
    if (armassp_size(A) != m * n) c.fail("%s: size %d", what, armassp_size(A));
    if (armassp_nbytes(A) < armassp_bytes_for(A)) c.fail("%s: %zu bytes, contents need %zu", what, armassp_nbytes(A), armassp_bytes_for(A));
    std::set<std::pair<int, int>> seen;
    auto one = [&](int i, int j, double v) {
        if (i < 0 || i >= m || j < 0 || j >= n) c.fail("%s: stored position (%d,%d) is outside of %dx%d", what, i, j, m, n);
        if (!seen.insert({i, j}).second) c.fail("%s: position (%d,%d) is stored twice", what, i, j);
        auto it = e.find({i, j});
        if (it == e.end()) c.fail("%s: stored position (%d,%d) = %.17g does not belong to the matrix", what, i, j, v);
        if (!(v == it->second)) c.fail("%s: element (%d,%d) is %.17g instead of %.17g", what, i, j, v, it->second);
    };
    if (kind == ARMASSP_COO) {
        for (int k = 0; k < A->nnz; k++) one(A->elems.ep[k].i, A->elems.ep[k].j, A->elems.ep[k].val);
        return;
    }
    int np = kind == ARMASSP_CSR ? m : n;
    if (A->nptr != np || armassp_nvertex(A) != np) c.fail("%s: %d row/column pointers instead of %d", what, A->nptr, np);
    if (A->ptr[0] != 0) c.fail("%s: first pointer is %d", what, A->ptr[0]);
    if (A->ptr[np] != A->nnz) c.fail("%s: last pointer is %d, %d elements", what, A->ptr[np], A->nnz);
    for (int q = 0; q < np; q++) {
        if (A->ptr[q + 1] < A->ptr[q]) c.fail("%s: pointers decrease at %d", what, q);
        if (A->ptr[q + 1] > A->nnz) c.fail("%s: pointer %d is past the elements", what, q + 1);
        armas_spvec_t v;
        armassp_vector(&v, A, q);
        if (v.nz != A->ptr[q + 1] - A->ptr[q] || v.nz != armassp_len(A, q)) c.fail("%s: vector %d has length %d", what, q, v.nz);
        for (int k = A->ptr[q]; k < A->ptr[q + 1]; k++) {
            int x = armassp_at(A, k);
            if (kind == ARMASSP_CSR) one(q, x, armassp_value(A, k)); else one(x, q, armassp_value(A, k));
            if (v.ix[k - A->ptr[q]] != x || !(v.elems[k - A->ptr[q]] == A->elems.v[k])) c.fail("%s: vector view of %d differs from the matrix", what, q);
            if (sorted && k > A->ptr[q] && A->ix[k - 1] >= x) c.fail("%s: indexes of %d are not ascending", what, q);
        }
    }
    if (sorted) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        int p = kind == ARMASSP_CSR ? armassp_nz(A, i, j) : armassp_nz(A, j, i);
        auto it = e.find({i, j});
        if ((p >= 0) != (it != e.end())) c.fail("%s: position of (%d,%d) is %d", what, i, j, p);
        if (p >= 0 && !(armassp_value(A, p) == it->second)) c.fail("%s: position of (%d,%d) holds %.17g", what, i, j, armassp_value(A, p));
    }
}
static void sp_verify(Case &c, const char *what, const Sp &S) { sp_verify(c, what, S.p, S.m, S.n, S.kind, S.e, S.sorted); }

enum { PT_RANDOM, PT_DIAG, PT_BAND, PT_ARROW, PT_LOWER, PT_UPPER, PT_FULL, PT_EMPTY, PT_HOLES, PT_N };
static double sp_value(Rng &g, int how)
{
    switch (how) {
    case 0: return g.sym();
    case 1: return (double)(g.below(9) - 4);      // explicit zeros included
    case 2: return std::ldexp(g.sym(), g.below(40) - 20);
    default: return 1.0 + g.unit();
    }
}
static Ent sp_pattern(Src &s, Case &c, int m, int n, bool diag = false)
{
    int pt = s.below(PT_N), how = s.below(4);
    Rng g(s.seed());
    double dens = s.pickl({0.2, 0.05, 0.5, 0.8});
    Ent e;
    std::set<int> deadr, deadc;
    if (pt == PT_HOLES) for (int k = 0; k < 3; k++) { deadr.insert(g.below(m)); deadc.insert(g.below(n)); }
    int bw = 1 + g.below(3);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        bool in;
        switch (pt) {
        case PT_DIAG: in = i == j; break;
        case PT_BAND: in = std::abs(i - j) <= bw; break;
        case PT_ARROW: in = i == j || i == 0 || j == 0; break;
        case PT_LOWER: in = i >= j && g.unit() < dens; break;
        case PT_UPPER: in = i <= j && g.unit() < dens; break;
        case PT_FULL: in = true; break;
        case PT_EMPTY: in = false; break;
        case PT_HOLES: in = !deadr.count(i) && !deadc.count(j) && g.unit() < dens; break;
        default: in = g.unit() < dens;
        }
        if (in || (diag && i == j)) e[{i, j}] = sp_value(g, how);
    }
    static const char *nm[] = {"random", "diagonal", "band", "arrow", "lower", "upper", "full", "empty", "holes"};
    c.d(" %s(%zu)", nm[pt], e.size());
    return e;
}
// COO matrix whose elements are appended in random order; then converted
static Sp sp_build(Src &s, Case &c, int m, int n, const Ent &e, int kind)
{
    Sp S;
    S.m = m; S.n = n; S.kind = kind; S.e = e;
    std::vector<std::pair<std::pair<int, int>, double>> v(e.begin(), e.end());
    int ord = s.below(3);
    Rng g(s.seed());
    if (ord == 0) for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[g.below((int)k)]);
    if (ord == 1) std::reverse(v.begin(), v.end());
    int cap = s.chance(1, 3) ? (int)v.size() / 2 : (int)v.size() + (s.chance(1, 3) ? 7 : 0);
    armas_sparse_t *A = armassp_new(m, n, cap, ARMASSP_COO);
    if (!A) oomnull(c, "armassp_new");
    if (!A) c.fail("armassp_new(%d,%d,%d,COO) failed", m, n, cap);
    S.p = A;
    for (auto &x : v)
        if (armassp_append(A, x.first.first, x.first.second, x.second) != 0) { oomnull(c, "armassp_append"); c.fail("append of (%d,%d) to %dx%d failed", x.first.first, x.first.second, m, n); }
    if (kind != ARMASSP_COO) {
        armas_sparse_t *B = armassp_convert(A, (armassp_type_enum)kind);
        if (!B) oomnull(c, "armassp_convert");
        if (!B) c.fail("conversion of %dx%d with %zu elements to %s failed", m, n, e.size(), kname(kind));
        armassp_free(A);
        S.p = B;
    }
    return S;
}
static void sp_shuffle(Sp &S, uint32_t seed)
{
    Rng g(seed);
    armas_sparse_t *A = S.p;
    if (S.kind == ARMASSP_COO) {
        for (int k = A->nnz; k > 1; k--) std::swap(A->elems.ep[k - 1], A->elems.ep[g.below(k)]);
        return;
    }
    for (int q = 0; q < A->nptr; q++)
        for (int k = A->ptr[q + 1] - A->ptr[q]; k > 1; k--) {
            int a = A->ptr[q] + k - 1, b = A->ptr[q] + g.below(k);
            std::swap(A->ix[a], A->ix[b]);
            std::swap(A->elems.v[a], A->elems.v[b]);
        }
    S.sorted = A->nnz == 0;
}
static int spdim(Src &s, const Dims &dm, int big = 12, int mx = 80)
{
    return s.weighted({1, 12}) == 0 ? 0 : dm(s, 1, mode.maxdim > 0 ? std::min(big, mode.maxdim) : big, mx);
}
static int comp(Src &s) { return s.chance(1, 2) ? ARMASSP_CSR : ARMASSP_CSC; }

// ================================================================== storage
static bool hasdiag_ref(const Sp &S, int d)
{
    if (S.m != S.n) return false;
    if (d < 0 ? S.m < -d : S.n < d) return false;
    for (int i = 0; i < S.m; i++) {
        int j = i + d;
        if (j < 0 || j >= S.n) continue;
        if (!S.e.count({i, j})) return false;
    }
    return true;
}
static Ent transposed(const Ent &e)
{
    Ent t;
    for (auto &x : e) t[{x.first.second, x.first.first}] = x.second;
    return t;
}
TARGET(sp, history, 10)
{
    int np = 4;
    std::vector<Sp> P(np);
    Dims dm(s);
    int steps = s.range(4, dm.big ? 6 : mode.thorough ? 40 : 14);
    int comps = 0;
    auto fresh = [&](Sp &S) {
        S.~Sp();
        new (&S) Sp();
        S.m = spdim(s, dm, 9, 60);
        S.n = s.chance(1, 2) ? S.m : spdim(s, dm, 9, 60);
        c.d(" new %dx%d", S.m, S.n);
        Ent e;
        if (S.m && S.n) e = sp_pattern(s, c, S.m, S.n);
        int kind = s.below(3);
        c.d("%s", kname(kind));
        int m = S.m, n = S.n;
        S = sp_build(s, c, m, n, e, kind);
    };
    for (int k = 0; k < 2; k++) { c.d("%d=", k); fresh(P[k]); c.d("; "); }
    auto put = [&](Sp &D, armas_sparse_t *q, int m, int n, int kind, const Ent &e, bool sorted) {
        Sp N;
        N.p = q; N.m = m; N.n = n; N.kind = kind; N.e = e; N.sorted = sorted;
        D = std::move(N);
    };
    for (int st = 0; st < steps; st++) {
        int ia = s.below(np), ib = s.below(np);
        Sp &A = P[ia], &B = P[ib];
        int op = s.weighted({3, 6, 3, 3, 4, 3, 6, 4, 4, 3, 3, 3, 2, 2});
        if (op != 0 && !A.p) { c.d("%d=", ia); fresh(A); }
        switch (op) {
        case 0: c.d("%d=", ia); fresh(A); break;
        case 1: {    // append
            int i = s.chance(1, 8) ? s.pickl({-1, A.m, A.m + 3}) : s.below(A.m), j = s.chance(1, 8) ? s.pickl({-1, A.n, A.n + 2}) : s.below(A.n);
            Rng g(s.seed());
            double v = sp_value(g, s.below(4));
            bool in = i >= 0 && i < A.m && j >= 0 && j < A.n;
            if (in && A.e.count({i, j})) break;
            int rc = armassp_append(A.p, i, j, v);
            c.d("append(%d,%d,%d)=%d", ia, i, j, rc);
            if (in && A.kind == ARMASSP_COO) {
                if (rc != 0) c.fail("append of (%d,%d) to %dx%d returned %d", i, j, A.m, A.n, rc);
                A.e[{i, j}] = v;
            } else if (rc >= 0) c.fail("append of (%d,%d) to %s %dx%d returned %d", i, j, kname(A.kind), A.m, A.n, rc);
            break;
        }
        case 2: {   // resize
            int k = s.range(0, A.p->nnz + 20);
            int rc = armassp_resize(A.p, k);
            c.d("resize(%d,%d)=%d", ia, k, rc);
            if (A.kind != ARMASSP_COO) { if (rc >= 0) c.fail("resize of %s returned %d", kname(A.kind), rc); break; }
            if (k < (int)A.e.size()) { if (rc >= 0) c.fail("resize to %d with %zu elements returned %d", k, A.e.size(), rc); }
            else {
                if (rc != 0) c.fail("resize to %d with %zu elements returned %d", k, A.e.size(), rc);
                if (A.p->size < k) c.fail("resize to %d left room for %d", k, A.p->size);
            }
            break;
        }
        case 3: {   // unsorted
            c.d("shuffle(%d)", ia);
            sp_shuffle(A, s.seed());
            break;
        }
        case 4: {   // sort
            if (s.chance(1, 2) && A.kind != ARMASSP_COO) {
                c.d("sort(%d)", ia);
                if (armassp_sort(A.p) != 0) c.fail("armassp_sort failed for %s", kname(A.kind));
                A.sorted = true;
            } else {
                int o = s.pickl({ARMASSP_ROW_ORDER, ARMASSP_COL_ORDER});
                c.d("sort_to(%d,%s)", ia, o == ARMASSP_ROW_ORDER ? "row" : "col");
                if (armassp_sort_to(A.p, (armassp_order_t)o) != 0) c.fail("armassp_sort_to failed");
                if (A.kind != ARMASSP_COO) A.sorted = true;
                else for (int k = 1; k < A.p->nnz; k++) {
                    auto &x = A.p->elems.ep[k - 1], &y = A.p->elems.ep[k];
                    auto kx = o == ARMASSP_ROW_ORDER ? std::make_pair(x.i, x.j) : std::make_pair(x.j, x.i);
                    auto ky = o == ARMASSP_ROW_ORDER ? std::make_pair(y.i, y.j) : std::make_pair(y.j, y.i);
                    if (!(kx < ky)) c.fail("elements %d and %d are out of order after sorting", k - 1, k);
                }
            }
            break;
        }
        case 5: {   // mkcopy
            if (ia == ib) break;
            c.d("%d=mkcopy(%d)", ib, ia);
            armas_sparse_t *q = armassp_mkcopy(A.p);
            if (!q) oomnull(c, "conversion");
            if (!q) c.fail("armassp_mkcopy failed for %s %dx%d", kname(A.kind), A.m, A.n);
            put(B, q, A.m, A.n, A.kind, A.e, A.sorted);
            break;
        }
        case 6: {   // convert
            if (ia == ib) break;
            int k = s.weighted({6, 6, 1});
            c.d("%d=convert(%d,%s)", ib, ia, kname(k));
            armas_sparse_t *q = armassp_convert(A.p, (armassp_type_enum)k);
            if (k == ARMASSP_COO) { if (q) { sp_verify(c, "conversion to COO", q, A.m, A.n, k, A.e, false); armassp_free(q); } break; }
            if (!q) oomnull(c, "conversion");
            if (!q) c.fail("conversion of %s %dx%d to %s failed", kname(A.kind), A.m, A.n, kname(k));
            put(B, q, A.m, A.n, k, A.e, A.kind != k || A.sorted);
            comps++;
            break;
        }
        case 7: {   // transpose
            if (ia == ib) break;
            c.d("%d=transpose(%d)", ib, ia);
            armas_sparse_t *q = armassp_transpose(A.p);
            if (A.kind == ARMASSP_COO) { if (q) { sp_verify(c, "transpose of COO", q, A.n, A.m, q->kind, transposed(A.e), false); armassp_free(q); } break; }
            if (!q) oomnull(c, "conversion");
            if (!q) c.fail("transpose of %s %dx%d failed", kname(A.kind), A.m, A.n);
            put(B, q, A.n, A.m, A.kind, transposed(A.e), true);
            comps++;
            break;
        }
        case 8: {   // convert_to or transpose_to: preallocated target
            if (ia == ib) break;
            bool tr = s.chance(1, 2);
            int k = s.below(2);
            int dz = s.pickl({0, 0, 0, 1, -1, 5}), dm = s.pickl({0, 0, 0, 0, 1, -1});
            int nz = std::max(0, (int)A.e.size() + dz);
            int tk = tr ? (A.kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC) : k;
            int m = tk == ARMASSP_CSR ? std::max(0, A.m + dm) : A.m, n = tk == ARMASSP_CSR ? A.n : std::max(0, A.n + dm);
            bool exact = nz == (int)A.e.size() && m == A.m && n == A.n;
            c.d("%d=%s_to(%dx%d %s room %d, %d)", ib, tr ? "transpose" : "convert", m, n, kname(tk), nz, ia);
            armas_sparse_t *T = armassp_new(m, n, nz, (armassp_type_enum)tk);
            if (!T) oomnull(c, "conversion");
            if (!T) c.fail("armassp_new(%d,%d,%d,%s) failed", m, n, nz, kname(tk));
            Sp own;
            own.p = T;
            armas_sparse_t *q = tr ? armassp_transpose_to(T, A.p) : armassp_convert_to(T, A.p, (armassp_type_enum)tk);
            if (q && q != T) c.fail("result is not the target");
            if (!q && exact && !(tr && A.kind == ARMASSP_COO)) c.fail("%s %dx%d with %zu elements does not fit to target of exactly that size", kname(A.kind), A.m, A.n, A.e.size());
            if (!q) break;
            own.p = nullptr;
            if (tr) put(B, q, A.n, A.m, A.kind, transposed(A.e), true);
            else put(B, q, A.m, A.n, tk, A.e, A.kind != tk || A.sorted);
            comps++;
            break;
        }
        case 9: {   // copy_to
            if (ia == ib) break;
            armas_sparse_t *T = nullptr;
            Sp own;
            if (s.chance(1, 2) && B.p) { T = B.p; c.d("%d=copy_to(%d,%d)", ib, ib, ia); }
            else {
                int k = s.below(3), m = spdim(s, dm, 9, 60), n = spdim(s, dm, 9, 60), nz = s.range(0, (int)A.e.size() + 6);
                own.p = T = armassp_new(m, n, nz, (armassp_type_enum)k);
                c.d("%d=copy_to(new %s %dx%d %d,%d)", ib, kname(k), m, n, nz, ia);
            }
            size_t have = armassp_nbytes(T), need = armassp_bytes_for(A.p);
            armas_sparse_t *q = armassp_copy_to(T, A.p);
            if (q && q != T) c.fail("result is not the target");
            if (!q && have >= need) c.fail("copy to %zu byte target failed, %zu needed", have, need);
            if (q && have < need) c.fail("copy to %zu byte target succeeded, %zu needed", have, need);
            if (!q) break;
            if (T == B.p) B.p = nullptr;
            own.p = nullptr;
            put(B, q, A.m, A.n, A.kind, A.e, A.sorted);
            break;
        }
        case 10: {  // densify
            c.d("todense(%d)", ia);
            if (A.m == 0 || A.n == 0) break;
            bool bad = s.chance(1, 6);
            Mat D = mk(s, A.m + (bad ? 1 : 0), A.n);
            for (int j = 0; j < D.c(); j++) for (int i = 0; i < D.r(); i++) D.e(i, j) = 0;
            D.snapshot();
            Conf cf = conf0();
            int rc = armassp_todense(&D, A.p, &cf);
            if (bad) {
                if (rc >= 0) c.fail("todense to %s from %dx%d returned %d", sh(D).c_str(), A.m, A.n, rc);
                frame_const(c, D, "D");
                break;
            }
            if (rc != 0) c.fail("todense returned %d", rc);
            for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) {
                auto it = A.e.find({i, j});
                double v = it == A.e.end() ? 0.0 : it->second;
                if (!(D.e(i, j) == v)) c.fail("dense element (%d,%d) is %.17g instead of %.17g", i, j, D.e(i, j), v);
            }
            frame_result(c, D, "D");
            break;
        }
        case 11: {  // hasdiag
            int d = s.range(0, 2 * (A.n + 1)) - (A.n + 1);
            int r = armassp_hasdiag(A.p, d);
            c.d("hasdiag(%d,%d)=%d", ia, d, r);
            if ((r != 0) != hasdiag_ref(A, d)) c.fail("hasdiag(%d) of %s %dx%d returned %d", d, kname(A.kind), A.m, A.n, r);
            break;
        }
        case 12: {  // user memory
            int k = s.below(3), m = spdim(s, dm, 9, 60), n = spdim(s, dm, 9, 60), nz = s.range(0, 12);
            size_t need = armassp_bytes_needed(m, n, nz, (armassp_type_enum)k);
            size_t have = need + s.pickl({0, 0, 8, -8, -1});
            if ((ptrdiff_t)have < 0) break;
            c.d("make(%s %dx%d %d in %zu of %zu)", kname(k), m, n, nz, have, need);
            char *mem = (char *)malloc(have + 1);
            memset(mem, 0, have + 1);
            armas_sparse_t T;
            memset(&T, 0x5a, sizeof T);
            int rc = armassp_make(&T, m, n, nz, (armassp_type_enum)k, mem, have);
            bool ok = have >= need;
            std::string err;
            if (ok != (rc == 0)) err = "armassp_make returned " + std::to_string(rc);
            else if (ok) {
                if (T.rows != m || T.cols != n || T.nnz != 0 || T.size != nz || T.kind != k) err = "armassp_make: wrong dimensions";
                else if (k != ARMASSP_COO) {
                    int np_ = k == ARMASSP_CSR ? m : n;
                    if ((char *)(T.ptr + np_ + 1) > mem + need || (char *)(T.ix + nz) > mem + need || (char *)(T.elems.v + nz) > mem + need || (char *)T.ptr < mem || (char *)T.ix < mem) err = "armassp_make: arrays are outside of the memory block";
                } else for (int q = 0; q < nz && m && n; q++) if (armassp_append(&T, q % m, 0, 1.0) != 0) err = "append to prepared matrix failed";
            }
            free(mem);
            if (!err.empty()) c.fail("%s", err.c_str());
            break;
        }
        default: {  // impossible requests
            int m = s.pickl({-1, 3}), n = s.pickl({3, -1}), nz = m > 0 && n > 0 ? -1 : 4;
            armas_sparse_t *q = armassp_new(m, n, nz, (armassp_type_enum)s.below(3));
            if (q) { armassp_free(q); c.fail("armassp_new(%d,%d,%d) succeeded", m, n, nz); }
            armas_sparse_t *r = armassp_convert_to(nullptr, A.p, ARMASSP_CSR), *t = armassp_copy_to(nullptr, A.p), *u = armassp_transpose_to(nullptr, A.p);
            if (r || t || u) c.fail("operation on an absent target returned a matrix");
        }
        }
        c.d("; ");
        for (int k = 0; k < np; k++) if (P[k].p) {
            char w[40];
            snprintf(w, sizeof w, "step %d, matrix %d", st, k);
            sp_verify(c, w, P[k]);
        }
    }
    c.nontrivial = comps > 0;
}
TARGET(sp, roundtrip, 3)
{   // compressed storage and back in both orders, twice transposed
    int m = s.range(1, mode.thorough ? 60 : 25), n = s.chance(1, 3) ? m : s.range(1, mode.thorough ? 60 : 25);
    c.d("%dx%d", m, n);
    Ent e = sp_pattern(s, c, m, n);
    Sp A = sp_build(s, c, m, n, e, comp(s));
    sp_verify(c, "built", A);
    int o = A.kind == ARMASSP_CSR ? ARMASSP_CSC : ARMASSP_CSR;
    armas_sparse_t *B = armassp_convert(A.p, (armassp_type_enum)o);
    armas_sparse_t *C = B ? armassp_convert(B, (armassp_type_enum)A.kind) : nullptr;
    armas_sparse_t *T = armassp_transpose(A.p);
    armas_sparse_t *U = T ? armassp_transpose(T) : nullptr;
    armas_sparse_t *V = T ? armassp_convert(T, (armassp_type_enum)o) : nullptr;
    if (!B || !C || !T || !U || !V) oomnull(c, "conversion");
            if (!B || !C || !T || !U || !V) c.fail("conversion failed for %s %dx%d", kname(A.kind), m, n);
    Sp b[5];
    b[0].p = B; b[1].p = C; b[2].p = T; b[3].p = U; b[4].p = V;
    Ent t = transposed(e);
    sp_verify(c, "converted", B, m, n, o, e, true);
    sp_verify(c, "converted back", C, m, n, A.kind, e, true);
    sp_verify(c, "transposed", T, n, m, A.kind, t, true);
    sp_verify(c, "transposed twice", U, m, n, A.kind, e, true);
    sp_verify(c, "transposed and converted", V, n, m, o, t, true);
    sp_verify(c, "source", A);
    // storage of the transpose is the other storage of the matrix
    if (memcmp(T->ptr, B->ptr, (T->nptr + 1) * sizeof(int)) || memcmp(T->ix, B->ix, T->nnz * sizeof(int))) c.fail("transpose and conversion store different structures");
    c.nontrivial = e.size() > 2;
}

// ================================================================== arithmetic
static double coef(Src &s) { return s.chance(1, 3) ? s.pickl({1.0, 0.0, -1.0}) : rnd_scalar(s); }
static void prep_result(Src &s, Case &c, Mat &y, double beta)
{
    if (beta == 0 && s.chance(1, 2)) {
        c.d(" y=nan");
        for (int k = 0; k < y.n(); k++) y.v(k) = NAN;
        y.snapshot();
    }
}
static int nontriv(const Ent &e) { return e.size() > 2; }
TARGET(sparith, mvmult, 8)
{
    Dims dm(s);
    int m = spdim(s, dm), n = spdim(s, dm), kind = comp(s), tr = s.below(2) ? ARMAS_TRANS : 0;
    c.d("%s %dx%d%s", kname(kind), m, n, tr ? " trans" : "");
    Ent e;
    if (m && n) e = sp_pattern(s, c, m, n);
    Sp A = sp_build(s, c, m, n, e, kind);
    if (s.chance(1, 4)) sp_shuffle(A, s.seed());
    double al = coef(s), be = coef(s);
    Mat x = mkvec(s, tr ? m : n), y = mkvec(s, tr ? n : m);
    if (x.n()) fill(s, x);
    if (y.n()) fill(s, y);
    prep_result(s, c, y, be);
    c.d(" alpha=%g beta=%g x=%s y=%s", al, be, sh(x).c_str(), sh(y).c_str());
    LM M = tr ? ::tr(A.lm()) : A.lm(), xv = x.lmv(), yv = y.lmv();
    Conf cf = conf0();
    x.snapshot(); y.snapshot();
    OKRC(c, armassp_mvmult(be, &y, al, A.p, &x, tr | (s.chance(1, 6) ? ARMAS_UPPER : 0), &cf), cf);
    if (y.n()) {
        if (be == 0) yv = LM(y.n(), 1);
        LM r = add(al, mul(M, xv), be, yv), ab = add(std::fabs(al), mul(absm(M), absm(xv)), std::fabs(be), absm(yv));
        cmpv(c, "y", y, r, ab, 4.0 * (M.c + 4));
    }
    sp_verify(c, "operand", A);
    frame_const(c, x, "x");
    frame_result(c, y, "y");
    c.nontrivial = nontriv(e);
}
TARGET(sparith, mvmult_sym, 5)
{
    Dims dm(s);
    int n = spdim(s, dm), kind = comp(s), up = s.below(2);
    int fl = up ? ARMAS_UPPER : s.pickl({ARMAS_LOWER, 0});
    c.d("%s %dx%d %s", kname(kind), n, n, up ? "upper" : "lower");
    Ent e;
    if (n) e = sp_pattern(s, c, n, n);
    Sp A = sp_build(s, c, n, n, e, kind);
    double al = coef(s), be = coef(s);
    Mat x = mkvec(s, n), y = mkvec(s, n);
    if (n) { fill(s, x); fill(s, y); }
    prep_result(s, c, y, be);
    c.d(" alpha=%g beta=%g x=%s y=%s", al, be, sh(x).c_str(), sh(y).c_str());
    LM M = symm(A.lm(), up), xv = x.lmv(), yv = y.lmv();
    // elements of the other triangle are not accessed
    if (s.chance(1, 3)) {
        c.d(" nan outside");
        for (int q = 0; q < A.p->nptr; q++) for (int k = A.p->ptr[q]; k < A.p->ptr[q + 1]; k++) {
            int i = kind == ARMASSP_CSR ? q : A.p->ix[k], j = kind == ARMASSP_CSR ? A.p->ix[k] : q;
            if (up ? i > j : i < j) A.p->elems.v[k] = NAN;
        }
    }
    Conf cf = conf0();
    x.snapshot(); y.snapshot();
    OKRC(c, armassp_mvmult_sym(be, &y, al, A.p, &x, fl, &cf), cf);
    if (n) {
        if (be == 0) yv = LM(n, 1);
        LM r = add(al, mul(M, xv), be, yv), ab = add(std::fabs(al), mul(absm(M), absm(xv)), std::fabs(be), absm(yv));
        cmpv(c, "y", y, r, ab, 4.0 * (n + 4));
    }
    frame_const(c, x, "x");
    frame_result(c, y, "y");
    c.nontrivial = nontriv(e);
}
static void nan_outside(Src &s, Case &c, Sp &A, bool up, bool unit)
{
    int how = s.below(3);
    if (!how) return;
    c.d(" %s outside", how == 1 ? "nan" : "big");
    for (int q = 0; q < A.p->nptr; q++) for (int k = A.p->ptr[q]; k < A.p->ptr[q + 1]; k++) {
        int i = A.kind == ARMASSP_CSR ? q : A.p->ix[k], j = A.kind == ARMASSP_CSR ? A.p->ix[k] : q;
        if ((up ? i > j : i < j) || (unit && i == j)) A.p->elems.v[k] = how == 1 ? NAN : 1e30;
    }
}
TARGET(sparith, mvmult_trm, 5)
{
    Dims dm(s);
    int n = spdim(s, dm), kind = comp(s), up = s.below(2), unit = s.below(2), tr = s.below(2);
    int fl = (up ? ARMAS_UPPER : s.pickl({ARMAS_LOWER, 0})) | (unit ? ARMAS_UNIT : 0) | (tr ? ARMAS_TRANS : 0);
    c.d("%s %dx%d %s%s%s", kname(kind), n, n, up ? "upper" : "lower", unit ? " unit" : "", tr ? " trans" : "");
    Ent e;
    if (n) e = sp_pattern(s, c, n, n, s.chance(1, 2));
    Sp A = sp_build(s, c, n, n, e, kind);
    double al = coef(s);
    Mat x = mkvec(s, n);
    if (n) fill(s, x);
    c.d(" alpha=%g x=%s", al, sh(x).c_str());
    LM M = tri(A.lm(), up, unit), xv = x.lmv();
    if (tr) M = ::tr(M);
    nan_outside(s, c, A, up, unit);
    Conf cf = conf0();
    x.snapshot();
    OKRC(c, armassp_mvmult_trm(&x, al, A.p, fl, &cf), cf);
    if (n) {
        LM z(n, 1);
        cmpv(c, "x", x, add(al, mul(M, xv), 0, z), add(std::fabs(al), mul(absm(M), absm(xv)), 0, z), 4.0 * (n + 4));
    }
    frame_result(c, x, "x");
    c.nontrivial = nontriv(e);
}
TARGET(sparith, mvsolve_trm, 6)
{
    Dims dm(s);
    int n = spdim(s, dm), kind = comp(s), up = s.below(2), unit = s.below(2), tr = s.below(2);
    int fl = (up ? ARMAS_UPPER : s.pickl({ARMAS_LOWER, 0})) | (unit ? ARMAS_UNIT : 0) | (tr ? ARMAS_TRANS : 0);
    c.d("%s %dx%d %s%s%s", kname(kind), n, n, up ? "upper" : "lower", unit ? " unit" : "", tr ? " trans" : "");
    Ent e;
    if (n) e = sp_pattern(s, c, n, n, !unit || s.chance(1, 2));
    if (!unit) for (int i = 0; i < n; i++) { double &d = e[{i, i}]; d = d < 0 ? d - 1 : d + 1; }
    Sp A = sp_build(s, c, n, n, e, kind);
    double al = coef(s);
    Mat x = mkvec(s, n);
    if (n) fill(s, x);
    c.d(" alpha=%g x=%s", al, sh(x).c_str());
    LM M = tri(A.lm(), up, unit), b = x.lmv();
    if (tr) M = ::tr(M);
    nan_outside(s, c, A, up, unit);
    Conf cf = conf0();
    x.snapshot();
    OKRC(c, armassp_mvsolve_trm(&x, al, A.p, fl, &cf), cf);
    if (n) {    // componentwise backward stable: |op(A) x - alpha b| <= c n eps (|A||x| + |alpha b|)
        need_finite(c, "x", x);
        LM xv = x.lmv(), z(n, 1), r = add(1, mul(M, xv), -al, b), ab = add(1, mul(absm(M), absm(xv)), std::fabs(al), absm(b));
        for (int i = 0; i < n; i++)
            if (fabsl(r(i, 0)) > 8 * (n + 4) * UEPS * ab(i, 0) + 1e-300L) c.fail("equation %d: residual %Lg, terms are %Lg", i, r(i, 0), ab(i, 0));
    }
    frame_result(c, x, "x");
    c.nontrivial = nontriv(e);
}
// values of result within bound, pattern is the structural pattern of the operation
static void sp_result(Case &c, const char *what, const armas_sparse_t *C, int kind, const LM &r, const LM &ab, double mult, const std::set<std::pair<int, int>> &pat)
{
    if (C->kind != kind) c.fail("%s: storage is %s instead of %s", what, kname(C->kind), kname(kind));
    if (C->rows != r.r || C->cols != r.c) c.fail("%s: dimensions %dx%d instead of %dx%d", what, C->rows, C->cols, r.r, r.c);
    Ent e;
    int np = kind == ARMASSP_CSR ? r.r : r.c;
    if (C->nptr != np || C->ptr[0] != 0 || C->ptr[np] != C->nnz || C->nnz > C->size) c.fail("%s: bad structure, %d pointers from %d to %d, %d elements in %d", what, C->nptr, C->ptr[0], C->ptr[np], C->nnz, C->size);
    for (int q = 0; q < np; q++) for (int k = C->ptr[q]; k < C->ptr[q + 1]; k++) {
        int i = kind == ARMASSP_CSR ? q : C->ix[k], j = kind == ARMASSP_CSR ? C->ix[k] : q;
        e[{i, j}] = C->elems.v[k];
    }
    sp_verify(c, what, C, r.r, r.c, kind, e, false);
    for (auto &x : e)
        if (!pat.count(x.first)) c.fail("%s: position (%d,%d) is stored, no operand contributes to it", what, x.first.first, x.first.second);
    for (int j = 0; j < r.c; j++) for (int i = 0; i < r.r; i++) {
        auto it = e.find({i, j});
        double v = it == e.end() ? 0.0 : it->second;
        if (!(fabsl((LD)v - r(i, j)) <= mult * UEPS * ab(i, j) + 1e-300L)) c.fail("%s: element (%d,%d) is %.17g instead of %.17Lg", what, i, j, v, r(i, j));
    }
}
struct WB {   // workspace with guard
    char *p = nullptr;
    size_t n;
    armas_wbuf_t w = ARMAS_WBNULL;
    WB(Src &s, size_t bytes) : n(bytes) { p = (char *)case_alloc(n + (mode.exact ? 0 : 128)); memset(p, s.pickl({0xff, 0, 0x11}), n); if (!mode.exact) memset(p + n, 0x5a, 128); w.buf = p; w.bytes = n; w.offset = 0; }
    void check(Case &c, const char *what)
    {
        if (!mode.exact) for (int i = 0; i < 128; i++) if (p[n + i] != 0x5a) c.fail("%s wrote past its %zu byte workspace", what, n);
        if (w.offset != 0 || w.buf != p || w.bytes != n) c.fail("%s left the workspace at offset %zu", what, w.offset);
    }
};
TARGET(sparith, add, 6)
{
    Dims dm(s);
    int m = dm(s, 1, 12, 80), n = s.chance(1, 2) ? m : dm(s, 1, 12, 80), kind = comp(s);
    int ta = s.below(2), tb = s.below(2), fl = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
    c.d("%s %dx%d%s%s", kname(kind), m, n, ta ? " transA" : "", tb ? " transB" : "");
    bool same = s.chance(1, 10) && (m == n || ta == tb);
    Ent ea = sp_pattern(s, c, ta ? n : m, ta ? m : n), eb = same ? ea : sp_pattern(s, c, tb ? n : m, tb ? m : n);
    Sp A = sp_build(s, c, ta ? n : m, ta ? m : n, ea, kind), B = sp_build(s, c, tb ? n : m, tb ? m : n, eb, kind);
    if (!ta && !(same && tb) && s.chance(1, 5)) sp_shuffle(A, s.seed());    // transposed operands have to be sorted
    if (!tb && s.chance(1, 5)) sp_shuffle(B, s.seed());
    if (same) { c.d(" B is A"); c.label("shared"); }
    auto *bp = same ? A.p : B.p;
    double al = coef(s), be = coef(s);
    c.d(" alpha=%g beta=%g", al, be);
    const Sp &Bx = same ? A : B;
    LM a = ta ? tr(A.lm()) : A.lm(), b = tb ? tr(Bx.lm()) : Bx.lm();
    LM r = add(al, a, be, b), ab = add(std::fabs(al), absm(a), std::fabs(be), absm(b));
    std::set<std::pair<int, int>> pat;
    for (auto &x : ta ? transposed(ea) : ea) pat.insert(x.first);
    for (auto &x : tb ? transposed(eb) : eb) pat.insert(x.first);
    Conf cf = conf0();
    Sp C;
    if (s.chance(1, 2)) {
        C.p = armassp_add(al, A.p, be, bp, fl, &cf);
        if (!C.p) oomnull(c, "armassp_add", &cf);
        if (!C.p) c.fail("armassp_add failed (error %d)", cf.err());
        sp_result(c, "sum", C.p, kind, r, ab, 8, pat);
    } else {
        armas_wbuf_t q = ARMAS_WBNULL;
        int room = (int)pat.size() + s.pickl({0, 0, 3, -1, -2});
        if (room < 0) room = 0;
        c.d(" room %d for %zu", room, pat.size());
        C.p = armassp_new(m, n, room, (armassp_type_enum)kind);
        if (!C.p) oomnull(c, "armassp_new");
        int rc = armassp_addto_w(s.chance(1, 2) ? C.p : nullptr, al, A.p, be, bp, fl, &q, &cf);
        if (rc < 0) c.fail("workspace query returned %d", rc);
        WB w(s, q.bytes);
        for (int rep = s.range(1, 2); rep > 0; rep--) {
            rc = armassp_addto_w(C.p, al, A.p, be, bp, fl, &w.w, &cf);
            w.check(c, "armassp_addto_w");
            if (room < (int)pat.size()) {
                if (rc >= 0) c.fail("result with %zu elements into room for %d returned %d", pat.size(), room, rc);
                if (cf.err() != ARMAS_ESIZE) c.fail("too small result reported as error %d", cf.err());
            } else {
                if (rc != 0) c.fail("armassp_addto_w returned %d (error %d)", rc, cf.err());
                sp_result(c, "sum", C.p, kind, r, ab, 8, pat);
            }
        }
    }
    sp_verify(c, "A", A);
    sp_verify(c, "B", B);
    c.nontrivial = nontriv(ea) && nontriv(eb);
}
TARGET(sparith, mult, 6)
{
    Dims dm(s);
    int m = dm(s, 1, 10, 70), n = dm(s, 1, 10, 70), k = dm(s, 1, 10, 70), kind = comp(s);
    if (s.chance(1, 3)) m = n = k;
    bool same = s.chance(1, 10);
    if (same && s.chance(1, 2)) m = n;
    int ta = s.below(2), tb = s.below(2), fl = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
    c.d("%s %dx%dx%d%s%s", kname(kind), m, n, k, ta ? " transA" : "", tb ? " transB" : "");
    same = same && (ta ? k : m) == (tb ? n : k) && (ta ? m : k) == (tb ? k : n);
    Ent ea = sp_pattern(s, c, ta ? k : m, ta ? m : k), eb = same ? ea : sp_pattern(s, c, tb ? n : k, tb ? k : n);
    Sp A = sp_build(s, c, ta ? k : m, ta ? m : k, ea, kind), B = sp_build(s, c, tb ? n : k, tb ? k : n, eb, kind);
    double al = coef(s);
    if (!ta && !tb && s.chance(1, 4)) { sp_shuffle(A, s.seed()); sp_shuffle(B, s.seed()); }
    c.d(" alpha=%g", al);
    if (same) { c.d(" B is A"); c.label("shared"); }
    auto *bp = same ? A.p : B.p;
    const Sp &Bx = same ? A : B;
    LM a = ta ? tr(A.lm()) : A.lm(), b = tb ? tr(Bx.lm()) : Bx.lm(), z(m, n);
    LM r = add(al, mul(a, b), 0, z), ab = add(std::fabs(al), mul(absm(a), absm(b)), 0, z);
    std::set<std::pair<int, int>> pat;
    Ent xa = ta ? transposed(ea) : ea, xb = tb ? transposed(eb) : eb;
    for (auto &p : xa) for (auto &q : xb) if (p.first.second == q.first.first) pat.insert({p.first.first, q.first.second});
    Conf cf = conf0();
    Sp C;
    if (s.chance(1, 2)) {
        C.p = armassp_mult(al, A.p, bp, fl, &cf);
        if (!C.p) oomnull(c, "armassp_mult", &cf);
        if (!C.p) c.fail("armassp_mult failed (error %d)", cf.err());
        sp_result(c, "product", C.p, kind, r, ab, 4.0 * (k + 4), pat);
    } else {
        armas_wbuf_t q = ARMAS_WBNULL;
        int room = (int)pat.size() + s.pickl({0, 0, 3, -1, -2});
        if (room < 0) room = 0;
        c.d(" room %d for %zu", room, pat.size());
        C.p = armassp_new(m, n, room, (armassp_type_enum)kind);
        if (!C.p) oomnull(c, "armassp_new");
        int rc = armassp_multto_w(C.p, al, A.p, bp, fl, &q, &cf);
        if (rc < 0) c.fail("workspace query returned %d", rc);
        WB w(s, q.bytes);
        for (int rep = s.range(1, 2); rep > 0; rep--) {
            rc = armassp_multto_w(C.p, al, A.p, bp, fl, &w.w, &cf);
            w.check(c, "armassp_multto_w");
            if (room < (int)pat.size()) {
                if (rc >= 0) c.fail("result with %zu elements into room for %d returned %d", pat.size(), room, rc);
                if (cf.err() != ARMAS_ESIZE) c.fail("too small result reported as error %d", cf.err());
            } else {
                if (rc != 0) c.fail("armassp_multto_w returned %d (error %d)", rc, cf.err());
                sp_result(c, "product", C.p, kind, r, ab, 4.0 * (k + 4), pat);
            }
        }
    }
    sp_verify(c, "A", A);
    sp_verify(c, "B", B);
    c.nontrivial = nontriv(ea) && nontriv(eb);
}
TARGET(sparith, chain, 3)
{   // results of sparse operations are operands of further ones: (A + A^T) * A, then back
    Dims dm(s);
    int n = dm(s, 1, 9, 50), kind = comp(s);
    c.d("%s %dx%d", kname(kind), n, n);
    Ent e = sp_pattern(s, c, n, n);
    Sp A = sp_build(s, c, n, n, e, kind);
    Conf cf = conf0();
    Sp S, T, Q, W;
    S.p = armassp_add(1.0, A.p, 1.0, A.p, ARMAS_TRANSB, &cf);
    if (!S.p) oomnull(c, "operation", &cf);
    if (!S.p) c.fail("sum failed");
    int sorted = s.below(2);
    if (sorted && armassp_sort(S.p) != 0) c.fail("sort of the sum failed");
    T.p = armassp_mult(1.0, S.p, A.p, 0, &cf);
    if (!T.p) oomnull(c, "operation", &cf);
    if (!T.p) c.fail("product failed");
    LM a = A.lm(), sm = add(1, a, 1, tr(a)), pr = mul(sm, a), ab = mul(add(1, absm(a), 1, absm(tr(a))), absm(a));
    int o = kind == ARMASSP_CSR ? ARMASSP_CSC : ARMASSP_CSR;
    Q.p = armassp_convert(T.p, (armassp_type_enum)o);
    W.p = Q.p ? armassp_transpose(Q.p) : nullptr;
    if (!Q.p || !W.p) oomnull(c, "operation");
    if (!Q.p || !W.p) c.fail("conversion of the product failed");
    std::set<std::pair<int, int>> pat, patt;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { pat.insert({i, j}); }
    sp_result(c, "product", T.p, kind, pr, ab, 4.0 * (n + 6), pat);
    sp_result(c, "converted product", Q.p, o, pr, ab, 4.0 * (n + 6), pat);
    sp_result(c, "transposed product", W.p, o, tr(pr), tr(ab), 4.0 * (n + 6), pat);
    c.nontrivial = nontriv(e);
}
TARGET(sparith, accum, 3)
{
    Dims dm(s);
    int n = dm(s, 1, 12, 300), rows_ = dm(s, 1, 6, 100);
    c.d("n=%d rows=%d", n, rows_);
    armas_accum_t acc;
    memset(&acc, 0x5a, sizeof acc);
    bool own = s.below(2);
    size_t nb = armas_accum_bytes(n);
    char *mem = (char *)case_alloc(nb);
    memset(mem, s.pickl({0, 0xff}), nb);
    if (own) { if (armas_accum_allocate(&acc, n) != 0) { oomnull(c, "armas_accum_allocate"); c.fail("armas_accum_allocate failed"); } }
    else {
        if (armas_accum_make(&acc, n, mem, nb - 1) != 0) c.fail("too small block accepted");
        if (armas_accum_make(&acc, n, mem, nb) == 0) c.fail("block of the needed size refused");
    }
    armas_accum_clear(&acc);
    int room = s.range(0, rows_ * n);
    Sp C;
    C.p = armassp_new(rows_, n, room, ARMASSP_CSR);
    if (!C.p && own) armas_accum_release(&acc);
    if (!C.p) oomnull(c, "armassp_new");
    C.p->nnz = 0;
    Rng g(s.seed());
    Ent all;
    bool full = false;
    double al = s.pickl({1.0, -2.0, 0.5});
    for (int i = 0; i < rows_; i++) {
        std::map<int, double> row;
        int nop = s.range(0, 4);
        for (int q = 0; q < nop; q++) {
            int op = s.below(3);
            std::set<int> ix, iy;
            for (int k = s.below(n + 1); k > 0; k--) ix.insert(g.below(n));
            for (int k = s.below(n + 1); k > 0; k--) iy.insert(g.below(n));
            std::vector<int> xi(ix.begin(), ix.end()), yi(iy.begin(), iy.end());
            std::vector<double> xv(xi.size() + 1), yv(yi.size() + 1);
            for (auto &v : xv) v = g.below(9) - 4;
            for (auto &v : yv) v = g.below(9) - 4;
            armas_spvec_t x = {xv.data(), xi.data(), (int)xi.size()}, y = {yv.data(), yi.data(), (int)yi.size()};
            if (op == 0) {
                int k = g.below(n);
                double v = g.below(9) - 4;
                armas_accum_addpos(&acc, k, v, i);
                row[k] += v;
            } else if (op == 1) {
                double b = g.below(5) - 2;
                armas_accum_scatter(&acc, &x, b, i);
                for (size_t k = 0; k < xi.size(); k++) row[xi[k]] += b * xv[k];
            } else {
                int k = g.below(n);
                armas_accum_dot(&acc, k, &x, &y, i);
                bool hit = false;
                double v = 0;
                for (size_t a = 0; a < xi.size(); a++) for (size_t b = 0; b < yi.size(); b++) if (xi[a] == yi[b]) { hit = true; v += xv[a] * yv[b]; }
                if (hit) row[k] += v;
            }
        }
        int before = C.p->nnz;
        int rc = armas_accum_gather(C.p, al, &acc, i, room);
        if (before + (int)row.size() > room) {
            if (rc >= 0) c.fail("%zu elements gathered into room for %d returned %d", row.size(), room - before, rc);
            if (C.p->nnz != before) c.fail("refused gather changed the number of elements");
            full = true;
            break;
        }
        if (rc < 0) c.fail("%zu elements gathered into room for %d returned %d", row.size(), room - before, rc);
        acc.tail = 0;
        for (auto &x : row) all[{i, x.first}] = al * x.second;
    }
    if (!full) {
        C.p->ptr[rows_] = C.p->nnz;
        C.p->nptr = rows_;
        sp_verify(c, "gathered", C.p, rows_, n, ARMASSP_CSR, all, false);
    }
    if (own) armas_accum_release(&acc);
    c.nontrivial = all.size() > 2;
}
TARGET(sparith, invalid, 3)
{   // operands that do not fit are refused and left alone
    int op = s.below(6), kind = s.below(3);
    int m = s.range(1, 6), n = s.range(1, 6);
    c.d("op %d %s %dx%d", op, kname(kind), m, n);
    Ent e = sp_pattern(s, c, m, n, true);
    Sp A = sp_build(s, c, m, n, e, kind);
    Conf cf = conf0();
    bool coo = kind == ARMASSP_COO;
    if (op <= 3) {
        int dx = s.pickl({0, 0, 1, -1, 2}), dy = s.pickl({0, 0, 1, -1, 2});
        int tr = op == 0 && s.below(2) ? ARMAS_TRANS : 0;
        int lx = std::max(0, (tr ? m : n) + dx), ly = std::max(0, (tr ? n : m) + dy);
        bool badvec = s.chance(1, 6);
        Mat x = badvec && lx > 1 ? mk(s, 2, lx) : mkvec(s, lx), y = mkvec(s, ly);
        badvec = badvec && lx > 1;
        if (x.n()) fill(s, x);
        if (y.n()) fill(s, y);
        x.snapshot(); y.snapshot();
        bool ok;
        int rc;
        if (op == 0) { ok = !coo && x.n() == (tr ? m : n) && y.n() == (tr ? n : m); rc = armassp_mvmult(0.5, &y, 2.0, A.p, &x, tr, &cf); if (y.n() == 0 && (tr ? n : m) == 0) ok = true; }
        else if (op == 1) { ok = !coo && m == n && x.n() == n && y.n() == n; rc = armassp_mvmult_sym(0.5, &y, 2.0, A.p, &x, ARMAS_LOWER, &cf); }
        else if (op == 2) { ok = !coo && m == n && x.n() == n; rc = armassp_mvmult_trm(&x, 2.0, A.p, ARMAS_UPPER, &cf); }
        else { ok = !coo && m == n && x.n() == n; rc = armassp_mvsolve_trm(&x, 2.0, A.p, ARMAS_UPPER | ARMAS_UNIT, &cf); }
        if (ok && badvec) { if (rc >= 0) c.fail("matrix operand accepted as a vector"); if (cf.err() != ARMAS_ENEED_VECTOR) c.fail("matrix in place of a vector reported as %d", cf.err()); ok = false; }
        else if (ok && rc != 0) c.fail("valid operands refused (%d)", rc);
        if (!ok) {
            if (rc >= 0) c.fail("operation %d on %s %dx%d with vectors of %d and %d elements returned %d", op, kname(kind), m, n, x.n(), y.n(), rc);
            if (cf.err() == 0) c.fail("failed operation %d did not set error", op);
            if (!memcmp(x.base, x.snap.data(), x.len * sizeof(double)) == 0 || !memcmp(y.base, y.snap.data(), y.len * sizeof(double)) == 0) c.fail("refused operation %d changed an operand", op);
        }
        sp_verify(c, "operand", A);
        c.nontrivial = !ok;
        return;
    }
    int k2 = s.below(3), m2 = s.chance(1, 2) ? (op == 4 ? m : n) : s.range(1, 6), n2 = s.chance(1, 2) ? n : s.range(1, 6);
    Ent e2 = sp_pattern(s, c, m2, n2);
    Sp B = sp_build(s, c, m2, n2, e2, k2);
    int fl = (s.below(2) ? ARMAS_TRANSA : 0) | (s.below(2) ? ARMAS_TRANSB : 0);
    int ar = fl & ARMAS_TRANSA ? n : m, ac = fl & ARMAS_TRANSA ? m : n, br = fl & ARMAS_TRANSB ? n2 : m2, bc = fl & ARMAS_TRANSB ? m2 : n2;
    bool ok = kind == k2 && !coo && (op == 4 ? ar == br && ac == bc : ac == br);
    Sp C;
    C.p = op == 4 ? armassp_add(1.0, A.p, 2.0, B.p, fl, &cf) : armassp_mult(1.0, A.p, B.p, fl, &cf);
    c.d(" with %s %dx%d flags %x", kname(k2), m2, n2, fl);
    if (ok && !C.p) oomnull(c, "sum/product", &cf);
    if (ok != (C.p != nullptr)) c.fail("%s of %s %dx%d and %s %dx%d flags %x: %s", op == 4 ? "sum" : "product", kname(kind), m, n, kname(k2), m2, n2, fl, ok ? "valid operands refused" : "result for operands that do not fit");
    if (!ok && cf.err() == 0) c.fail("failed operation did not set error");
    if (ok) {
        // result matrix of wrong dimensions or kind
        int ck = s.chance(1, 3) ? s.below(3) : kind, cm = ar + s.pickl({0, 1, -1}), cn = bc + s.pickl({0, 1, -1});
        cm = std::max(cm, 0); cn = std::max(cn, 0);
        bool fits = ck == kind && cm == ar && cn == bc;
        Sp D;
        D.p = armassp_new(cm, cn, ar * bc, (armassp_type_enum)ck);
        if (!D.p) oomnull(c, "armassp_new");
        armas_wbuf_t q = ARMAS_WBNULL;
        size_t need = armas_accum_bytes(std::max(ar, bc)) + 64;
        q.buf = (char *)case_alloc(need);
        q.bytes = need;
        cf.clear();
        int rc = op == 4 ? armassp_addto_w(D.p, 1.0, A.p, 2.0, B.p, fl, &q, &cf) : armassp_multto_w(D.p, 1.0, A.p, B.p, fl, &q, &cf);
        if (fits != (rc == 0)) c.fail("result %s %dx%d for %s %dx%d returned %d", kname(ck), cm, cn, kname(kind), ar, bc, rc);
        if (!fits && cf.err() == 0) c.fail("refused result did not set error");
        armas_wbuf_t z = ARMAS_WBNULL;
        char small_[8];
        z.buf = small_; z.bytes = 8;
        if (fits && ar * bc > 0) {
            rc = op == 4 ? armassp_addto_w(D.p, 1.0, A.p, 2.0, B.p, fl, &z, &cf) : armassp_multto_w(D.p, 1.0, A.p, B.p, fl, &z, &cf);
            if (rc >= 0 || cf.err() != ARMAS_EWORK) c.fail("8 bytes of workspace: returned %d error %d", rc, cf.err());
        }
    }
    sp_verify(c, "A", A);
    sp_verify(c, "B", B);
    c.nontrivial = true;
}

// ================================================================== solvers
static LM inv_lm(const LM &A)     // Gauss-Jordan with partial pivoting, empty if singular
{
    int n = A.r;
    LM W = A, X = eye(n);
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (fabsl(W(i, k)) > fabsl(W(p, k))) p = i;
        if (!(fabsl(W(p, k)) > 0)) return LM();
        for (int j = 0; j < n; j++) { std::swap(W(k, j), W(p, j)); std::swap(X(k, j), X(p, j)); }
        LD d = W(k, k);
        for (int j = 0; j < n; j++) { W(k, j) /= d; X(k, j) /= d; }
        for (int i = 0; i < n; i++) if (i != k) {
            LD f = W(i, k);
            if (f == 0) continue;
            for (int j = 0; j < n; j++) { W(i, j) -= f * W(k, j); X(i, j) -= f * X(k, j); }
        }
    }
    return X;
}
// diagonally dominant with given pattern: sums of off diagonal elements of row and of column <= delta * scale
static Ent dominant(Src &s, Case &c, int n, bool sym, double delta, double lo, double hi)
{
    Ent p = sp_pattern(s, c, n, n, true);
    Rng g(s.seed());
    Ent e;
    std::vector<double> rs(n), cs(n);
    for (auto &x : p) {
        int i = x.first.first, j = x.first.second;
        if (i == j) continue;
        if (sym && i < j && !p.count({j, i})) continue;
        double v = g.sym();
        if (v == 0) v = 0.5;
        if (sym) {
            if (i < j) continue;
            e[{i, j}] = v; e[{j, i}] = v;
            rs[i] += std::fabs(v); rs[j] += std::fabs(v); cs[i] += std::fabs(v); cs[j] += std::fabs(v);
        } else { e[{i, j}] = v; rs[i] += std::fabs(v); cs[j] += std::fabs(v); }
    }
    double mx = 0;
    for (int i = 0; i < n; i++) mx = std::max(mx, std::max(rs[i], cs[i]));
    if (mx > 0) for (auto &x : e) x.second *= delta * lo / mx;
    for (int i = 0; i < n; i++) e[{i, i}] = lo + (hi - lo) * g.unit();
    return e;
}
static Ent triangle(const Ent &e, bool up)
{
    Ent t;
    for (auto &x : e) if (up ? x.first.first <= x.first.second : x.first.first >= x.first.second) t.insert(x);
    return t;
}
static LM applys(const LM &A, const LM &x) { return mul(A, x); }
enum { S_CG, S_PCG, S_CGNR, S_CGNE, S_GMRES, S_PGMRES };
static const char *sname[] = {"cgrad", "pcgrad", "cgnr", "cgne", "gmres", "pgmres"};
static void solver(Src &s, Case &c, int which)
{
    int big = mode.thorough ? 60 : 22;
    if (Dims(s, 64).big) big = 90;
    if (mode.maxdim > 0) big = std::min(big, mode.maxdim);
    int n = s.range(1, big), m = n, kind = comp(s);
    bool sym = which == S_CG || which == S_PCG, up = s.below(2);
    if (which == S_CGNR) m = n + (s.chance(1, 2) ? s.range(0, 8) : 0);
    if (which == S_CGNE) n = m + (s.chance(1, 2) ? s.range(0, 8) : 0);
    int kk = std::min(m, n);
    bool hard = (which == S_GMRES || which == S_PGMRES) && s.chance(1, 3);
    double delta = s.pickl({0.5, 0.8, 0.1}), hi = s.pickl({2.0, 1.0, 8.0});
    double scale = s.chance(1, 5) ? std::ldexp(1.0, s.range(0, 40) - 20) : 1.0;
    c.d("%s %s %dx%d %s delta=%g scale=%g%s", sname[which], kname(kind), m, n, sym ? (up ? "upper" : "lower") : "", delta, scale, hard ? " general" : "");
    Ent e;
    if (hard) {
        e = sp_pattern(s, c, n, n, true);
        for (int i = 0; i < n; i++) { double &d = e[{i, i}]; if (d == 0) d = 1; }
    } else e = dominant(s, c, kk, sym, delta, 1.0, hi);
    Rng g(s.seed());
    if (m != n) {   // further equations or unknowns
        Ent p = sp_pattern(s, c, std::abs(m - n), kk);
        for (auto &x : p) {
            int q = kk + x.first.first, r = x.first.second;
            double v = g.sym();
            if (m > n) e[{q, r}] = v; else e[{r, q}] = v;
        }
    }
    int x0 = s.weighted({5, 3, 1, 1});
    if (x0 == 2) for (auto &x : e) { x.second = std::nearbyint(x.second * 1024) / 1024; if (hard && x.first.first == x.first.second && x.second == 0) x.second = 1; }   // products are exact
    for (auto &x : e) x.second *= scale;
    Ent full = e;
    if (sym) e = s.chance(1, 4) ? full : triangle(full, up);       // only the triangle is referenced
    Sp A = sp_build(s, c, m, n, e, kind);
    LM D(m, n);
    for (auto &x : full) D(x.first.first, x.first.second) = x.second;
    Mat x = mkvec(s, n), b = mkvec(s, m);
    fill_mode(b, DM_UNI, s.seed());
    if (s.chance(1, 5)) { double f = std::ldexp(1.0, s.range(0, 60) - 30); for (int k = 0; k < m; k++) b.v(k) *= f; }
    if (x0 == 1) fill_mode(x, DM_UNI, s.seed()); else for (int k = 0; k < n; k++) x.v(k) = 0;
    if (x0 == 2) {     // initial value is the exact solution
        for (int k = 0; k < n; k++) x.v(k) = g.below(9) - 4;
        LM r = applys(D, x.lmv());
        for (int k = 0; k < m; k++) b.v(k) = (double)r(k, 0);
        c.d(" x0=solution");
    }
    if (x0 == 3) for (int k = 0; k < m; k++) b.v(k) = 0;
    Conf cf = conf0();
    double tol = std::pow(10.0, -(double)s.range(1, 13));
    LM bv = b.lmv(), xv0 = x.lmv(), r0 = sub(bv, applys(D, xv0));
    LD n0 = normF(r0), nA = normF(D);
    int tsel = s.below(3);   // 0 default, 1 relative, 2 absolute
    LD crit;
    const LD EPSL = DBL_EPSILON;
    if (tsel == 1) { cf.smult = tol; crit = tol * n0; }
    else if (tsel == 2) {
        cf.stop = (double)(tol * (n0 > 0 ? n0 : 1.0L));
        if (s.chance(1, 2)) cf.smult = 1e-3;     // absolute value goes first
        crit = cf.stop;
    } else crit = (which == S_GMRES ? n * EPSL : EPSL) * n0;
    LD critf = tsel ? crit : crit / 2;     // machine epsilon or unit roundoff
    int maxsel = s.below(3);
    if (maxsel == 1) cf.maxiter = s.range(1, 12);
    if (maxsel == 2) cf.maxiter = 300 + 10 * n;
    if (which >= S_GMRES && s.chance(2, 3)) cf.gmres_m = s.range(1, n + 3);
    int dmax = which == S_CG ? 4 * n : which == S_PCG ? 2 * n : which <= S_CGNE ? 2 * m : 5 * n;
    int maxit = cf.maxiter > 0 ? cf.maxiter : dmax;
    c.d(" x=%s b=%s stop=%g smult=%g maxiter=%d m=%d", sh(x).c_str(), sh(b).c_str(), cf.stop, cf.smult, cf.maxiter, cf.gmres_m);
    // preconditioner
    Sp F;
    armassp_precond_t P;
    memset(&P, 0, sizeof P);
    LM Minv;
    LD nMinv = 1, condM = 1;
    if (which == S_PCG || which == S_PGMRES) {
        F = sp_build(s, c, n, n, which == S_PCG ? (s.chance(1, 4) ? full : triangle(full, up)) : e, s.chance(1, 4) ? comp(s) : kind);
        int rc = which == S_PCG ? armassp_init_icholz(&P, F.p, up ? ARMAS_UPPER : ARMAS_LOWER) : armassp_init_iluz(&P, F.p);
        if (rc == -ARMAS_ESINGULAR && hard) c.discard();
        if (rc != 0) c.fail("preconditioner of a %s matrix returned %d", hard ? "general" : "diagonally dominant", rc);
        LM f(n, n);
        for (int q = 0; q < n; q++) for (int k = F.p->ptr[q]; k < F.p->ptr[q + 1]; k++) (F.p->kind == ARMASSP_CSR ? f(q, F.p->ix[k]) : f(F.p->ix[k], q)) = F.p->elems.v[k];
        LM M;
        if (which == S_PCG) { LM t = tri(f, up, false); M = up ? mul(tr(t), t) : mul(t, tr(t)); }
        else M = mul(tri(f, false, true), tri(f, true, false));
        if (!all_finite(M)) c.discard();
        Minv = inv_lm(M);
        if (!Minv.r) c.discard();
        nMinv = normF(Minv);
        condM = nMinv * normF(M);
        if (which == S_PGMRES) { LM l = tri(f, false, true), u = tri(f, true, false), li = inv_lm(l), ui = inv_lm(u); if (!li.r || !ui.r) c.discard(); condM = normF(l) * normF(u) * normF(li) * normF(ui) / n; }
        if (hard && condM > 1e5L) c.discard();
    }
    LD nAi;
    if (m == n) { LM I = inv_lm(D); if (!I.r) c.discard(); nAi = normF(I); }
    else nAi = 1 / ((1 - delta) * scale) * sqrtl((LD)kk);
    if (nAi * nA > 1e6L) c.discard();
    x.snapshot(); b.snapshot();
    int rc = 0;
    int flg = up ? ARMAS_UPPER : ARMAS_LOWER;
    auto keep = [&](int r) { rc = r; return r == -ARMAS_ECONVERGE ? 0 : r; };
    auto plain = [&]() -> int {
        switch (which) {
        case S_CG: return keep(armassp_cgrad(&x, A.p, &b, flg, &cf));
        case S_PCG: return keep(armassp_pcgrad(&x, A.p, &b, &P, flg, &cf));
        case S_CGNR: return keep(armassp_cgnr(&x, A.p, &b, &cf));
        case S_CGNE: return keep(armassp_cgne(&x, A.p, &b, &cf));
        case S_GMRES: return keep(armassp_gmres(&x, A.p, &b, &cf));
        default: return keep(armassp_pgmres(&x, A.p, &b, &P, &cf));
        }
    };
    auto work = [&](armas_wbuf_t *w) -> int {
        switch (which) {
        case S_CG: return keep(armassp_cgrad_w(&x, A.p, &b, flg, w, &cf));
        case S_PCG: return keep(armassp_pcgrad_w(&x, A.p, &b, &P, flg, w, &cf));
        case S_CGNR: return keep(armassp_cgnr_w(&x, A.p, &b, w, &cf));
        case S_CGNE: return keep(armassp_cgne_w(&x, A.p, &b, w, &cf));
        case S_GMRES: return keep(armassp_gmres_w(&x, A.p, &b, w, &cf));
        default: return keep(armassp_pgmres_w(&x, A.p, &b, &P, w, &cf));
        }
    };
    if (!wcall(s, c, cf, sname[which], {x, b}, plain, work)) return;
    cf.sync();
    c.nontrivial = n > 2;
    sp_verify(c, "operand", A);
    frame_const(c, b, "b");
    frame_result(c, x, "x");
    if (!mode.value) return;
    if (rc != 0 && rc != -ARMAS_ECONVERGE) c.fail("returned %d", rc);
    if (rc != 0 && cf.err() != ARMAS_ECONVERGE) c.fail("failure to converge is reported as error %d", cf.err());
    // what it claims
    int mg = cf.gmres_m > 0 ? cf.gmres_m : 6;
    int lim = which >= S_GMRES ? ((maxit + mg - 1) / mg) * mg + mg : maxit;
    if (cf.numiters < 0 || cf.numiters > lim) c.fail("%d iterations reported, %d allowed", cf.numiters, maxit);
    LM xv = x.lmv();
    if (hard && rc != 0) { c.label("not-converged"); return; }
    need_finite(c, "x", x);
    LM r = sub(bv, applys(D, xv));
    LD err = 40 * UEPS * (cf.numiters + n + 10) * (nA * (normF(xv) + normF(xv0) + nAi * n0) + normF(bv)) + 1e-300L;
    LD t = normF(r), rep = cf.residual, bound = err;
    if (which == S_CGNR) { t = normF(mul(tr(D), r)); bound = err * nA; }
    if (which == S_PCG) { LM z = mul(Minv, r); LD q = 0; for (int i = 0; i < n; i++) q += z(i, 0) * r(i, 0); t = q > 0 ? sqrtl(q) : 0; bound = err * sqrtl(nMinv); }
    if (which == S_PGMRES) bound *= (1 + nMinv * normF(D)) * condM;
    if (!(fabsl(t - rep) <= bound)) c.fail("residual is reported as %Lg, it is %Lg (rounding %Lg), %d iterations", rep, t, bound, cf.numiters);
    if (rc == 0) {
        if (!(t <= crit * (1 + 1e-10L) + bound)) c.fail("success is reported after %d iterations, residual is %Lg, criterion %Lg (rounding %Lg)", cf.numiters, t, crit, bound);
        c.label("converged");
    } else {
        if (!(rep >= critf * (1 - 1e-10L))) c.fail("failure is reported with residual %Lg, criterion is %Lg", rep, crit);
        if (cf.numiters < maxit) c.fail("failure to converge is reported after %d iterations, %d are allowed", cf.numiters, maxit);
        c.label("not-converged");
    }
    if (n0 == 0 && (cf.numiters != 0 || rc != 0)) c.fail("%d iterations (status %d) from the exact solution", cf.numiters, rc);
    if (n0 == 0) for (int k = 0; k < n; k++) if (!((LD)x.v(k) == xv0(k, 0))) c.fail("exact initial value was changed");
    // documented kind of well conditioned systems are solved
    if (rc != 0 && !hard && which < S_GMRES && delta <= 0.5 && hi <= 2 && m == n && scale == 1 && (maxsel == 2 || (maxsel == 0 && tsel == 1 && tol >= 1e-9 && n >= 12)) && crit >= 1e-13L * n0) c.fail("well conditioned system is not solved in %d iterations", cf.numiters);
    if (rc != 0 && !hard && which >= S_GMRES && maxsel == 2 && scale == 1 && delta <= 0.5 && crit >= 1e-12L * n0) c.fail("well conditioned system is not solved in %d iterations", cf.numiters);
    if (rc == 0 && which == S_CGNE && m < n) {     // nearest solution to the initial value: x - x0 in range of A'
        LM At = tr(D), dx = sub(xv, xv0), G = inv_lm(mul(D, At));
        if (G.r) {
            LM rest = sub(dx, mul(At, mul(G, mul(D, dx))));
            if (!(normF(rest) <= 1e3L * UEPS * (cf.numiters + n) * (normF(xv) + normF(xv0) + nAi * n0) * (1 + nAi * nA) * (1 + nAi * nA))) c.fail("solution has a component of %Lg outside of the row space", normF(rest));
        }
    }
}
TARGET(spsolve, cgrad, 6) { solver(s, c, S_CG); }
TARGET(spsolve, pcgrad, 6) { solver(s, c, S_PCG); }
TARGET(spsolve, cgnr, 5) { solver(s, c, S_CGNR); }
TARGET(spsolve, cgne, 5) { solver(s, c, S_CGNE); }
TARGET(spsolve, gmres, 6) { solver(s, c, S_GMRES); }
TARGET(spsolve, pgmres, 6) { solver(s, c, S_PGMRES); }

static bool fillfree(const Ent &e, int n)
{
    for (int k = 0; k < n; k++)
        for (auto &a : e) if (a.first.second == k && a.first.first > k)
            for (int j = k + 1; j < n; j++) if (e.count({k, j}) && !e.count({a.first.first, j})) return false;
    return true;
}
static Ent stored(const armas_sparse_t *A)
{
    Ent e;
    for (int q = 0; q < A->nptr; q++) for (int k = A->ptr[q]; k < A->ptr[q + 1]; k++) e[A->kind == ARMASSP_CSR ? std::make_pair(q, A->ix[k]) : std::make_pair(A->ix[k], q)] = A->elems.v[k];
    return e;
}
TARGET(spsolve, iluz, 6)
{
    Dims dm(s);
    int n = dm(s, 1, mode.thorough ? 40 : 16, 60), kind = comp(s);
    bool dom = s.chance(2, 3), miss = s.chance(1, 8);
    c.d("%s %dx%d", kname(kind), n, n);
    Ent e;
    if (dom) e = dominant(s, c, n, false, 0.8, 1, 4);
    else {
        e = sp_pattern(s, c, n, n, true);
        for (int i = 0; i < n; i++) { double &d = e[{i, i}]; d += d < 0 ? -2 : 2; }
    }
    int drop = s.below(n);
    if (miss) { e.erase({drop, drop}); c.d(" without diagonal %d", drop); }
    Sp A = sp_build(s, c, n, n, e, kind);
    armassp_precond_t P;
    memset(&P, 0x5a, sizeof P);
    bool init = s.below(2);
    int rc = init ? armassp_init_iluz(&P, A.p) : armassp_iluz(A.p);
    if (miss) {
        if (rc >= 0) c.fail("matrix without diagonal element %d returned %d", drop, rc);
        c.nontrivial = true;
        return;
    }
    if (rc == -ARMAS_ESINGULAR && !dom) {   // a pivot that is exactly zero
        LM W(n, n);
        for (auto &x : e) W(x.first.first, x.first.second) = x.second;
        LD least = 1;
        for (int k = 0; k < n; k++) {
            least = std::min(least, fabsl(W(k, k)));
            if (W(k, k) == 0) break;
            for (int i = k + 1; i < n; i++) if (e.count({i, k})) {
                W(i, k) /= W(k, k);
                for (int j = k + 1; j < n; j++) if (e.count({i, j}) && e.count({k, j})) W(i, j) -= W(i, k) * W(k, j);
            }
        }
        if (!(least <= 1e-6L)) c.fail("matrix with pivots not less than %Lg is reported to be singular", least);
        c.label("zero-pivot");
        return;
    }
    if (rc != 0) c.fail("returned %d", rc);
    Ent f = stored(A.p);
    for (auto &x : f) if (!std::isfinite(x.second)) c.fail("element (%d,%d) of the factor is %g", x.first.first, x.first.second, x.second);
    sp_verify(c, "factor", A.p, n, n, kind, f, true);
    if (f.size() != e.size()) c.fail("pattern changed");
    LM F(n, n);
    for (auto &x : f) {
        if (!e.count(x.first)) c.fail("pattern changed at (%d,%d)", x.first.first, x.first.second);
        F(x.first.first, x.first.second) = x.second;
        if (x.first.first == x.first.second && !(std::fabs(x.second) > 1e-6)) c.discard();
    }
    if (!all_finite(F)) c.discard();
    LM L = tri(F, false, true), U = tri(F, true, false), R = mul(L, U), AB = mul(absm(L), absm(U));
    bool ff = fillfree(e, n);
    if (ff) c.label("no-fill"); else c.label("fill");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        auto it = e.find({i, j});
        if (it == e.end() && !ff) continue;
        LD a = it == e.end() ? 0 : it->second;
        if (!(fabsl(R(i, j) - a) <= 8 * (n + 4) * UEPS * (AB(i, j) + fabsl(a)))) c.fail("(LU)(%d,%d) is %.17Lg, matrix element is %.17Lg%s", i, j, R(i, j), a, ff ? " (no fill)" : "");
    }
    if (init) {
        Mat x = mkvec(s, n), z = mkvec(s, n);
        fill_mode(x, DM_UNI, s.seed());
        fill_mode(z, DM_UNI, 1);
        Conf cf = conf0();
        bool alias = s.chance(1, 3);
        if (P.M != A.p || P.partial != nullptr) c.fail("preconditioner is not initialized");
        LM xv = x.lmv();
        x.snapshot();
        rc = P.precond(alias ? &x : &z, &P, &x, &cf);
        if (rc != 0) c.fail("preconditioner returned %d", rc);
        if (!alias) frame_const(c, x, "x");
        Mat &q = alias ? x : z;
        LM zv = q.lmv(), r = sub(mul(R, zv), xv);
        LM ab = mul(AB, absm(zv));
        for (int i = 0; i < n; i++) if (!(fabsl(r(i, 0)) <= 40 * (n + 4) * UEPS * (normF(AB) * normF(zv) + fabsl(xv(i, 0))))) c.fail("preconditioner: LUz - x is %Lg in element %d", r(i, 0), i);
    }
    c.nontrivial = e.size() > 4;
}
TARGET(spsolve, icholz, 6)
{
    Dims dm(s);
    int n = dm(s, 1, mode.thorough ? 40 : 16, 60), kind = comp(s), up = s.below(2);
    int what = s.weighted({8, 1, 1});
    c.d("%s %dx%d %s", kname(kind), n, n, up ? "upper" : "lower");
    Ent full = dominant(s, c, n, true, s.pickl({0.8, 0.95, 0.3}), 1, 4), e = s.chance(1, 3) ? full : triangle(full, up);
    int at = s.below(n);
    if (what == 1) { e.erase({at, at}); c.d(" without diagonal %d", at); }
    if (what == 2) { e[{at, at}] = s.pickl({-1.0, 0.0}); c.d(" diagonal %d not positive", at); }
    // elements of other triangle are not referenced
    bool junk = s.below(2);
    if (junk) for (auto &x : e) if (up ? x.first.first > x.first.second : x.first.first < x.first.second) x.second = 1e20;
    Sp A = sp_build(s, c, n, n, e, kind);
    int fl = up ? ARMAS_UPPER : s.pickl({ARMAS_LOWER, 0});
    armassp_precond_t P;
    memset(&P, 0x5a, sizeof P);
    bool init = s.below(2);
    int rc = init ? armassp_init_icholz(&P, A.p, fl) : armassp_icholz(A.p, fl);
    if (what) {
        if (rc >= 0) c.fail("returned %d", rc);
        if (rc != (what == 1 ? -ARMAS_ESINGULAR : -ARMAS_ENEGATIVE)) c.fail("returned %d for a matrix %s", rc, what == 1 ? "without diagonal element" : "that is not positive definite");
        c.nontrivial = true;
        return;
    }
    if (rc != 0) c.fail("returned %d for a positive definite matrix", rc);
    Ent f = stored(A.p);
    sp_verify(c, "factor", A.p, n, n, kind, f, true);
    if (f.size() != e.size()) c.fail("pattern changed");
    LM F(n, n);
    for (auto &x : f) {
        int i = x.first.first, j = x.first.second;
        auto it = e.find(x.first);
        if (it == e.end()) c.fail("pattern changed at (%d,%d)", i, j);
        bool in = up ? i <= j : i >= j;
        if (!in && !(x.second == it->second)) c.fail("element (%d,%d) of the other triangle changed", i, j);
        if (in) F(i, j) = x.second;
    }
    if (!all_finite(F)) c.fail("factor is not finite");
    LM L = up ? tr(F) : F, R = mul(L, tr(L)), AB = mul(absm(L), absm(tr(L)));
    Ent ef = triangle(full, false);
    Ent sy = ef;
    for (auto &x : ef) sy[{x.first.second, x.first.first}] = x.second;
    bool ff = fillfree(sy, n);
    if (ff) c.label("no-fill"); else c.label("fill");
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
        auto it = sy.find({i, j});
        if (it == sy.end() && !ff) continue;
        LD a = it == sy.end() ? 0 : it->second;
        if (!(fabsl(R(i, j) - a) <= 8 * (n + 4) * UEPS * (AB(i, j) + fabsl(a)))) c.fail("(LL')(%d,%d) is %.17Lg, matrix element is %.17Lg%s", i, j, R(i, j), a, ff ? " (no fill)" : "");
    }
    if (init) {
        Mat x = mkvec(s, n), z = mkvec(s, n);
        fill_mode(x, DM_UNI, s.seed());
        fill_mode(z, DM_UNI, 1);
        Conf cf = conf0();
        bool alias = s.chance(1, 3);
        int part = s.below(3);
        if (P.M != A.p || !P.precond || !P.partial) c.fail("preconditioner is not initialized");
        LM xv = x.lmv();
        x.snapshot();
        armas_dense_t *zp = alias ? &x : &z;
        rc = part == 0 ? P.precond(zp, &P, &x, &cf) : P.partial(zp, &P, &x, part == 1 ? 0 : ARMAS_TRANS, &cf);
        if (rc != 0) c.fail("preconditioner returned %d", rc);
        if (!alias) frame_const(c, x, "x");
        Mat &q = alias ? x : z;
        LM T = part == 0 ? R : part == 1 ? F : tr(F);
        LM zv = q.lmv(), r = sub(mul(T, zv), xv);
        if (!(normF(r) <= 40 * (n + 4) * UEPS * ((part == 0 ? normF(AB) : normF(F)) * normF(zv) + normF(xv)))) c.fail("preconditioner %d: residual %Lg", part, normF(r));
    }
    c.nontrivial = e.size() > 4;
}
TARGET(spsolve, invalid, 2)
{
    int which = s.below(6), m = s.range(1, 6), n = s.chance(1, 2) ? m : s.range(1, 6);
    Ent e = sp_pattern(s, c, m, n, true);
    for (auto &x : e) if (x.first.first == x.first.second) x.second = 10;
    Sp A = sp_build(s, c, m, n, e, comp(s));
    int dx = s.pickl({0, 0, 1, -1}), db = s.pickl({0, 0, 1, -1});
    int bad = s.chance(1, 5) ? s.range(1, 2) : 0;     // matrices in place of vectors
    Mat x = bad == 1 ? mk(s, 2, std::max(1, n + dx)) : mkvec(s, std::max(1, n + dx)), b = bad == 2 ? mk(s, 2, std::max(1, m + db)) : mkvec(s, std::max(1, m + db));
    fill(s, x); fill(s, b);
    x.snapshot(); b.snapshot();
    c.d("%s %dx%d x=%s b=%s", sname[which], m, n, sh(x).c_str(), sh(b).c_str());
    bool sq = which == S_CG || which == S_PCG || which >= S_GMRES;
    bool ok = x.n() == n && b.n() == m && (!sq || m == n);
    if (bad == 1 && x.r() > 1 && x.c() > 1) ok = false;
    if (bad == 2 && b.r() > 1 && b.c() > 1) ok = false;
    if (ok) c.discard();
    Conf cf = conf0();
    armassp_precond_t P;
    memset(&P, 0, sizeof P);
    P.precond = [](armas_dense_t *z, const armassp_precond *, const armas_dense_t *y, armas_conf_t *f) -> int { if (z != y) armas_copy(z, y, f); return 0; };
    armas_wbuf_t wb = ARMAS_WBNULL;
    bool w = s.below(2);
    if (w) { wb.bytes = 20000; wb.buf = (char *)case_alloc(20000); }
    int rc = 0;
    switch (which) {
    case S_CG: rc = w ? armassp_cgrad_w(&x, A.p, &b, ARMAS_LOWER, &wb, &cf) : armassp_cgrad(&x, A.p, &b, ARMAS_LOWER, &cf); break;
    case S_PCG: rc = w ? armassp_pcgrad_w(&x, A.p, &b, &P, ARMAS_LOWER, &wb, &cf) : armassp_pcgrad(&x, A.p, &b, &P, ARMAS_LOWER, &cf); break;
    case S_CGNR: rc = w ? armassp_cgnr_w(&x, A.p, &b, &wb, &cf) : armassp_cgnr(&x, A.p, &b, &cf); break;
    case S_CGNE: rc = w ? armassp_cgne_w(&x, A.p, &b, &wb, &cf) : armassp_cgne(&x, A.p, &b, &cf); break;
    case S_GMRES: rc = w ? armassp_gmres_w(&x, A.p, &b, &wb, &cf) : armassp_gmres(&x, A.p, &b, &cf); break;
    default: rc = w ? armassp_pgmres_w(&x, A.p, &b, &P, &wb, &cf) : armassp_pgmres(&x, A.p, &b, &P, &cf); break;
    }
    if (rc >= 0) c.fail("operands that do not fit: returned %d", rc);
    if (cf.err() == 0) c.fail("error is not set");
    if (memcmp(x.base, x.snap.data(), x.len * sizeof(double)) || memcmp(b.base, b.snap.data(), b.len * sizeof(double))) c.fail("operands were changed");
    sp_verify(c, "operand", A);
    c.nontrivial = true;
}
