// Pivoting and sorting (C18)
#include "piv.h"

static const char *pivname(int k) { static const char *n[] = {"rows", "cols", "upper", "lower"}; return n[k]; }
// exact comparision
static void exactm(Case &c, const char *what, const Mat &A, const LM &R)
{
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            LD v = A.e(i, j);
            if (v != R(i, j)) c.fail("%s: element (%d,%d) is %Lg, expected %Lg", what, i, j, v, R(i, j));
        }
}
// symmetric interchange of index i and j on the stored triangle
static void symswap(LM &A, int i, int j, bool lower)
{
    if (i == j) return;
    auto g = [&](int r, int q) -> LD & { return (lower ? r >= q : r <= q) ? A(r, q) : A(q, r); };
    int n = A.r;
    LM F(n, n);
    for (int r = 0; r < n; r++) for (int q = 0; q < n; q++) F(r, q) = g(r, q);
    swaprows(F, i, j); swapcols(F, i, j);
    for (int r = 0; r < n; r++) for (int q = 0; q < n; q++) if (lower ? r >= q : r <= q) A(r, q) = F(r, q);
}

TARGET(piv, apply, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int kind = s.range(0, 3);
    bool sym = kind >= 2;
    int m = s.weighted({6, 1}) ? s.range(0, 80) : s.range(0, 12);
    int n = sym ? m : s.weighted({6, 1}) ? s.range(0, 80) : s.range(0, 12);
    int dim = kind == 1 ? n : m;
    int np = s.chance(1, 3) ? s.range(0, dim) : dim;
    bool back = s.chance(1, 2), undo = s.chance(1, 2) && np == dim, direct = !sym && s.chance(1, 2);
    int style = s.pickl({0, 1, 2, 3, 4});
    static const char *sn[] = {"forward-like", "any", "identity", "single", "with-zeros"};
    Mat A = mk(s, m, n);
    Piv P(np);
    Rng g(s.seed());
    for (int k = 0; k < np; k++) {
        int row = back && np < dim ? dim - np + k : k;
        switch (style) {
        case 0: P[k] = back && np < dim ? 1 + g.below(row + 1) : row + 1 + g.below(dim - row); break;
        case 1: P[k] = 1 + g.below(dim); break;
        case 2: P[k] = row + 1; break;
        case 3: P[k] = row + 1; break;
        case 4: P[k] = g.below(3) ? 1 + g.below(dim) : 0; break;
        }
    }
    if (style == 3 && np) P[g.below(np)] = 1 + g.below(dim);
    P.snapshot();
    LM R(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) R(i, j) = A.e(i, j) = i + 1 + 1000.0 * (j + 1);
    A.snapshot();
    c.d(" pivot %s %s%s A=%dx%d np=%d %s%s P=[", pivname(kind), back ? "backward" : "forward", direct ? " (direct)" : "", m, n, np, sn[style], undo ? " +undo" : "");
    for (int k = 0; k < np && k < 12; k++) c.d("%d ", P[k]);
    c.d("]");
    c.label(pivname(kind)); c.label(sn[style]);
    bool moved = false;
    int fl[] = {ARMAS_PIVOT_ROWS, ARMAS_PIVOT_COLS, ARMAS_PIVOT_UPPER, ARMAS_PIVOT_LOWER};
    auto call = [&](bool bk) {
        int dir = bk ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD;
        if (!direct) return armas_pivot(&A, &P, dir | fl[kind], &cf);
        return kind == 0 ? armas_pivot_rows(&A, &P, dir, &cf) : armas_pivot_cols(&A, &P, dir, &cf);
    };
    auto apply = [&](bool bk) {
        for (int q = 0; q < np; q++) {
            int k = bk ? np - 1 - q : q, row = bk ? dim - np + k : k, to = P[k] - 1;
            if (to < 0 || to == row) continue;
            moved = true;
            if (kind == 0) swaprows(R, row, to);
            else if (kind == 1) swapcols(R, row, to);
            else symswap(R, row, to, kind == 3);
        }
    };
    LM R0 = R;
    apply(back);
    c.nontrivial = moved && m > 1 && n > 0;
    OKRC(c, call(back), cf);
    P.guards(c); P.same(c);
    frame_result(c, A, "A");
    exactm(c, back ? "backward pivots" : "forward pivots", A, R);
    if (undo) {
        OKRC(c, call(!back), cf);
        P.same(c); frame_result(c, A, "A");
        exactm(c, "pivots undone", A, R0);
    }
}

static std::vector<double> keys(Src &s, Case &c, int n)
{
    static const char *nm[] = {"random", "duplicates", "all-equal", "sorted", "reversed", "two-values", "signed-pairs", "organ-pipe", "almost-sorted"};
    int k = s.pickl({0, 1, 2, 3, 4, 5, 6, 7, 8});
    Rng g(s.seed());
    std::vector<double> v(n);
    for (int i = 0; i < n; i++) {
        switch (k) {
        case 0: v[i] = g.sym() * 10; break;
        case 1: v[i] = (double)g.below(std::max(2, n / 3)) - n / 6; break;
        case 2: v[i] = 3; break;
        case 3: v[i] = i * 0.5 - n / 4; break;
        case 4: v[i] = n / 3 - i; break;
        case 5: v[i] = g.below(2) ? 1 : -1; break;
        case 6: v[i] = (1 + i / 2) * (i % 2 ? -1 : 1); break;
        case 7: v[i] = std::min(i, n - i); break;
        case 8: v[i] = i; break;
        }
    }
    if (k == 8 && n > 1) for (int q = 0; q < 3; q++) std::swap(v[g.below(n)], v[g.below(n)]);
    if (k == 6) for (int q = n - 1; q > 0; q--) std::swap(v[q], v[g.below(q + 1)]);
    c.label(nm[k]);
    c.d(" %s [", nm[k]);
    for (int i = 0; i < n && i < 12; i++) c.d("%g ", v[i]);
    c.d("]");
    return v;
}
static int veclen(Src &s) { return Dims(s, 200).big ? s.range(300, 3000) : s.weighted({6, 1}) ? s.range(0, 300) : s.range(0, 24); }
static void ordered(Case &c, const Mat &D, int dir, bool abs)
{
    for (int i = 1; i < D.n(); i++) {
        double a = D.v(i - 1), b = D.v(i);
        if (abs) a = fabs(a), b = fabs(b);
        if (dir > 0 ? a > b : a < b) c.fail("not in %s order at %d: %.17g then %.17g", dir > 0 ? "ascending" : "descending", i, a, b);
    }
}
static void multiset(Case &c, const Mat &D, std::vector<double> v)
{
    std::vector<double> w(D.n());
    for (int i = 0; i < D.n(); i++) w[i] = D.v(i);
    std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end());
    for (size_t i = 0; i < v.size(); i++) if (v[i] != w[i]) c.fail("result is not permutation of the input: has %.17g in place of %.17g (in sorted order, at %d)", w[i], v[i], (int)i);
}

TARGET(piv, sort, 8)
{
    int op = s.range(0, 2), n = veclen(s), dir = s.chance(1, 2) ? ARMAS_ASC : ARMAS_DESC;
    static const char *nm[] = {"sort_vec", "qsort_vec", "abs_sort_vec"};
    c.d(" %s %s n=%d", nm[op], dir > 0 ? "asc" : "desc", n);
    c.label(nm[op]);
    Mat D = mkvec(s, n);
    auto v = keys(s, c, n);
    c.nontrivial = n > 1;
    for (int i = 0; i < n; i++) D.v(i) = v[i];
    D.snapshot();
    if (op == 0) armas_sort_vec(&D, dir);
    else if (op == 1) { int rc = armas_qsort_vec(&D, dir); if (rc && n) c.fail("qsort_vec returned %d", rc); }
    else armas_abs_sort_vec(&D, dir);
    frame_result(c, D, "D");
    multiset(c, D, v);
    ordered(c, D, dir, op == 2);
}

extern "C" int armas_d_pivot_sort(armas_dense_t *D, armas_pivot_t *P, int direction);
TARGET(piv, pivot_sort, 4)
{
    int n = veclen(s), dir = s.chance(1, 2) ? ARMAS_ASC : ARMAS_DESC;
    c.d(" pivot_sort %s n=%d", dir > 0 ? "asc" : "desc", n);
    if (n == 0) c.discard();
    Mat D = mkvec(s, n);
    auto v = keys(s, c, n);
    c.nontrivial = n > 1;
    for (int i = 0; i < n; i++) D.v(i) = v[i];
    D.snapshot();
    armas_pivot_t P;
    if (!armas_pivot_init(&P, n)) { oomnull(c, "armas_pivot_init"); c.fail("pivot_init failed"); }
    int rc = armas_d_pivot_sort(&D, &P, dir);
    std::vector<int> p;
    for (int i = 0; i < n; i++) p.push_back(armas_pivot_get(&P, i));
    armas_pivot_release(&P);
    if (rc) c.fail("pivot_sort returned %d", rc);
    frame_const(c, D, "D");
    std::vector<int> q = p;
    std::sort(q.begin(), q.end());
    for (int i = 0; i < n; i++) if (q[i] != i + 1) c.fail("indexes are not a permutation of 1..%d", n);
    for (int i = 0; i + 1 < n; i++) {
        double a = fabs(v[p[i] - 1]), b = fabs(v[p[i + 1] - 1]);
        if (dir > 0 ? a > b : a < b) c.fail("order is wrong at %d: |%.17g| then |%.17g|", i, v[p[i] - 1], v[p[i + 1] - 1]);
    }
}

TARGET(piv, sort_eigenvec, 6)
{
    Dims dm(s, 100);
    int n = s.chance(1, 4) ? dm(s, 1, 60, 400) : s.range(1, 16), dir = s.chance(1, 2) ? ARMAS_ASC : ARMAS_DESC;
    int w = s.range(0, 7), ck = s.range(0, 1);
    int mu = s.range(1, 40), nv = s.range(1, 40), mc = s.range(2, 20);
    c.d(" sort_eigenvec %s n=%d%s", dir > 0 ? "asc" : "desc", n, "");
    Mat D = mkvec(s, n), U, V, C;
    if (w & 1) { U = mk(s, mu, n); c.d(" U=%dx%d", mu, n); }
    if (w & 2) { V = mk(s, n, nv); c.d(" V=%dx%d", n, nv); }
    if (w & 4) { C = ck ? mkvec(s, n) : mk(s, mc, n); c.d(" C=%dx%d", C.r(), C.c()); }
    auto v = keys(s, c, n);
    c.nontrivial = n > 1 && w;
    for (int i = 0; i < n; i++) D.v(i) = v[i];
    if (w & 1) for (int j = 0; j < n; j++) for (int i = 0; i < mu; i++) U.e(i, j) = j + 1000.0 * i;
    if (w & 2) for (int j = 0; j < nv; j++) for (int i = 0; i < n; i++) V.e(i, j) = i + 1000.0 * j;
    if (w & 4) for (int j = 0; j < n; j++) { if (ck) C.v(j) = j; else for (int i = 0; i < mc; i++) C.e(i, j) = j + 1000.0 * i; }
    D.snapshot();
    if (w & 1) U.snapshot();
    if (w & 2) V.snapshot();
    if (w & 4) C.snapshot();
    int rc = armas_sort_eigenvec(&D, w & 1 ? &U : nullptr, w & 2 ? &V : nullptr, w & 4 ? &C : nullptr, dir);
    if (rc) c.fail("returned %d", rc);
    frame_result(c, D, "D");
    if (w & 1) frame_result(c, U, "U");
    if (w & 2) frame_result(c, V, "V");
    if (w & 4) frame_result(c, C, "C");
    multiset(c, D, v);
    ordered(c, D, dir, false);
    std::vector<int> seen;
    auto tag = [&](const char *nm, int k, double t, LD off) {
        LD o = t - off;
        if (o != floorl(o) || o < 0 || o >= n) c.fail("%s at %d holds foreign element %g", nm, k, t);
        if (D.v(k) != v[(int)o]) c.fail("%s: companion %d of key %.17g is placed at key %.17g", nm, (int)o, v[(int)o], D.v(k));
        return (int)o;
    };
    auto once = [&](const char *nm, auto &&get) {
        std::vector<int> cnt(n);
        for (int k = 0; k < n; k++) if (cnt[get(k)]++) c.fail("%s: a companion appears twice", nm);
    };
    if (w & 1) once("U", [&](int k) { int o = tag("U", k, U.e(0, k), 0); for (int i = 1; i < mu; i++) if (tag("U", k, U.e(i, k), 1000.0L * i) != o) c.fail("U: column %d mixed of several columns", k); return o; });
    if (w & 2) once("V", [&](int k) { int o = tag("V", k, V.e(k, 0), 0); for (int j = 1; j < nv; j++) if (tag("V", k, V.e(k, j), 1000.0L * j) != o) c.fail("V: row %d mixed of several rows", k); return o; });
    if (w & 4) once("C", [&](int k) { if (ck) return tag("C", k, C.v(k), 0); int o = tag("C", k, C.e(0, k), 0); for (int i = 1; i < mc; i++) if (tag("C", k, C.e(i, k), 1000.0L * i) != o) c.fail("C: column %d mixed", k); return o; });
    if ((w & 3) == 3) for (int k = 0; k < n; k++) if ((int)U.e(0, k) != (int)V.e(k, 0)) c.fail("U and V permuted differently at %d", k);
}

