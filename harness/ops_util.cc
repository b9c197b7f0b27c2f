// Views, element access and elementwise matrix operations (C04; frame C05)
#include "la.h"

static int du(Src &s)
{
    int n = mode.maxdim ? s.range(0, mode.maxdim) : (s.weighted({8, 1}) ? s.range(0, 70) : s.range(0, 12));
    return n ? n : 1;
}
static Mat mkany(Src &s)    // any shape
{
    switch (s.weighted({8, 1, 1})) {
    case 1: return mkrow(s, du(s));
    case 2: return mkcol(s, du(s));
    default: break;
    }
    int r = du(s), cc = s.chance(1, 3) ? r : du(s);
    return mk(s, r, cc);
}
// which elements do the shape flags select
static bool sel(int fl, int i, int j)
{
    bool unit = fl & ARMAS_UNIT;
    if ((fl & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_SYMM)) == ARMAS_UPPER) return unit ? i < j : i <= j;
    if ((fl & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_SYMM)) == ARMAS_LOWER) return unit ? i > j : i >= j;
    return true;
}
static void shapelabel(Case &c, const Mat &A, int fl)
{
    if (A.r() > 1 && A.c() > 1) c.nontrivial = true;
    if (A.r() != A.c() && (fl & (ARMAS_UPPER | ARMAS_LOWER))) c.label("trapezoid");
    if (A.m.step > A.r()) c.label("padded");
    if (fl & ARMAS_UNIT) c.label("unit");
}
static void cmpel(Case &c, const char *what, const Mat &A, const LM &ref, int ulps = 0)
{
    if (!mode.value) return;
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            double g = A.e(i, j);
            LD r = ref(i, j);
            if (g == (double)r || (std::isnan(g) && std::isnan((double)r))) continue;
            if (ulps && fabsl((LD)g - r) <= ulps * UEPS * fabsl(r)) continue;
            c.fail("%s: element (%d,%d) of %dx%d is %.17g, expected %.17Lg", what, i, j, A.r(), A.c(), g, r);
        }
}
static void frame_sel(Case &c, const Mat &A, const char *n, int fl) { frame_except(c, A, n, [fl](int i, int j) { return sel(fl, i, j); }); }

TARGET(util, views, 16)
{
    Mat P = mkany(s);
    fill_mode(P, DM_UNI, s.seed());
    c.d("views P=%s", sh(P).c_str());
    // model of a view: element (i,j) lives at offset o + i*ri + j*cj of the parent's buffer
    struct V { armas_dense_t m; size_t o; int r, c; int cj; } v{P.m, P.pos(0, 0), P.r(), P.c(), P.m.step};
    int k = 1 + s.range(0, 4);
    for (int q = 0; q < k && v.r > 0 && v.c > 0; q++) {
        armas_dense_t t{};
        t.rows = t.cols = t.step = 77; t.__nbytes = 5;
        V w = v;
        auto idx = [&](int n) { int i = s.range(0, n - 1); return i; };
        switch (s.weighted({5, 3, 3, 4, 3, 2, 1})) {
        case 0: {
            int i = idx(v.r), j = idx(v.c), nr = s.range(0, v.r - i), nc = s.range(0, v.c - j);
            int ai = s.chance(1, 4) ? i - v.r : i, aj = s.chance(1, 4) ? j - v.c : j;
            int anr = nr, anc = nc;
            if (s.chance(1, 5)) { anr = -1; nr = v.r - i; }
            if (s.chance(1, 5)) { anc = -1; nc = v.c - j; }
            int uns = s.chance(1, 4) && ai >= 0 && aj >= 0 && anr >= 0 && anc >= 0;
            c.d(" submatrix(%d,%d,%d,%d)", ai, aj, anr, anc);
            if (uns) armas_submatrix_unsafe(&t, &v.m, ai, aj, anr, anc); else armas_submatrix(&t, &v.m, ai, aj, anr, anc);
            w.o += i + (size_t)j * v.cj; w.r = nr; w.c = nc;
            break;
        }
        case 1: {
            int j = idx(v.c), aj = s.chance(1, 3) ? j - v.c : j;
            c.d(" column(%d)", aj);
            if (aj >= 0 && s.chance(1, 3)) armas_column_unsafe(&t, &v.m, aj); else armas_column(&t, &v.m, aj);
            w.o += (size_t)j * v.cj; w.c = 1;
            break;
        }
        case 2: {
            int i = idx(v.r), ai = s.chance(1, 3) ? i - v.r : i;
            c.d(" row(%d)", ai);
            if (ai >= 0 && s.chance(1, 3)) armas_row_unsafe(&t, &v.m, ai); else armas_row(&t, &v.m, ai);
            w.o += i; w.r = 1;
            break;
        }
        case 3: {
            int d = s.range(-(v.r - 1), v.c - 1);
            c.d(" diag(%d)", d);
            if (s.chance(1, 3)) armas_diag_unsafe(&t, &v.m, d); else armas_diag(&t, &v.m, d);
            w.o += d >= 0 ? (size_t)d * v.cj : -d;
            w.r = 1;
            w.c = d >= 0 ? std::min(v.r, v.c - d) : std::min(v.r + d, v.c);
            w.cj = v.cj + 1;
            break;
        }
        case 4: {
            if (v.r != 1 && v.c != 1) continue;
            int n = v.r * v.c, i = idx(n), len = s.range(0, n - i), ai = s.chance(1, 4) ? i - n : i, al = len;
            if (s.chance(1, 5)) { al = -1; len = n - i; }
            c.d(" subvector(%d,%d)", ai, al);
            if (ai >= 0 && al >= 0 && s.chance(1, 3)) armas_subvector_unsafe(&t, &v.m, ai, al); else armas_subvector(&t, &v.m, ai, al);
            if (v.r == 1) { w.o += (size_t)i * v.cj; w.c = len; }
            else { w.o += i; w.r = len; }
            break;
        }
        case 5: {
            if (v.c != 1) continue;
            c.d(" col_as_row");
            armas_col_as_row(&t, &v.m);
            w.c = v.r; w.r = 1; w.cj = 1;
            break;
        }
        default: {
            c.d(" make");
            armas_make(&t, v.r, v.c, v.cj, v.m.elems);
            break;
        }
        }
        w.m = t;
        v = w;
        if (t.__data != nullptr || t.__nbytes != 0) c.fail("a view claims to own its elements");
        if (v.m.rows != v.r || v.m.cols != v.c) c.fail("view is %dx%d, expected %dx%d", v.m.rows, v.m.cols, v.r, v.c);
        if (v.r && v.c && v.m.elems != P.base + v.o) c.fail("view starts %td elements from its expected position", v.m.elems - (P.base + v.o));
    }
    if (k > 1) c.nontrivial = true;
    if (armas_size(&v.m) != (int64_t)v.r * v.c) c.fail("size %ld of %dx%d", (long)armas_size(&v.m), v.r, v.c);
    if (v.r > 0 && v.c > 0 && armas_isvector(&v.m) != (v.r == 1 || v.c == 1)) c.fail("isvector");
    auto at = [&](int i, int j) -> double & { return P.base[v.o + i + (size_t)j * v.cj]; };
    for (int j = 0; j < v.c; j++)
        for (int i = 0; i < v.r; i++) {
            if (armas_get(&v.m, i, j) != at(i, j)) c.fail("get(%d,%d)", i, j);
            if (armas_get(&v.m, i - v.r, j - v.c) != at(i, j)) c.fail("get(%d,%d)", i - v.r, j - v.c);
            if (armas_get_unsafe(&v.m, i, j) != at(i, j)) c.fail("get_unsafe(%d,%d)", i, j);
            if (v.m.elems + armas_index(&v.m, i, j) != &at(i, j)) c.fail("index(%d,%d)", i, j);
            if (v.m.elems + armas_index(&v.m, i - v.r, j - v.c) != &at(i, j)) c.fail("index(%d,%d)", i - v.r, j - v.c);
            int lin = i + j * v.r;
            if (armas_get_at(&v.m, lin) != at(i, j)) c.fail("get_at(%d) is not element (%d,%d)", lin, i, j);
            if (armas_get_at(&v.m, lin - v.r * v.c) != at(i, j)) c.fail("get_at(%d)", lin - v.r * v.c);
            if ((v.r == 1 || v.c == 1) && armas_get_at_unsafe(&v.m, lin) != at(i, j)) c.fail("get_at_unsafe(%d)", lin);
        }
    if (v.r > 0 && v.c > 0) {
        P.snapshot();
        int i = s.range(0, v.r - 1), j = s.range(0, v.c - 1), how = s.range(0, 4);
        double x = 12345.5;
        bool vec = v.r == 1 || v.c == 1;
        c.d(" set(%d,%d) how %d", i, j, how);
        if (how == 0) armas_set(&v.m, i, j, x);
        else if (how == 1) armas_set(&v.m, i - v.r, j - v.c, x);
        else if (how == 2) armas_set_unsafe(&v.m, i, j, x);
        else if (how == 3) armas_set_at(&v.m, s.chance(1, 2) ? i + j * v.r : i + j * v.r - v.r * v.c, x);
        else if (vec) armas_set_at_unsafe(&v.m, i + j * v.r, x);
        else armas_set(&v.m, i, j, x);
        if (at(i, j) != x) c.fail("set did not reach element (%d,%d)", i, j);
        for (size_t q = 0; q < P.len; q++)
            if (P.base + q != &at(i, j) && memcmp(&P.base[q], &P.snap[q], sizeof(double))) c.fail("set of one element changed another");
    }
}
TARGET(util, mcopy, 8)
{
    bool t = s.chance(1, 2);
    Mat A = mkany(s);
    bool vec = A.r() == 1 || A.c() == 1;
    Mat B = vec ? (s.chance(1, 2) ? mkvec(s, A.n()) : mk(s, A.c(), A.r())) : (t ? mk(s, A.c(), A.r()) : mk(s, A.r(), A.c()));
    fill(s, B); fill_mode(A, DM_UNI, s.seed());
    Conf cf = conf0();
    LM ref(A.r(), A.c());
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) ref(i, j) = vec ? B.v(i + j * A.r()) : t ? B.e(j, i) : B.e(i, j);
    c.d("mcopy%s A=%s B=%s", t ? " T" : "", sh(A).c_str(), sh(B).c_str());
    shapelabel(c, A, 0);
    A.snapshot(); B.snapshot();
    OKRC(c, armas_mcopy(&A, &B, t ? ARMAS_TRANS : 0, &cf), cf);
    cmpel(c, "mcopy", A, ref);
    frame_const(c, B, "B"); frame_result(c, A, "A");
    armas_dense_t *n = armas_newcopy(&B);
    if (!n) oomnull(c, "newcopy");
    if (!n) c.fail("newcopy returned null");
    bool ok = n->rows == B.r() && n->cols == B.c() && n->elems != B.m.elems;
    for (int j = 0; ok && j < B.c(); j++)
        for (int i = 0; i < B.r(); i++) ok = ok && armas_get(n, i, j) == B.e(i, j);
    bool align = ((uintptr_t)n->elems & 63) == 0;
    armas_free(n);
    if (!ok) c.fail("newcopy differs from its source");
    if (!align) c.fail("elements of an allocated matrix are not aligned");
}
static int shapeflags(Src &s, bool vec, bool sq)
{
    if (vec) return 0;
    int f = s.pickl({ARMAS_UPPER, ARMAS_LOWER, 0, 0});
    if (f && s.chance(1, 2)) f |= ARMAS_UNIT;
    if (!f && sq && s.chance(1, 4)) f = ARMAS_SYMM;
    return f;
}
TARGET(util, mscale, 8)
{
    Mat A = mkany(s);
    fill(s, A);
    bool vec = A.r() == 1 || A.c() == 1, add = s.chance(1, 2);
    int fl = shapeflags(s, vec, A.r() == A.c());
    double alpha = rnd_scalar(s);
    Conf cf = conf0();
    c.d("%s A=%s alpha=%g flags=%x", add ? "madd" : "mscale", sh(A).c_str(), alpha, fl);
    shapelabel(c, A, fl);
    LM ref = A.lm();
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            if (sel(fl, i, j)) ref(i, j) = add ? (double)(A.e(i, j) + alpha) : (double)(A.e(i, j) * alpha);
    A.snapshot();
    if (add) OKRC(c, armas_madd(&A, alpha, fl, &cf), cf);
    else OKRC(c, armas_mscale(&A, alpha, fl, &cf), cf);
    cmpel(c, add ? "madd" : "mscale", A, ref);
    frame_sel(c, A, "A", fl);
}
TARGET(util, mplus, 10)
{
    Mat A = mkany(s);
    fill(s, A);
    bool t = s.chance(1, 3), vec = A.r() == 1 || A.c() == 1, one = s.chance(1, 10);
    Mat B = one ? mk(s, 1, 1) : vec ? mkvec(s, A.n()) : t ? mk(s, A.c(), A.r()) : mk(s, A.r(), A.c());
    fill(s, B);
    int fl = vec ? 0 : s.pickl({ARMAS_UPPER, ARMAS_LOWER, 0, 0});
    bool ab = !vec && !one && s.chance(1, 3);
    double alpha = one || B.n() == 1 ? 1 : rnd_scalar(s), beta = rnd_scalar(s);
    Conf cf = conf0();
    c.d("mplus%s%s A=%s B=%s alpha=%g beta=%g flags=%x", t ? " T" : "", ab ? " ABS" : "", sh(A).c_str(), sh(B).c_str(), alpha, beta, fl);
    shapelabel(c, A, fl);
    LM ref = A.lm(), ab2 = absm(ref);
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            if (!sel(fl, i, j)) continue;
            LD b = B.n() == 1 ? B.e(0, 0) : vec ? B.v(i + j * A.r()) : t ? B.e(j, i) : B.e(i, j), a = A.e(i, j);
            if (ab) { a = fabsl(a); b = fabsl(b); }
            ref(i, j) = alpha * a + beta * b;
            ab2(i, j) = fabsl(alpha * a) + fabsl(beta * b);
        }
    A.snapshot(); B.snapshot();
    OKRC(c, armas_mplus(alpha, &A, beta, &B, fl | (t ? s.pickl({ARMAS_TRANS, ARMAS_TRANSB}) : 0) | (ab ? ARMAS_ABS : 0), &cf), cf);
    cmpm(c, "mplus", A, ref, ab2, 4);
    frame_const(c, B, "B"); frame_sel(c, A, "A", fl);
}
static double op1(double x) { return 3 * x - 1; }
static double op2(double x, void *p) { return x * *(double *)p + 0.25; }
struct It { std::vector<double> seen; size_t stop; };
static int itf(double x, void *p) { It *t = (It *)p; t->seen.push_back(x); return t->seen.size() >= t->stop ? -1 : 0; }
TARGET(util, apply, 6)
{
    Mat A = mkany(s);
    fill(s, A);
    int fl = s.pickl({ARMAS_UPPER, ARMAS_LOWER, 0});
    int how = s.range(0, 2);
    double p = 1.5;
    c.d("apply%d A=%s flags=%x", how, sh(A).c_str(), fl);
    shapelabel(c, A, fl);
    LM ref = A.lm();
    std::vector<double> want;
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            if (sel(fl, i, j)) { want.push_back(A.e(i, j)); ref(i, j) = how == 0 ? op1(A.e(i, j)) : how == 1 ? op2(A.e(i, j), &p) : A.e(i, j); }
    A.snapshot();
    if (how == 0) { if (armas_apply(&A, op1, fl)) c.fail("apply failed"); }
    else if (how == 1) { if (armas_apply2(&A, op2, &p, fl)) c.fail("apply2 failed"); }
    else {
        It it; it.stop = s.chance(1, 2) ? (size_t)1 << 30 : 1 + s.range(0, (int)want.size());
        int rc = armas_iterate(&A, itf, &it, fl);
        bool stopped = it.stop <= want.size();
        if (mode.value) {
            if ((rc < 0) != stopped) c.fail("iterate returned %d, operator %s it", rc, stopped ? "stopped" : "never stopped");
            if (stopped) want.resize(it.stop);
            std::sort(want.begin(), want.end()); std::sort(it.seen.begin(), it.seen.end());
            if (it.stop > want.size() && it.seen != want) c.fail("iterate visited %zu elements, selection has %zu", it.seen.size(), want.size());
            if (it.seen.size() != want.size()) c.fail("iterate visited %zu elements instead of %zu", it.seen.size(), want.size());
        }
        frame_const(c, A, "A");
    }
    cmpel(c, "apply", A, ref);
    frame_sel(c, A, "A", fl);
}
static int g_cnt;
static double gen0() { return ++g_cnt; }
static double val0(int i, int j) { return 1000.0 * i + j + 0.5; }
TARGET(util, set, 8)
{
    Mat A = mkany(s);
    fill(s, A);
    int how = s.range(0, 2);
    int fl = s.pickl({ARMAS_UPPER, ARMAS_LOWER, 0});
    if (how < 2 && A.r() == A.c() && s.chance(1, 4)) fl = ARMAS_SYMM;
    if (fl && s.chance(1, 2)) fl |= ARMAS_UNIT;
    if (how == 2 && !(fl & (ARMAS_UPPER | ARMAS_LOWER))) fl = ARMAS_UPPER;
    c.d("%s A=%s flags=%x", how == 0 ? "set_values" : how == 1 ? "set_all" : "make_trm", sh(A).c_str(), fl);
    shapelabel(c, A, fl);
    LM old = A.lm();
    A.snapshot();
    if (how == 0) { if (armas_set_values(&A, val0, fl)) c.fail("set_values failed"); }
    else if (how == 1) { g_cnt = 0; if (armas_set_all(&A, gen0, fl)) c.fail("set_all failed"); }
    else armas_make_trm(&A, fl);
    if (mode.value) {
        int n = 0;
        std::vector<char> used(A.n() + 2, 0);
        for (int j = 0; j < A.c(); j++)
            for (int i = 0; i < A.r(); i++) {
                double g = A.e(i, j), o = old(i, j);
                if (how == 2) {
                    bool up = fl & ARMAS_UPPER;
                    double w = i == j ? (fl & ARMAS_UNIT ? 1 : o) : (up ? i < j : i > j) ? o : 0;
                    if (g != w) c.fail("make_trm: element (%d,%d) is %g, expected %g", i, j, g, w);
                    continue;
                }
                if ((fl & ARMAS_SYMM)) {
                    if (i == j && (fl & ARMAS_UNIT)) { if (g != 1) c.fail("unit diagonal (%d,%d) is %g", i, j, g); continue; }
                    if (i < j) { if (g != A.e(j, i)) c.fail("not symmetric at (%d,%d)", i, j); continue; }
                } else if (!sel(fl, i, j)) { if (g != o) c.fail("element (%d,%d) outside of the selected part changed", i, j); continue; }
                n++;
                if (how == 0) { if (g != val0(i, j)) c.fail("set_values: element (%d,%d) is %g", i, j, g); }
                else {
                    int k = (int)g;
                    if (k != g || k < 1 || k > A.n() || used[k]) c.fail("set_all: element (%d,%d) = %g is not a fresh generator value", i, j, g);
                    used[k] = 1;
                }
            }
        if (how == 1 && g_cnt != n) c.fail("set_all drew %d values for %d elements", g_cnt, n);
    }
    if (how == 2) frame_result(c, A, "A"); else frame_sel(c, A, "A", fl & ARMAS_SYMM ? 0 : fl);
}
TARGET(util, tolerance, 5)
{
    Mat A = mkany(s), B;
    int how = s.weighted({6, 1});
    if (how == 0) B = mk(s, A.r(), A.c()); else B = mkany(s);
    fill(s, B); fill(s, A);
    double atol = s.pickl({0, 1}) ? 1e-8 : 0.125, rtol = s.chance(1, 2) ? 1e-5 : 0.25;
    bool deflt = s.chance(1, 2);
    if (deflt) { atol = 1e-8; rtol = 1.0000000000000001e-05; }
    if (how == 0) {
        for (int j = 0; j < A.c(); j++) for (int i = 0; i < A.r(); i++) A.e(i, j) = B.e(i, j);
        int k = s.range(0, 2);
        for (int q = 0; q < k; q++) {
            int i = s.range(0, A.r() - 1), j = s.range(0, A.c() - 1);
            double f = s.chance(1, 2) ? 0.9 : 1.1, tol = atol + rtol * fabs(B.e(i, j));
            A.e(i, j) = B.e(i, j) + (s.chance(1, 2) ? f : -f) * tol;
            if (s.chance(1, 12)) A.e(i, j) = INFINITY;
        }
    }
    c.d("%s A=%s B=%s atol=%g rtol=%g", deflt ? "allclose" : "intolerance", sh(A).c_str(), sh(B).c_str(), atol, rtol);
    shapelabel(c, A, 0);
    bool want = A.r() == B.r() && A.c() == B.c(), edge = false;
    for (int j = 0; want && j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            LD d = fabsl((LD)A.e(i, j) - B.e(i, j)), t = (LD)atol + (LD)rtol * fabsl(B.e(i, j));
            if (fabsl(d - t) <= 1e-12L * (t + fabsl(A.e(i, j)))) edge = true;
            if (d > t) want = false;
        }
    if (edge) return;
    c.label(want ? "equal" : "different");
    A.snapshot(); B.snapshot();
    int got = deflt ? armas_allclose(&A, &B) : armas_intolerance(&A, &B, atol, rtol);
    if (mode.value && (got != 0) != want) c.fail("says %s, elementwise definition says %s", got ? "equal" : "different", want ? "equal" : "different");
    frame_const(c, A, "A"); frame_const(c, B, "B");
}
TARGET(util, norms, 8)
{
    Mat A = mkany(s);
    fill(s, A);
    int sc = s.pickl({0, 0, 0, 300, 480, -300, -480});
    for (int j = 0; j < A.c(); j++) for (int i = 0; i < A.r(); i++) A.e(i, j) = ldexp(A.e(i, j), sc);
    if (!sc && s.chance(1, 3)) {
        Rng g(s.seed());
        int e = s.pickl({20, 100, 480});
        for (int j = 0; j < A.c(); j++) for (int i = 0; i < A.r(); i++) A.e(i, j) = ldexp(A.e(i, j), g.below(2 * e) - e);
        c.label("mixed-scale");
    }
    bool vec = A.r() == 1 || A.c() == 1;
    int w = s.pickl({ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB});
    if (vec && s.chance(1, 4)) w = ARMAS_NORM_TWO;
    Conf cf = conf0();
    cf.optflags = s.pickl({0, ARMAS_ONAIVE, ARMAS_OKAHAN, ARMAS_OPAIRWISE, ARMAS_ORECURSIVE});
    c.d("mnorm %d A=%s scale=2^%d", w, sh(A).c_str(), sc);
    shapelabel(c, A, 0);
    if (sc) c.label("extreme-scale");
    LM a = A.lm();
    LD r = 0, vsum = 0, vmax = 0;
    for (auto x : a.a) { vsum += fabsl(x); vmax = std::max(vmax, fabsl(x)); }
    if (vec) r = w == ARMAS_NORM_ONE ? vsum : w == ARMAS_NORM_INF ? vmax : normF(a);
    else r = w == ARMAS_NORM_ONE ? norm1(a) : w == ARMAS_NORM_INF ? normInf(a) : normF(a);
    A.snapshot();
    double g = armas_mnorm(&A, w, &cf);
    cmp(c, "mnorm", g, r, r, 8 + 3 * A.n());
    frame_const(c, A, "A");
}
TARGET(util, random, 1)
{
    long sd = 1 + s.seed();
    int n = 3 + s.range(0, 60);
    bool nor = s.chance(1, 2), atf = s.chance(1, 2);
    c.d("random seed=%ld n=%d", sd, n);
    c.nontrivial = true;
    auto g = [&](int i) { return nor ? (atf ? armas_normal_at(i, 1) : armas_normal()) : (atf ? armas_uniform_at(i, 1) : armas_uniform()); };
    std::vector<double> a, b;
    armas_seed(sd);
    for (int i = 0; i < n; i++) a.push_back(g(i));
    if (armas_seed(0) != sd) c.fail("seed(0) does not return the current seed");
    armas_seed(sd);
    for (int i = 0; i < n; i++) b.push_back(g(i));
    if (a != b) c.fail("the same seed gives different sequences");
    int distinct = 0;
    for (int i = 0; i < n; i++) {
        if (!std::isfinite(a[i]) || (!nor && (a[i] < 0 || a[i] >= 1)) || fabs(a[i]) > 12) c.fail("value %g outside of its distribution", a[i]);
        if (i && a[i] != a[i - 1]) distinct++;
    }
    if (!distinct) c.fail("constant sequence");
}
