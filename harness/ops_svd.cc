// Singular value decompositions (C13)
#include "lap.h"

// number of singular values of the upper bidiagonal (d, e) that are < x  (x > 0): Sturm count on the Golub-Kahan form
static int gk_below(const std::vector<LD> &d, const std::vector<LD> &e, LD x)
{
    int n = (int)d.size(), neg = 0;
    LD q = -x;
    if (q < 0) neg++;
    for (int k = 0; k < 2 * n - 1; k++) {
        LD b = k % 2 == 0 ? d[k / 2] : e[k / 2];
        if (q == 0) q = 1e-4000L;
        q = -x - (b * b) / q;
        if (q < 0) neg++;
    }
    return neg - n;     // eigenvalues come in +- pairs
}
// values s (descending) of bidiagonal: each within tol relative plus abs absolute
static void bd_values(Case &c, const char *what, const std::vector<LD> &d, const std::vector<LD> &e, const Mat &S, LD rel, LD ab)
{
    int n = (int)d.size();
    for (int k = 0; k < n; k++) {
        LD s = S.v(k);
        if (!std::isfinite((double)s)) c.fail("%s: singular value %d is %g", what, k, (double)s);
        if (s < 0) c.fail("%s: singular value %d is negative: %.17Lg", what, k, s);
        if (k && s > S.v(k - 1)) c.fail("%s: singular values not in descending order: %.17g then %.17Lg at %d", what, S.v(k - 1), s, k);
        LD del = rel * s + ab;
        // k-th largest: at most n-1-k values are < s - del, at least n-k are < s + del
        LD lo = s - del, hi = s + del;
        if (lo > 0 && gk_below(d, e, lo) > n - 1 - k) c.fail("%s: singular value %d is %.17Lg, too large by more than %.3Lg", what, k, s, del);
        if (hi > 0 && gk_below(d, e, hi) < n - k) c.fail("%s: singular value %d is %.17Lg, too small by more than %.3Lg", what, k, s, del);
    }
}
static void desc(Case &c, const char *what, const Mat &S, int k)
{
    for (int i = 0; i < k; i++) {
        if (!std::isfinite(S.v(i)) || S.v(i) < 0) c.fail("%s: singular value %d is %g", what, i, S.v(i));
        if (i && S.v(i) > S.v(i - 1)) c.fail("%s: singular values not in descending order: %.17g then %.17g at %d", what, S.v(i - 1), S.v(i), i);
    }
}
static int svopts(Src &s, Case &c)
{
    int o = s.pickl({0, ARMAS_OBSVD_DEMMEL, ARMAS_OBSVD_GOLUB, ARMAS_OABSTOL, ARMAS_OBSVD_GOLUB | ARMAS_OABSTOL});
    c.d(" %s%s", o & ARMAS_OBSVD_GOLUB ? "golub" : "demmel", o & ARMAS_OABSTOL ? " abstol" : "");
    return o;
}
TARGET(svd, svd, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    cf.optflags |= svopts(s, c);
    int m = dlap(s, 60), n = dlap(s, 60);
    switch (s.weighted({5, 2, 2, 2})) {
    case 1: n = m; break;
    case 2: n = s.range(1, 3); break;
    case 3: m = s.range(1, 3); break;
    }
    int p = std::min(m, n);
    bool wu = !s.chance(1, 4), wv = !s.chance(1, 4), full = s.chance(1, 3);
    Mat A = mk(s, m, n), S = mkvec(s, p + (s.chance(1, 5) ? s.range(1, 3) : 0)), U, V;
    bool tall = m >= n;
    if (wu) U = mk(s, m, tall && !full ? n : m);
    if (wv) V = mk(s, !tall && !full ? m : n, n);
    c.d(" svd A=%s%s%s%s", sh(A).c_str(), wu ? " WANTU" : "", wv ? " WANTV" : "", full ? " full" : "");
    fill_gen(s, A, c);
    c.nontrivial = p > 1;
    if (p > armas_getenv()->lb && armas_getenv()->lb > 0) c.label("blocked");
    if (std::max(m, n) > 1.6 * p) c.label("crossover");
    int fl = (wu ? ARMAS_WANTU : 0) | (wv ? ARMAS_WANTV : 0);
    LM A0 = A.lm();
    LD an = normF(A0), tol = (100 + 30 * N(std::max(m, n))) * UEPS;
    fill_mode(S, DM_UNI, 3); if (wu) fill_mode(U, DM_UNI, 4); if (wv) fill_mode(V, DM_UNI, 5);
    A.snapshot(); S.snapshot(); if (wu) U.snapshot(); if (wv) V.snapshot();
    armas_dense_t *pu = wu ? &U : nullptr, *pv = wv ? &V : nullptr;
    MatList ops{A, S};
    if (wu) ops.push_back(std::addressof(U));
    if (wv) ops.push_back(std::addressof(V));
    if (!wcall(s, c, cf, "svd", ops, [&] { return armas_svd(&S, pu, pv, &A, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_svd_w(&S, pu, pv, &A, fl, w, &cf); })) return;
    frame_result(c, A, "A"); frame_result(c, S, "S");
    if (wu) frame_result(c, U, "U");
    if (wv) frame_result(c, V, "V");
    if (!mode.value) return;
    desc(c, "svd", S, p);
    LM Ul, Vl;
    if (wu) { Ul = U.lm(); need_finite(c, "U", U); ortho(c, "U", Ul, tol); }
    if (wv) { Vl = tr(V.lm()); need_finite(c, "V", V); ortho(c, "V", Vl, tol); }
    // sum of squares is the squared Frobenius norm
    LD sq = 0;
    for (int i = 0; i < p; i++) sq = hypotl(sq, S.v(i));
    small(c, "norm of the singular values against the norm of A", fabsl(sq - an), tol * an);
    if (wu && wv) {
        LM US(m, p);
        for (int j = 0; j < p; j++) for (int i = 0; i < m; i++) US(i, j) = Ul(i, j) * S.v(j);
        small(c, "A - U S V'", normF(sub(A0, mul(US, tr(cols(Vl, 0, p))))), tol * an);
        return;
    }
    if (an == 0) return;
    LM As = A0;
    for (auto &x : As.a) x /= an;
    if (wu || wv) {     // A'U (A V): orthogonal columns of norms S, the rest zero
        LM G = wu ? mul(tr(As), Ul) : mul(As, Vl);
        LM D = mul(tr(G), G);
        for (int i = 0; i < p; i++) D(i, i) -= (S.v(i) / an) * (S.v(i) / an);
        small(c, wu ? "U'AA'U - S^2" : "V'A'AV - S^2", normF(D), 2 * tol);
        return;
    }
    // values only: against the decomposition with vectors, itself judged by its residual
    Mat A2 = tight(m, n), S2 = tight(p, 1), U2 = tight(m, p), V2 = tight(p, n);
    A2.set(A0);
    Conf c2 = conf0();
    int rc = armas_svd(&S2, &U2, &V2, &A2, ARMAS_WANTU | ARMAS_WANTV, &c2); if (rc < 0) oom(c, "reference", rc, c2);
    if (rc < 0) c.fail("svd with vectors returned %d (error %d)", rc, c2.err());
    LM US = U2.lm();
    for (int j = 0; j < p; j++) for (int i = 0; i < m; i++) US(i, j) *= S2.v(j);
    ortho(c, "U (second run)", U2.lm(), tol); ortho(c, "V (second run)", tr(V2.lm()), tol);
    small(c, "A - U S V' (second run)", normF(sub(A0, mul(US, V2.lm()))), tol * an);
    for (int i = 0; i < p; i++)
        if (!(fabs(S.v(i) - S2.v(i)) <= 2 * tol * an)) c.fail("svd: value %d is %.17g without vectors, %.17g with", i, S.v(i), S2.v(i));
    c.label("values-only");
}
struct Bd { int n; std::vector<LD> d, e; bool zero = false; };
static Bd bd_gen(Src &s, Case &c, Mat &D, Mat &E, bool positive)
{
    Bd b; b.n = D.n();
    int n = b.n, k = s.pickl({0, 0, 1, 2, 3, 4, 5, 6, 7, 8});
    Rng g(s.seed());
    static const char *nm[] = {"random", "graded-up", "graded-down", "zero-diag", "zero-off", "integers", "equal", "wide-range", "tiny-off"};
    for (int i = 0; i < n; i++) {
        LD dd = g.sym(), ee = g.sym();
        switch (k) {
        case 1: dd = powl(10.0L, -12.0L * i / n) * (1 + g.unit()); ee = dd * g.sym(); break;
        case 2: dd = powl(10.0L, -12.0L * (n - 1 - i) / n) * (1 + g.unit()); ee = dd * g.sym(); break;
        case 3: if (g.below(4) == 0) dd = 0; break;
        case 4: if (g.below(3) == 0) ee = 0; if (g.below(12) == 0) dd = 0; break;
        case 5: dd = g.below(7) - 3; ee = g.below(5) - 2; break;
        case 6: dd = 1; ee = 1; break;
        case 7: dd = powl(10.0L, g.sym() * 7); ee = powl(10.0L, g.sym() * 7); break;
        case 8: ee *= 1e-9; break;
        }
        if (positive) { dd = fabsl(dd); ee = fabsl(ee); }
        D.v(i) = (double)dd;
        if (i < n - 1) E.v(i) = (double)ee;
    }
    int sc = s.pickl({0, 0, 0, 0, 60, -60, 150, -150});
    for (int i = 0; i < n; i++) { D.v(i) = ldexp(D.v(i), sc); if (i < n - 1) E.v(i) = ldexp(E.v(i), sc); }
    for (int i = 0; i < n; i++) { b.d.push_back(D.v(i)); if (D.v(i) == 0) b.zero = true; if (i < n - 1) b.e.push_back(E.v(i)); }
    c.d(" [%s 2^%d]", nm[k], sc);
    c.label(nm[k]);
    return b;
}
static LM bd_mat(const Bd &b, bool lower)
{
    LM B(b.n, b.n);
    for (int i = 0; i < b.n; i++) { B(i, i) = b.d[i]; if (i + 1 < b.n) (lower ? B(i + 1, i) : B(i, i + 1)) = b.e[i]; }
    return B;
}
TARGET(svd, bdsvd, 14)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    int opt = svopts(s, c);
    cf.optflags |= opt;
    int n = dlap(s, 70);
    Mat D = mkvec(s, n), E = mkvec(s, n - 1);
    bool wu = s.chance(1, 2), wv = s.chance(1, 2), lower = s.chance(1, 3);
    int xr = s.chance(1, 3) ? s.range(0, 4) : 0, xc = s.chance(1, 3) ? s.range(0, 4) : 0;
    int ur = s.chance(1, 4) ? s.range(1, n + 5) : n + xr;
    int vc = s.chance(1, 4) ? s.range(1, n + 5) : n + xc;
    Mat U, V;
    if (wu) U = mk(s, ur, n + xc);
    if (wv) V = mk(s, n + xr, vc);
    int fl = (wu ? ARMAS_WANTU : 0) | (wv ? ARMAS_WANTV : 0) | (lower ? ARMAS_LOWER : s.chance(1, 2) ? ARMAS_UPPER : 0) | (s.chance(1, 4) ? ARMAS_FORWARD : 0);
    if (s.chance(1, 5)) cf.tolmult = s.pickl({1, 4, 20, 100});
    c.d(" bdsvd D=%s E=%s flags=%x tolmult=%d U=%s V=%s", sh(D).c_str(), sh(E).c_str(), fl, (int)cf.tolmult, wu ? sh(U).c_str() : "-", wv ? sh(V).c_str() : "-");
    Bd b = bd_gen(s, c, D, E, false);
    c.nontrivial = n > 2;
    LM B = bd_mat(b, lower), U0, V0;
    Rng g(s.seed());
    if (wu) { fill_mode(U, DM_UNI, s.seed()); U0 = U.lm(); U.snapshot(); }
    if (wv) { fill_mode(V, DM_UNI, s.seed()); V0 = V.lm(); V.snapshot(); }
    D.snapshot(); E.snapshot();
    armas_dense_t *pu = wu ? &U : nullptr, *pv = wv ? &V : nullptr;
    MatList ops{D, E};
    if (wu) ops.push_back(std::addressof(U));
    if (wv) ops.push_back(std::addressof(V));
    if (!wcall(s, c, cf, "bdsvd", ops, [&] { return armas_bdsvd(&D, &E, pu, pv, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_bdsvd_w(&D, &E, pu, pv, fl, w, &cf); })) return;
    frame_result(c, D, "D"); frame_result(c, E, "E");
    if (wu) frame_result(c, U, "U");
    if (wv) frame_result(c, V, "V");
    if (!mode.value) return;
    LD bn = normF(B), tm = cf.tolmult ? cf.tolmult : 8;
    LD tol = (100 + 20 * tm + (10 + tm) * N(n)) * UEPS;
    // lower bidiagonal has the singular values of its transpose
    bool rel = !(fl & ARMAS_FORWARD) && !(opt & (ARMAS_OBSVD_GOLUB | ARMAS_OABSTOL)) && !b.zero && !lower;
    std::vector<LD> dd = b.d, ee = b.e;
    if (lower) {        // reversed transpose of lower is upper: J B' J
        std::reverse(dd.begin(), dd.end()); std::reverse(ee.begin(), ee.end());
        std::swap(dd, dd);
        // J L J is upper with d reversed and e reversed
    }
    bd_values(c, "bdsvd", dd, ee, D, tol * (rel ? N(n) : 1), rel ? 1e-290L : tol * bn);
    // U0 B V0 = U S V on the leading n columns / rows; other columns unchanged
    if (wu) {
        for (int j = n; j < U.c(); j++) for (int i = 0; i < U.r(); i++) if (U.e(i, j) != (double)U0(i, j)) c.fail("bdsvd changed column %d of U beyond the %d first", j, n);
        need_finite(c, "U", U);
    }
    if (wv) {
        for (int j = 0; j < V.c(); j++) for (int i = n; i < V.r(); i++) if (V.e(i, j) != (double)V0(i, j)) c.fail("bdsvd changed row %d of V beyond the %d first", i, n);
        need_finite(c, "V", V);
    }
    LM S(n, n);
    for (int i = 0; i < n; i++) S(i, i) = D.v(i);
    if (wu && wv) {
        LM L = mul(mul(cols(U0, 0, n), B), rows(V0, 0, n)), R = mul(mul(cols(U.lm(), 0, n), S), rows(V.lm(), 0, n));
        small(c, "U B V - U1 S V1", normF(sub(L, R)), tol * bn * normF(U0) * normF(V0));
    }
    // U B B' U' = U1 S S U1'
    if (wu && bn > 0) {
        LM Un = cols(U0, 0, n), U1 = cols(U.lm(), 0, n);
        LM X = mul(Un, B), Y = mul(U1, S);
        for (auto &x : X.a) x /= bn;
        for (auto &x : Y.a) x /= bn;
        small(c, "U B B'U' - U1 S^2 U1'", normF(sub(mul(X, tr(X)), mul(Y, tr(Y)))), 3 * tol * normF(Un) * normF(Un));
        small(c, "U U' - U1 U1'", normF(sub(mul(Un, tr(Un)), mul(U1, tr(U1)))), 3 * tol * normF(Un) * normF(Un));
    }
    if (wv && bn > 0) {
        LM Vn = rows(V0, 0, n), V1 = rows(V.lm(), 0, n);
        LM X = mul(B, Vn), Y = mul(S, V1);
        for (auto &x : X.a) x /= bn;
        for (auto &x : Y.a) x /= bn;
        small(c, "V'B'B V - V1'S^2 V1", normF(sub(mul(tr(X), X), mul(tr(Y), Y))), 3 * tol * normF(Vn) * normF(Vn));
        small(c, "V'V - V1'V1", normF(sub(mul(tr(Vn), Vn), mul(tr(V1), V1))), 3 * tol * normF(Vn) * normF(Vn));
    }
}
TARGET(svd, dqds, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    int n = dlap(s, 90);
    Mat D = mkvec(s, n), E = mkvec(s, n - 1);
    c.d(" dqds D=%s E=%s", sh(D).c_str(), sh(E).c_str());
    Bd b = bd_gen(s, c, D, E, s.chance(1, 2));
    c.nontrivial = n > 2;
    D.snapshot(); E.snapshot();
    if (!wcall(s, c, cf, "dqds", {D, E}, [&] { return armas_dqds(&D, &E, &cf); }, [&](armas_wbuf_t *w) { return armas_dqds_w(&D, &E, w, &cf); })) return;
    frame_result(c, D, "D"); frame_result(c, E, "E");
    if (!mode.value) return;
    LD bn = 0;
    for (auto x : b.d) bn = hypotl(bn, x);
    for (auto x : b.e) bn = hypotl(bn, x);
    LD tol = (100 + 30 * N(n)) * UEPS;
    bd_values(c, "dqds", b.d, b.e, D, tol, tol * bn);
}

extern "C" double armas_d_bdsvd2x2(double *smin, double *smax, double f, double g, double h);
extern "C" void armas_d_bdsvd2x2_vec(double *ssmin, double *ssmax, double *cosl, double *sinl, double *cosr, double *sinr, double f, double g, double h);
static double elem2x2(Src &s, Case &c)
{
    if (s.chance(1, 8)) return 0;
    if (s.chance(1, 5)) return s.range(-3, 3);
    double v = 1 + ldexp((double)s.draw(1u << 30), -30);
    if (s.chance(1, 2)) v = -v;
    if (s.chance(1, 3)) v = ldexp(v, s.pickl({-500, -300, -60, -53, -52, -30, 30, 52, 53, 60, 300, 500}));
    return v;
}
TARGET(svd, bdsvd2x2, 6)
{
    double f = elem2x2(s, c), g = elem2x2(s, c), h = elem2x2(s, c);
    if (s.chance(1, 6)) h = s.chance(1, 2) ? f : -f;
    if (s.chance(1, 12)) g = f;
    bool vec = s.chance(2, 3);
    c.d("bdsvd2x2%s f=%.17g g=%.17g h=%.17g", vec ? "_vec" : "", f, g, h);
    c.label(vec ? "vec" : "values");
    LD F = fabsl((LD)f), G = fabsl((LD)g), H = fabsl((LD)h);
    LD s1 = (sqrtl(G * G + (F + H) * (F + H)) + sqrtl(G * G + (F - H) * (F - H))) / 2, s2 = s1 == 0 ? 0 : F * H / s1;
    const LD rel = 40 * (LD)UEPS, tiny = 4 * 4.9e-324L;
    double smin = 77, smax = 77;
    c.nontrivial = f != 0 && g != 0 && h != 0;
    if (!vec) {
        double r = armas_d_bdsvd2x2(&smin, &smax, f, g, h);
        if (!mode.value) return;
        CHECK(c, fabsl(smax - s1) <= rel * s1 + tiny, "smax %.17g, exact %.17Lg", smax, s1);
        CHECK(c, fabsl(smin - s2) <= rel * s2 + tiny, "smin %.17g, exact %.17Lg", smin, s2);
        CHECK(c, r == smin, "returns %.17g but smin is %.17g", r, smin);
        return;
    }
    double cl = 77, sl = 77, cr = 77, sr = 77;
    armas_d_bdsvd2x2_vec(&smin, &smax, &cl, &sl, &cr, &sr, f, g, h);
    if (!mode.value) return;
    for (double x : {smin, smax, cl, sl, cr, sr}) if (!std::isfinite(x)) c.fail("result not finite: smin=%g smax=%g left (%g,%g) right (%g,%g)", smin, smax, cl, sl, cr, sr);
    CHECK(c, fabsl(fabs(smax) - s1) <= rel * s1 + tiny, "|smax| %.17g, exact %.17Lg", smax, s1);
    CHECK(c, fabsl(fabs(smin) - s2) <= rel * s2 + tiny, "|smin| %.17g, exact %.17Lg", smin, s2);
    CHECK(c, fabsl((LD)cl * cl + (LD)sl * sl - 1) <= rel, "left rotation (%.17g, %.17g) is not orthogonal", cl, sl);
    CHECK(c, fabsl((LD)cr * cr + (LD)sr * sr - 1) <= rel, "right rotation (%.17g, %.17g) is not orthogonal", cr, sr);
    // (cl sl; -sl cl) (f g; 0 h) (cr -sr; sr cr) = diag(smax, smin)
    LD a00 = (LD)cl * f, a01 = (LD)cl * g + (LD)sl * h, a10 = -(LD)sl * f, a11 = -(LD)sl * g + (LD)cl * h;
    LD b[4] = {a00 * cr + a01 * sr - smax, a01 * cr - a00 * sr, a10 * cr + a11 * sr, a11 * cr - a10 * sr - smin};
    for (int i = 0; i < 4; i++) CHECK(c, fabsl(b[i]) <= rel * s1 + tiny, "element (%d,%d) of U'BV - S is %Lg, norm %Lg", i / 2, i % 2, b[i], s1);
}
