// Elementary transformations and small kernels (C16)
#include "lap.h"

static double expo(Src &s, int lim) { return ldexp(1.0, s.range(0, 2 * lim) - lim); }
// number of some magnitude class, zero included
static double anynum(Src &s, int lim)
{
    static const double k[] = {0.0, 1.0, -1.0, 2.0, -0.5, 3.0};
    int w = s.weighted({4, 4, 3});
    if (w == 0) return k[s.draw(6)];
    double x = Rng(s.seed()).sym();
    return w == 1 ? x : x * expo(s, lim);
}
static const char *fl(int flags)
{
    static char b[64];
    snprintf(b, sizeof b, "%s%s%s%s%s%s", flags & ARMAS_LEFT ? "LEFT " : "", flags & ARMAS_RIGHT ? "RIGHT " : "", flags & ARMAS_TRANS ? "TRANS " : "",
             flags & ARMAS_UNIT ? "UNIT " : "", flags & ARMAS_NONNEG ? "NONNEG " : "", flags & ARMAS_HHNEGATIVE ? "HHNEG" : "");
    return b;
}
typedef __float128 Q128;
static double qd(Q128 x) { return (double)x; }

TARGET(elem, qdroots, 6)
{
    double a = 0, b, cc;
    int w = s.weighted({3, 3, 3, 2});
    if (w == 0) {       // small integers
        a = s.pickl({1, -1, 2, 3, -5, 7}); b = s.range(0, 20) - 10; cc = s.range(0, 40) - 20;
    } else if (w == 1) {
        a = anynum(s, 30); b = anynum(s, 30); cc = anynum(s, 30);
        if (a == 0) a = 1;
    } else if (w == 2) {     // nearly coincident roots
        Rng g(s.seed());
        double r = g.sym() * 3, e = ldexp(g.sym(), -s.range(5, 30));
        a = 1 + g.unit(); b = a * (r + e / 2); cc = a * r * (r + e);
        if (s.chance(1, 2)) { a = (double)(float)a; b = (double)(float)b; }
    } else {        // integer coefficients with almost full precision, discriminant tiny
        double n = 94906265 + s.range(0, 2000);
        a = n; b = n - 1; cc = n - 2;
        if (s.chance(1, 3)) b = n + 1;
    }
    c.d("qdroots a=%.17g b=%.17g c=%.17g", a, b, cc);
    Q128 D = (Q128)b * b - (Q128)a * cc;
    double dv = 77;
    armas_discriminant(&dv, a, b, cc);
    if (!mode.value) return;
    Q128 aD = D < 0 ? -D : D;
    Q128 er = (Q128)dv - D; if (er < 0) er = -er;
    CHECK(c, er <= 8 * (Q128)UEPS * aD, "discriminant %.17g, exact value is %.17g", dv, qd(D));
    double x1 = 77, x2 = 77;
    int rc = armas_qdroots(&x1, &x2, a, b, cc);
    if (D < 0) { CHECK(c, rc != 0, "returned real roots for negative discriminant %g", qd(D)); c.label("complex"); return; }
    if (D > 0) CHECK(c, rc == 0, "returned %d for positive discriminant %g", rc, qd(D));
    if (rc) return;
    // reference roots
    LD sq = sqrtl((LD)D), p = (LD)b + (b < 0 ? -sq : sq), r1, r2;
    // sum above loses nothing: both terms of same sign
    r1 = p / a; r2 = p == 0 ? 0 : cc / p;
    LD lim = 16 * UEPS;
    if (!std::isfinite(x1) || !std::isfinite(x2) || fabsl(x1) < fabsl(x2) * (1 - lim) - 1e-300L) {
        c.fail("roots %.17g, %.17g: not finite or not ordered", x1, x2);
    }
    bool ok = fabsl(x1 - r1) <= lim * fabsl(r1) && fabsl(x2 - r2) <= lim * fabsl(r2);
    if (b == 0) ok = ok || (fabsl(x1 - r2) <= lim * fabsl(r2) && fabsl(x2 - r1) <= lim * fabsl(r1));
    CHECK(c, ok, "roots %.17g %.17g, expected %.17Lg %.17Lg", x1, x2, r1, r2);
    if (b == 0) c.label("zero linear term");
    if (cc == 0) c.label("zero constant");
    c.nontrivial = b != 0 && cc != 0;
}

// vector data for reflectors
static void fill_refl(Src &s, Mat &x, Mat &a, Case &c, int lim)
{
    int w = s.weighted({6, 2, 2, 2, 2});
    fill(s, x);
    double sc = 1;
    if (w == 1) { for (int i = 0; i < x.n(); i++) x.v(i) = 0; c.label("zero tail"); }
    if (w == 2) { sc = expo(s, lim); c.label("scaled"); }
    if (w == 3) { sc = ldexp(1.0, -s.range(20, 3 * lim / 2)); c.label("tiny tail"); }
    for (int i = 0; i < x.n(); i++) x.v(i) *= sc;
    a.e(0, 0) = w == 2 ? anynum(s, 10) * sc : anynum(s, 10);
    if (w == 4) { double t = ldexp(1.0, -(lim > 300 ? s.range(960, 1010) : s.range(900, 950))); for (int i = 0; i < x.n(); i++) x.v(i) *= t; a.e(0, 0) *= t; c.label("near underflow"); }
}
// verifies H = I - t v v', v = [v0; V], H [alpha; x] = [beta; 0]
static void judge_house(Case &c, LD alpha, const LM &x, LD t, LD v0, const LM &v, LD beta, int flags, bool unit)
{
    int n = x.r;
    LD mx = fabsl(alpha);
    for (int i = 0; i < n; i++) mx = std::max(mx, fabsl(x(i, 0)));
    if (mx == 0) { mx = 1; }
    LD nrm = 0, vv = v0 * v0, vx = v0 * (alpha / mx), nx = 0;
    for (int i = 0; i < n; i++) {
        LD xi = x(i, 0) / mx;
        nx += xi * xi;
        vv += v(i, 0) * v(i, 0); vx += v(i, 0) * xi;
    }
    nrm = sqrtl(alpha / mx * (alpha / mx) + nx);
    LD lim = 64 * (n + 8) * (LD)UEPS;
    // orthogonality: t v'v = 2 unless t is zero
    if (unit ? t != 0 : vv != 0) CHECK(c, fabsl(t * vv - 2) <= lim, "tau*v'v = %.17Lg, reflector is not orthogonal", t * vv);
    // image
    LD hb = alpha / mx - t * v0 * vx - (flags & ARMAS_HHNEGATIVE ? -1 : 1) * beta / mx;
    LD er = hb * hb;
    for (int i = 0; i < n; i++) { LD e = x(i, 0) / mx - t * v(i, 0) * vx; er += e * e; }
    er = sqrtl(er);
    CHECK(c, er <= lim * nrm + 1e-322L / mx, "|H*x - beta*e0|/|x| = %Lg (alpha=%.17Lg beta=%.17Lg tau=%.17Lg)", er / (nrm ? nrm : 1), alpha, beta, t);
    if (flags & ARMAS_NONNEG) CHECK(c, beta >= 0, "beta %.17Lg is negative", beta);
}
extern "C" int armas_d_house_vec(armas_dense_t *x, armas_dense_t *tau, int flags, armas_conf_t *cf);
TARGET(elem, house, 10)
{
    int n = s.chance(1, 8) ? s.range(0, 70) : s.range(0, 12);
    Mat x = s.chance(1, 2) ? mkcol(s, n) : mkrow(s, n), a = mk(s, 1, 1), t = mk(s, 1, 1);
    int flags = 0;
    bool unit = s.chance(2, 3);
    if (unit) { flags = ARMAS_UNIT; flags |= s.pickl({0, ARMAS_NONNEG, ARMAS_HHNEGATIVE, ARMAS_NONNEG | ARMAS_HHNEGATIVE}); }
    else flags = s.pickl({0, ARMAS_NONNEG});
    Conf cf = cfg(s, c, {});
    c.d("house n=%d+1 %s", n, fl(flags));
    fill_refl(s, x, a, c, unit ? 400 : 250);
    t.e(0, 0) = 55;
    LM x0 = x.lmv(); LD al = a.e(0, 0);
    c.d(" alpha=%.17g |x|=%Lg", (double)al, normMax(x0));
    x.snapshot(); a.snapshot(); t.snapshot();
    if (s.chance(1, 6)) {       // first element and the rest in one vector
        Mat y = mkvec(s, n + 1);
        y.v(0) = a.e(0, 0);
        for (int i = 0; i < n; i++) y.v(i + 1) = x.v(i);
        y.snapshot();
        c.label("house_vec");
        OKRC(c, armas_d_house_vec(&y, &t, flags, &cf), cf);
        frame_result(c, y, "x");
        a.e(0, 0) = y.v(0);
        for (int i = 0; i < n; i++) x.v(i) = y.v(i + 1);
    } else
    OKRC(c, armas_house(&a, &x, &t, flags, &cf), cf);
    frame_result(c, x, "x"); frame_result(c, a, "a11"); frame_result(c, t, "tau");
    if (!mode.value) return;
    LM v = x.lmv();
    if (!all_finite(v) || !std::isfinite(a.e(0, 0)) || !std::isfinite(t.e(0, 0))) c.fail("result not finite: a11=%g tau=%g", a.e(0, 0), t.e(0, 0));
    if (unit) judge_house(c, al, x0, t.e(0, 0), 1, v, a.e(0, 0), flags, true);
    else judge_house(c, al, x0, 2, a.e(0, 0), v, t.e(0, 0), flags, false);
    if (n > 0 && !(flags & (ARMAS_NONNEG | ARMAS_HHNEGATIVE)) && al != 0 && normMax(x0) > 0) {
        LD beta = unit ? a.e(0, 0) : t.e(0, 0);
        CHECK(c, (beta < 0) == (al > 0), "beta %Lg must have sign opposite to alpha %Lg (no cancellation)", beta, al);
    }
    c.nontrivial = n > 1 && normMax(x0) > 0;
}
static LM hmat(LD t, LD v0, const LM &v)
{
    int n = v.r + 1;
    LM H = eye(n), f(n, 1);
    f(0, 0) = v0;
    for (int i = 1; i < n; i++) f(i, 0) = v(i - 1, 0);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) H(i, j) -= t * f(i, 0) * f(j, 0);
    return H;
}
TARGET(elem, houseapply, 6)
{
    bool isv = s.chance(1, 4), unit = s.chance(1, 2);
    Dims dm(s, 100);
    int r = dm(s, isv ? 1 : 2, 24, 110), k = isv ? 1 : dm(s, 2, 20, 60);
    int side = s.pickl({ARMAS_LEFT, ARMAS_RIGHT, 0});
    bool right = side == ARMAS_RIGHT;
    Mat A = isv ? (right ? mkrow(s, r) : mkcol(s, r)) : mk(s, right ? k : r, right ? r : k);
    Mat v = mkvec(s, unit ? r - 1 : r), t = mk(s, 1, 1), w = mkcol(s, k);
    fill(s, A); fill(s, v); fill(s, t); fill(s, w);
    Conf cf = cfg(s, c, {});
    c.d("houseapply A=%s v=%s side=%s%s", sh(A).c_str(), sh(v).c_str(), fl(side), unit ? " unit" : "");
    LM a0 = A.lm(), vl = v.lmv(), H;
    if (unit) H = hmat(t.e(0, 0), 1, vl);
    else {
        H = eye(r);
        for (int j = 0; j < r; j++) for (int i = 0; i < r; i++) H(i, j) -= 2 * vl(i, 0) * vl(j, 0);
    }
    A.snapshot(); v.snapshot(); t.snapshot(); w.snapshot();
    OKRC(c, armas_houseapply(&A, unit ? &t : nullptr, &v, isv ? nullptr : &w, side | (unit ? ARMAS_UNIT : 0), &cf), cf);
    frame_result(c, A, "A"); frame_const(c, v, "v"); frame_const(c, t, "tau"); frame_result(c, w, "w");
    if (!mode.value) return;
    LM Ha = eye(r);     // |I| + |tau| |v| |v'|
    for (int j = 0; j < r; j++) for (int i = 0; i < r; i++) Ha(i, j) += fabsl(H(i, j) - (i == j));
    LM ref = right ? mul(a0, H) : mul(H, a0), ab = right ? mul(absm(a0), Ha) : mul(Ha, absm(a0));
    LD sc = normMax(ab);
    for (auto &x : ab.a) x = sc;
    cmpm(c, "A", A, ref, ab, 8 * (r + 4));
    c.nontrivial = r > 1;
}
TARGET(elem, houseapply2x1, 5)
{
    Dims dm(s, 100);
    int r = dm(s, 1, 20, 110), k = dm(s, 1, 20, 60);     // order of reflector, other dimension
    bool right = s.chance(1, 2);
    Mat A = mk(s, right ? k : r, right ? r : k), v = mkvec(s, r - 1), t = mk(s, 1, 1), w = mkcol(s, k + s.range(0, 2));
    fill(s, A); fill(s, v); fill(s, t);
    if (s.chance(1, 6)) t.e(0, 0) = 0;
    fill(s, w);
    bool nt = s.chance(1, 6);
    armas_dense_t a1, A2;
    if (right) { armas_submatrix(&a1, &A, 0, 0, k, 1); armas_submatrix(&A2, &A, 0, 1, k, r - 1); }
    else { armas_submatrix(&a1, &A, 0, 0, 1, k); armas_submatrix(&A2, &A, 1, 0, r - 1, k); }
    Conf cf = cfg(s, c, {});
    bool hyp = !nt && s.chance(1, 3);
    c.d("%s A=%s v=%s %s", hyp ? "hhouse_apply" : "houseapply2x1", sh(A).c_str(), sh(v).c_str(), right ? "right" : "left");
    LM a0 = A.lm(), vl = v.lmv(), H = hmat(nt ? 2 : t.e(0, 0), 1, vl);
    if (hyp) for (int j = 0; j < r; j++) for (int i = 0; i < r; i++) {
        LD x = (i == 0 ? 1 : vl(i - 1, 0)) * (j == 0 ? 1 : vl(j - 1, 0));
        bool neg = right ? j > 0 : i > 0;
        H(i, j) = (i == j) - (neg ? -1 : 1) * t.e(0, 0) * x;
    }
    A.snapshot(); v.snapshot(); t.snapshot(); w.snapshot();
    if (hyp) OKRC(c, armas_hhouse_apply(&t, &v, &a1, &A2, &w, right ? ARMAS_RIGHT : ARMAS_LEFT, &cf), cf);
    else OKRC(c, armas_houseapply2x1(&a1, &A2, nt ? nullptr : &t, &v, &w, right ? ARMAS_RIGHT : ARMAS_LEFT, &cf), cf);
    frame_result(c, A, "A"); frame_const(c, v, "v"); frame_const(c, t, "tau"); frame_except(c, w, "w", [&](int i, int) { return i < k; });
    if (!mode.value) return;
    LM Ha = eye(r);     // |I| + |tau| |v| |v'|
    for (int j = 0; j < r; j++) for (int i = 0; i < r; i++) Ha(i, j) += fabsl(H(i, j) - (i == j));
    LM ref = right ? mul(a0, H) : mul(H, a0), ab = right ? mul(absm(a0), Ha) : mul(Ha, absm(a0));
    LD sc = normMax(ab);
    for (auto &x : ab.a) x = sc;
    cmpm(c, "A", A, ref, ab, 8 * (r + 4));
    c.nontrivial = r > 1;
}
TARGET(elem, housemult, 8)
{
    Dims dm(s, 100);
    int n = dm(s, 1, 24, 70), k = s.range(1, n), o = s.chance(1, 5) ? 1 : dm(s, 1, 20, 40);
    bool unit = s.chance(1, 2);
    int side = s.pickl({ARMAS_LEFT, ARMAS_RIGHT, 0}), trans = s.pickl({0, ARMAS_TRANS});
    bool right = side == ARMAS_RIGHT;
    Mat Q = mk(s, n, k), X = mk(s, right ? o : n, right ? n : o), t = mkcol(s, k);
    if (n == 1 && o > 1) c.label("order one");
    fill(s, Q); fill(s, X); fill_mode(t, DM_UNI, s.seed());
    if (s.chance(1, 5)) t.v(s.below(k)) = 0;
    // moderate norms
    for (int j = 0; j < k; j++) {
        LD nn = 0;
        for (int i = unit ? j + 1 : j; i < n; i++) nn += (LD)Q.e(i, j) * Q.e(i, j);
        if (nn > 2) for (int i = 0; i < n; i++) Q.e(i, j) /= (double)sqrtl(nn);
    }
    Conf cf = cfg(s, c, {});
    c.d("housemult X=%s Q=%s %s%s", sh(X).c_str(), sh(Q).c_str(), fl(side | trans), unit ? " unit" : "");
    LM x0 = X.lm(), q = Q.lm(), H = eye(n);
    for (int j = 0; j < k; j++) {
        LM v(n, 1);
        for (int i = j; i < n; i++) v(i, 0) = i == j && unit ? 1 : q(i, j);
        LM Hj = eye(n);
        for (int b = 0; b < n; b++) for (int a = 0; a < n; a++) Hj(a, b) -= (unit ? (LD)t.v(j) : 2) * v(a, 0) * v(b, 0);
        H = mul(H, Hj);
    }
    if (trans) H = tr(H);
    int flags = side | trans | (unit ? ARMAS_UNIT : 0);
    Q.snapshot(); X.snapshot(); t.snapshot();
    armas_dense_t *tp = unit ? &t : nullptr;
    if (!wcall(s, c, cf, "housemult", {Q, X, t}, [&] { return armas_housemult(&X, tp, &Q, flags, &cf); }, [&](armas_wbuf_t *w) {
            if (w && w->bytes == 0 && o == 1) return 0;      // no workspace with vectors
            return armas_housemult_w(&X, tp, &Q, flags, o == 1 ? nullptr : w, &cf); })) return;
    frame_result(c, X, "X"); frame_const(c, Q, "Q"); frame_const(c, t, "tau");
    if (!mode.value) return;
    LM ref = right ? mul(x0, H) : mul(H, x0), ab(X.r(), X.c(), 0);
    LD sc = normF(x0) * powl(3, std::min(k, 6));
    for (auto &x : ab.a) x = sc;
    // product of non-orthogonal reflectors may grow: scale with actual factors
    LD g = 1;
    for (int j = 0; j < k; j++) {
        LD nn = unit ? 1 : 0;
        for (int i = unit ? j + 1 : j; i < n; i++) nn += q(i, j) * q(i, j);
        g *= std::max((LD)1, fabsl(1 - (unit ? (LD)fabs(t.v(j)) : 2) * nn)) + (LD)2 * (unit ? fabs(t.v(j)) : 2) * nn * 1e-3L;
    }
    for (auto &x : ab.a) x = normF(x0) * g;
    cmpm(c, "X", X, ref, ab, 16 * (n + 4) * (k + 1));
    c.nontrivial = k > 1 && n > 1;
}
TARGET(elem, hhouse, 6)
{
    Dims dm(s);
    int n = dm(s, 0, 14, 300);
    Mat x = mkvec(s, n), a = mk(s, 1, 1), t = mk(s, 1, 1);
    int flags = s.pickl({0, ARMAS_NONNEG, ARMAS_HHNEGATIVE, ARMAS_NONNEG | ARMAS_HHNEGATIVE});
    Conf cf = cfg(s, c, {});
    fill(s, x);
    if (s.chance(1, 8)) for (int i = 0; i < n; i++) x.v(i) = 0;
    double sc = s.chance(1, 4) ? ldexp(1.0, s.range(0, 600) - 300) : 1;
    if (s.chance(1, 10)) sc = ldexp(1.0, -s.range(960, 1000));
    for (int i = 0; i < n; i++) x.v(i) *= sc;
    LM x0 = x.lmv();
    LD nx = normF(x0);
    int kind = s.weighted({6, 2, 2, 1});
    Rng g(s.seed());
    LD al = nx * (1.01L + 3 * g.unit()) + (nx == 0 ? g.unit() : 0);
    if (kind == 1) al = nx * (1 + ldexpl(1, -s.range(6, 30)));
    if (kind == 2) al = nx * g.unit() * 0.99;
    if (kind == 3 && n == 1) al = fabsl(x0(0, 0));
    if (s.chance(1, 2)) al = -al;
    a.e(0, 0) = (double)al; t.e(0, 0) = 55;
    al = a.e(0, 0);
    c.d("hhouse n=%d+1 %s alpha=%.17Lg |x|=%.17Lg", n, fl(flags), al, nx);
    x.snapshot(); a.snapshot(); t.snapshot();
    int rc = armas_hhouse(&a, &x, &t, flags, &cf);
    frame_result(c, x, "x"); frame_result(c, a, "a11"); frame_result(c, t, "tau");
    if (!mode.value) return;
    LD gap = fabsl(al) - nx;
    if (gap < -1e-14L * nx || (n == 1 && gap == 0 && nx > 0)) {
        CHECK(c, rc < 0, "accepted vector with |alpha| <= |x| (alpha=%Lg |x|=%Lg)", al, nx);
        c.label("undefined");
        return;
    }
    if (gap <= 1e-14L * nx && rc < 0) return;
    CHECK(c, rc == 0, "returned %d for |alpha|=%.17Lg |x|=%.17Lg", rc, fabsl(al), nx);
    LM v = x.lmv();
    LD beta = a.e(0, 0), tau = t.e(0, 0);
    if (nx == 0) { CHECK(c, tau == 0, "tau=%Lg for zero tail", tau); return; }
    LD tb = sqrtl(gap) * sqrtl(fabsl(al) + nx), cond = al * al / (tb * tb);
    LD lim = 64 * (n + 8) * (LD)UEPS * cond;
    CHECK(c, fabsl(fabsl(beta) - tb) <= lim * tb + 1e-322L, "|beta|=%.17Lg, expected %.17Lg", fabsl(beta), tb);
    if (flags & ARMAS_NONNEG) CHECK(c, beta >= 0, "beta %Lg negative", beta);
    LD vv = 1;
    for (int i = 0; i < n; i++) vv -= v(i, 0) * v(i, 0);
    // H = I - tau J v v':  tau (v' J v) = 2
    LD vm = 2 - vv;
    CHECK(c, fabsl(tau * vv - 2) <= lim * std::max((LD)1, fabsl(tau) * vm), "tau*v'Jv = %.17Lg", tau * vv);
    // image: w = tau (alpha + v'x); alpha - w = +-beta; x + v w = 0
    LD wv = al, wa = fabsl(al);
    for (int i = 0; i < n; i++) { wv += v(i, 0) * x0(i, 0); wa += fabsl(v(i, 0) * x0(i, 0)); }
    wv *= tau; wa *= fabsl(tau);
    LD e0 = fabsl(al - wv - (flags & ARMAS_HHNEGATIVE ? -beta : beta));
    CHECK(c, e0 <= lim * (fabsl(al) + wa) + 1e-322L, "first element of H*x off by %Lg (alpha=%Lg beta=%Lg tau=%Lg)", e0, al, beta, tau);
    for (int i = 0; i < n; i++) {
        LD e = fabsl(x0(i, 0) + v(i, 0) * wv);
        CHECK(c, e <= lim * (fabsl(al) + wa * (1 + fabsl(v(i, 0)))) + 1e-322L, "element %d of H*x is %Lg", i + 1, e);
    }
    c.nontrivial = n > 1;
}

TARGET(elem, gvcompute, 4)
{
    double a = anynum(s, 500), b = anynum(s, 500), co = 9, si = 9, r = 9;
    int w = s.weighted({4, 1, 1, 1});
    if (w == 1) b = 0;
    if (w == 2) a = 0;
    if (w == 3) b = s.chance(1, 2) ? a : -a;
    c.d("gvcompute a=%.17g b=%.17g", a, b);
    armas_gvcompute(&co, &si, &r, a, b);
    if (!mode.value) return;
    if (!std::isfinite(co) || !std::isfinite(si) || !std::isfinite(r)) c.fail("not finite: c=%g s=%g r=%g", co, si, r);
    LD lim = 16 * UEPS, n = sqrtl((LD)a * a + (LD)b * b);
    CHECK(c, fabsl((LD)co * co + (LD)si * si - 1) <= lim, "c^2+s^2 = 1 + %Lg", (LD)co * co + (LD)si * si - 1);
    CHECK(c, fabsl((LD)co * a + (LD)si * b - r) <= lim * n, "c*a+s*b = %Lg, r = %g", (LD)co * a + (LD)si * b, r);
    CHECK(c, fabsl((LD)co * b - (LD)si * a) <= lim * n, "c*b-s*a = %Lg", (LD)co * b - (LD)si * a);
    CHECK(c, fabsl(fabsl(r) - n) <= lim * n, "|r| = %g, norm is %Lg", fabs(r), n);
    c.nontrivial = a != 0 && b != 0;
}
static void cs(Rng &g, double &co, double &si)
{
    double a = g.sym() * 3.2;
    co = cos(a); si = sin(a);
    int k = g.below(8);
    if (k == 0) { co = 1; si = 0; }
    if (k == 1) { co = 0; si = 1; }
    if (k == 2) { co = -1; si = 0; }
}
TARGET(elem, gvapply, 6)
{
    Dims dm(s);
    int r = dm(s, 1, 16, 120), k = dm(s, 1, 16, 120), op = s.draw(4);
    Rng g(s.seed());
    double co, si;
    cs(g, co, si);
    if (op == 0) {
        double y0 = anynum(s, 300), y1 = anynum(s, 300), v0, v1;
        c.d("gvrotate c=%.17g s=%.17g y=%g,%g", co, si, y0, y1);
        armas_gvrotate(&v0, &v1, co, si, y0, y1);
        if (!mode.value) return;
        cmp(c, "v0", v0, (LD)co * y0 + (LD)si * y1, fabsl((LD)co * y0) + fabsl((LD)si * y1), 4);
        cmp(c, "v1", v1, (LD)co * y1 - (LD)si * y0, fabsl((LD)co * y1) + fabsl((LD)si * y0), 4);
        c.nontrivial = true;
        return;
    }
    if (op == 3) {
        Mat x = mkvec(s, r), y = mkvec(s, r);
        fill(s, x); fill(s, y);
        c.d("gvrot_vec x=%s y=%s", sh(x).c_str(), sh(y).c_str());
        LM X = x.lmv(), Y = y.lmv();
        x.snapshot(); y.snapshot();
        armas_gvrot_vec(&x, &y, co, si);
        frame_result(c, x, "x"); frame_result(c, y, "y");
        if (!mode.value) return;
        for (int i = 0; i < r; i++) {
            cmp(c, "x", x.v(i), (LD)co * X(i, 0) + (LD)si * Y(i, 0), fabsl(X(i, 0)) + fabsl(Y(i, 0)), 4);
            cmp(c, "y", y.v(i), (LD)co * Y(i, 0) - (LD)si * X(i, 0), fabsl(X(i, 0)) + fabsl(Y(i, 0)), 4);
        }
        c.nontrivial = r > 1;
        return;
    }
    Mat A = mk(s, r, k);
    fill(s, A);
    LM A0 = A.lm(), ref = A0, ab(r, k, normMax(A0));
    bool right = op == 2;
    int lim = right ? k : r, oth = right ? r : k;
    int i1 = s.below(lim), i2 = s.below(lim), st = s.range(0, oth), n = s.range(0, oth + 2);
    c.d("%s A=%s i1=%d i2=%d start=%d n=%d c=%.17g s=%.17g", right ? "gvright" : "gvleft", sh(A).c_str(), i1, i2, st, n, co, si);
    A.snapshot();
    if (right) armas_gvright(&A, co, si, i1, i2, st, n); else armas_gvleft(&A, co, si, i1, i2, st, n);
    frame_except(c, A, "A", [&](int i, int j) { int x = right ? j : i, y = right ? i : j; return (x == i1 || x == i2) && y >= st && y < st + n; });
    if (!mode.value) return;
    for (int y = st; y < std::min(oth, st + n); y++) {
        LD &p = right ? ref(y, i1) : ref(i1, y), &q = right ? ref(y, i2) : ref(i2, y);
        if (i1 == i2) p = co * p;
        else { LD a = p, b = q; p = co * a + si * b; q = co * b - si * a; }
    }
    cmpm(c, "A", A, ref, ab, 8);
    if (st + n > oth) c.label("clamped");
    c.nontrivial = n > 1 && i1 != i2;
}
TARGET(elem, gvupdate, 6)
{
    Dims dm(s);
    int r = dm(s, 1, 16, 120), k = dm(s, 1, 16, 120);
    Mat A = mk(s, r, k);
    bool left = s.chance(1, 2), back = s.chance(1, 2);
    int dim = left ? r : k, start = s.below(dim), nrot = s.range(0, dim + 1);
    Mat C = mkvec(s, std::max(1, nrot)), S = mkvec(s, std::max(1, nrot));
    fill(s, A);
    Rng g(s.seed());
    for (int i = 0; i < nrot; i++) cs(g, C.v(i), S.v(i));
    c.d("gvupdate A=%s start=%d nrot=%d %s %s", sh(A).c_str(), start, nrot, left ? "left" : "right", back ? "backward" : "forward");
    LM A0 = A.lm(), ref = A0;
    A.snapshot(); C.snapshot(); S.snapshot();
    int rc = armas_gvupdate(&A, start, &C, &S, nrot, (left ? ARMAS_LEFT : ARMAS_RIGHT) | (back ? ARMAS_BACKWARD : s.pickl({0, ARMAS_FORWARD})));
    frame_result(c, A, "A"); frame_const(c, C, "C"); frame_const(c, S, "S");
    if (!mode.value) return;
    int n = std::max(0, std::min(nrot, dim - 1 - start));
    if (rc != n) c.fail("returned %d, applied should be %d", rc, n);
    for (int q = 0; q < n; q++) {
        int m = back ? n - 1 - q : q, i = start + m;
        LD co = C.v(m), si = S.v(m);
        for (int y = 0; y < (left ? k : r); y++) {
            LD &a = left ? ref(i, y) : ref(y, i), &b = left ? ref(i + 1, y) : ref(y, i + 1);
            LD t = co * a + si * b;
            b = co * b - si * a;
            a = t;
        }
    }
    LM ab(r, k, normF(A0));
    cmpm(c, "A", A, ref, ab, 8 * (n + 2));
    if (n < nrot) c.label("clamped");
    c.nontrivial = n > 1;
}

// partial recursive butterfly matrix as the product of its levels
static LM butterfly(const LM &R, int n, int d)
{
    int two = 1 << d, Nd = (n + two - 1) / two * two;
    LM U = eye(n);
    for (int l = 0; l < d; l++) {
        int blk = Nd >> (d - 1 - l), half = blk / 2;
        LM B(n, n);
        for (int st = 0; st < n; st += blk)
            for (int i = 0; i < half; i++) {
                int p = st + i, q = p + half;
                if (p >= n) break;
                B(p, p) = R(p, l);
                if (q < n) { B(p, q) = R(q, l); B(q, p) = R(p, l); B(q, q) = -R(q, l); }
            }
        for (auto &x : B.a) x *= sqrtl(0.5L);
        U = mul(U, B);
    }
    return U;
}
TARGET(elem, rbt, 8)
{
    int op = s.weighted({5, 3, 0, 1});
    int d = s.chance(1, 16) ? s.range(5, 7) : s.range(1, 4);
    if (op == 3) {
        Mat R = mk(s, s.range(1, 20), d);
        c.d("gen_rbt R=%s", sh(R).c_str());
        R.snapshot();
        armas_gen_rbt(&R);
        frame_result(c, R, "R");
        if (mode.value) for (int j = 0; j < R.c(); j++) for (int i = 0; i < R.r(); i++) {
            double x = R.e(i, j);
            if (!(x >= exp(-0.05) * (1 - 1e-12) && x <= exp(0.05) * (1 + 1e-12))) c.fail("element (%d,%d) = %g not in [exp(-1/20), exp(1/20)]", i, j, x);
        }
        c.nontrivial = true;
        return;
    }
    Dims dm(s, 24);
    int n = dm(s, 1, 21, 160), k = op ? n : dm(s, 1, 12, 120);
    bool right = s.chance(1, 2);
    int side = right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0});
    int trans = s.pickl({0, ARMAS_TRANS});
    int nr = op && s.chance(1, 4) ? n + s.range(1, 9) : n;       // rows of butterflies, those after n are not used
    Mat A = mk(s, right ? k : n, right ? n : k), R = mk(s, nr, d), V = mk(s, nr, op ? d : 1);
    fill(s, A); fill_mode(R, DM_UNI, s.seed()); fill_mode(V, DM_UNI, s.seed());
    if (s.chance(1, 2)) { for (Mat *M : MatList{R, V}) for (int j = 0; j < M->c(); j++) for (int i = 0; i < n; i++) M->e(i, j) = exp(M->e(i, j) / 20); }
    Conf cf = cfg(s, c, {});
    if (op == 0) c.d("mult_rbt A=%s R=%s %s", sh(A).c_str(), sh(R).c_str(), fl(side | trans));
    else c.d("update2_rbt A=%s U=%s V=%s", sh(A).c_str(), sh(R).c_str(), sh(V).c_str());
    LM A0 = A.lm(), U = butterfly(R.lm(), n, d), ref, ab;
    if (op == 0) {
        if (trans) U = tr(U);
        ref = right ? mul(A0, U) : mul(U, A0);
    } else ref = mul(tr(U), mul(A0, butterfly(V.lm(), n, d)));
    ab = LM(A.r(), A.c(), normF(A0));
    A.snapshot(); R.snapshot(); V.snapshot();
    if (op == 0) OKRC(c, armas_mult_rbt(&A, &R, side | trans, &cf), cf);
    else OKRC(c, armas_update2_rbt(&A, &R, &V, &cf), cf);
    frame_result(c, A, "A"); frame_const(c, R, "R"); frame_const(c, V, "V");
    if (!mode.value) return;
    cmpm(c, "A", A, ref, ab, 32 * (d + 2));
    if (n < (1 << d)) c.label("small");
    c.nontrivial = n > 1 && d > 1;
}

TARGET(elem, diag, 8)
{
    bool solve = s.chance(1, 2), right = s.chance(1, 2);
    Dims dm(s);
    int n = dm(s, 0, 20, 200), k = dm(s, 0, 20, 150);
    double al = rnd_scalar(s);
    Mat A = s.chance(1, 4) ? mkvec(s, n) : mk(s, right ? k : n, right ? n : k);
    bool isv = armas_isvector(&A) && A.n() == n;
    bool md = n > 1 && s.chance(1, 3);
    Mat D = md ? mk(s, n, n) : mkvec(s, n);
    fill(s, A); fill(s, D);
    if (!md && n == 0) c.discard();
    auto dv = [&](int i) -> double & { return md ? D.e(i, i) : D.v(i); };
    if (solve) for (int i = 0; i < n; i++) if (dv(i) == 0) dv(i) = 1.5;
    if (md) { int p = polkind(s); pollute(D, p, [](int i, int j) { return i != j; }); }
    int side = right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0});
    Conf cf = cfg(s, c, {});
    c.d("%s A=%s D=%s alpha=%g %s", solve ? "solve_diag" : "mult_diag", sh(A).c_str(), sh(D).c_str(), al, right ? "right" : "left");
    LM A0 = A.lm(), ref = A0, ab = absm(A0);
    if (!isv && (right ? A.c() : A.r()) != n) c.discard();
    for (int j = 0; j < A.c(); j++) for (int i = 0; i < A.r(); i++) {
        int q = isv ? std::max(i, j) : right ? j : i;
        LD x = dv(q);
        ref(i, j) = solve ? al * A0(i, j) / x : al * A0(i, j) * x;
    }
    ab = absm(ref);
    A.snapshot(); D.snapshot();
    if (solve) OKRC(c, armas_solve_diag(&A, al, &D, side, &cf), cf); else OKRC(c, armas_mult_diag(&A, al, &D, side, &cf), cf);
    frame_result(c, A, "A"); frame_const(c, D, "D");
    if (!mode.value) return;
    cmpm(c, "A", A, ref, ab, 6);
    c.nontrivial = A.n() > 1;
}
