// Symmetric eigenvalue problems (C14)
#include "lap.h"

typedef std::vector<LD> LV;
// eigenvalues of symmetric tridiagonal (d, e) less than x
static int td_below(const LV &d, const LV &e, LD x)
{
    int n = (int)d.size(), neg = 0;
    LD q = 1;
    for (int k = 0; k < n; k++) {
        LD b2 = k ? e[k - 1] * e[k - 1] : 0;
        if (q == 0) q = 1e-4000L;
        q = (d[k] - x) - b2 / q;
        if (q < 0) neg++;
    }
    return neg;
}
static LD td_norm(const LV &d, const LV &e)
{
    LD s = 0;
    for (auto x : d) s = std::max(s, fabsl(x));
    for (auto x : e) s = std::max(s, fabsl(x));
    return s;
}
// y[i] is eigenvalue number first+i to within del
static void td_values(Case &c, const char *what, const LV &d, const LV &e, const Mat &Y, int cnt, int first, LD del)
{
    for (int i = 0; i < cnt; i++) {
        LD y = Y.v(i);
        if (!std::isfinite((double)y)) c.fail("%s: eigenvalue %d is %g", what, i, (double)y);
        if (i && y < Y.v(i - 1) - (first ? del : 0)) c.fail("%s: eigenvalues not in ascending order: %.17g then %.17Lg at %d", what, Y.v(i - 1), y, i);
        int k = first + i;
        if (td_below(d, e, y - del) > k) c.fail("%s: eigenvalue %d is %.17Lg, too large by more than %.3Lg", what, k, y, del);
        if (td_below(d, e, y + del) < k + 1) c.fail("%s: eigenvalue %d is %.17Lg, too small by more than %.3Lg", what, k, y, del);
    }
}
static void asc(Case &c, const char *what, const Mat &D, int n)
{
    for (int i = 0; i < n; i++) {
        if (!std::isfinite(D.v(i))) c.fail("%s: eigenvalue %d is %g", what, i, D.v(i));
        if (i && D.v(i) < D.v(i - 1)) c.fail("%s: eigenvalues not in ascending order: %.17g then %.17g at %d", what, D.v(i - 1), D.v(i), i);
    }
}
// random symmetric matrices with various spectra; exactly symmetric
static LM sym_gen(Src &s, Case &c, int n)
{
    static const char *nm[] = {"random", "spd", "clustered", "graded", "repeated", "lowrank", "integer", "diagonal", "tridiag", "zero", "negdef", "two-sign"};
    int k = s.pickl({0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
    Rng g(s.seed());
    LM A(n, n);
    std::vector<double> w(n);
    switch (k) {
    case 0: for (int j = 0; j < n; j++) for (int i = j; i < n; i++) A(i, j) = A(j, i) = g.sym(); break;
    case 1: for (auto &x : w) x = g.unit() + 0.01; A = symwith(g, w); break;
    case 2: for (auto &x : w) x = 1 + 1e-9 * g.sym(); A = symwith(g, w); break;
    case 3: for (int i = 0; i < n; i++) w[i] = pow(10.0, -14.0 * i / n) * (g.below(2) ? 1 : -1); A = symwith(g, w); break;
    case 4: for (auto &x : w) x = g.below(3); A = symwith(g, w); break;
    case 5: for (int i = 0; i < n; i++) w[i] = i < 2 ? g.sym() : 0; A = symwith(g, w); break;
    case 6: for (int j = 0; j < n; j++) for (int i = j; i < n; i++) A(i, j) = A(j, i) = g.below(7) - 3; break;
    case 7: for (int i = 0; i < n; i++) A(i, i) = g.below(4) ? g.sym() : 0; break;
    case 8: for (int i = 0; i < n; i++) { A(i, i) = g.sym(); if (i) A(i, i - 1) = A(i - 1, i) = g.below(3) ? g.sym() : 0; } break;
    case 9: break;
    case 10: for (auto &x : w) x = -g.unit() - 0.01; A = symwith(g, w); break;
    case 11: for (auto &x : w) x = g.below(2) ? 1 : -1; A = symwith(g, w); break;
    }
    int sc = s.pickl({0, 0, 0, 0, 60, -60, 200, -200});
    for (auto &x : A.a) x = ldexpl((double)x, sc);
    for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) A(i, j) = A(j, i);
    c.d(" [%s 2^%d]", nm[k], sc);
    c.label(nm[k]);
    return A;
}
// stores the triangle named by fl (lower for none), fills the other one with junk that must not matter
static void put_tri(Mat &A, const LM &S, int fl, bool junk, uint64_t seed)
{
    Rng g(seed);
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            A.e(i, j) = (double)S(i, j);
    if (junk)
        for (int j = 0; j < A.c(); j++)
            for (int i = 0; i < A.r(); i++)
                if (fl & ARMAS_UPPER ? i > j : i < j) A.e(i, j) = 1e3 * g.sym();
}
static LD evtol(int n) { return (60 + 12 * N(n)) * UEPS; }
static void check_vec(Case &c, const char *what, const LM &A0, const LM &V, const Mat &D, LD tol)
{
    int n = A0.r;
    LD an = normF(A0);
    ortho(c, what, V, tol);
    LM R = mul(A0, V);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) R(i, j) -= V(i, j) * D.v(j);
    small(c, "A V - V D", normF(R), tol * an);
}
TARGET(evd, eigen_sym, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    int n = dlap(s, 60);
    Mat A = mk(s, n, n), D = mkvec(s, n);
    bool wv = !s.chance(1, 4);
    int fl = s.pickl({ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER, 0});
    bool junk = s.chance(1, 2);
    c.d(" eigen_sym A=%s D=%s %s%s", sh(A).c_str(), sh(D).c_str(), fl == ARMAS_UPPER ? "upper" : fl ? "lower" : "none", wv ? " vectors" : "");
    LM A0 = sym_gen(s, c, n);
    put_tri(A, A0, fl, junk, s.seed());
    c.nontrivial = n > 2;
    A.snapshot(); D.snapshot();
    fl |= wv ? ARMAS_WANTV : 0;
    if (!wcall(s, c, cf, "eigen_sym", {A, D}, [&] { return armas_eigen_sym(&D, &A, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_eigen_sym_w(&D, &A, fl, w, &cf); })) return;
    frame_result(c, A, "A"); frame_result(c, D, "D");
    if (!mode.value) return;
    LD tol = evtol(n), an = normF(A0);
    asc(c, "eigen_sym", D, n);
    if (wv) {
        need_finite(c, "V", A);
        check_vec(c, "V", A0, A.lm(), D, tol);
        return;
    }
    Mat A2 = tight(n, n), D2 = tight(n, 1);
    A2.set(A0);
    Conf c2 = conf0();
    int rc = armas_eigen_sym(&D2, &A2, ARMAS_LOWER | ARMAS_WANTV, &c2); if (rc < 0) oom(c, "reference", rc, c2);
    if (rc < 0) c.fail("eigen_sym with vectors returned %d (error %d)", rc, c2.err());
    check_vec(c, "V (second run)", A0, A2.lm(), D2, tol);
    for (int i = 0; i < n; i++) small(c, "eigenvalues without vectors against with vectors", fabsl((LD)D.v(i) - D2.v(i)), 2 * tol * an);
}
// selection of eigenvalues: returns false if the selection is ambiguous
struct Sel { armas_eigen_parameter_t p; bool null = false; int lo = 0, hi = 0; };
static bool pick_sel(Src &s, Case &c, Sel &q, const std::function<int(LD)> &below, int n, LD norm, LD tol)
{
    q.p = {-1, -1, 0.0, 0.0, 0.0};
    q.lo = 0; q.hi = n;
    switch (s.weighted({2, 1, 5, 4})) {
    case 0: c.d(" all"); break;
    case 1: q.null = true; c.d(" null"); break;
    case 2: {
        int l = s.range(0, n - 1), r = s.range(l + 1, n + (s.chance(1, 6) ? 2 : 0));
        q.p.ileft = l; q.p.iright = r;
        q.lo = l; q.hi = std::min(r, n);
        c.d(" index [%d,%d)", l, r);
        break; }
    case 3: {
        double a = (double)(norm * 1.5 * (s.range(-1000, 1000) / 1000.0)), b = (double)(norm * 1.5 * (s.range(-1000, 1000) / 1000.0));
        if (s.chance(1, 6)) a = (double)(-4 * norm);
        if (s.chance(1, 6)) b = (double)(4 * norm);
        if (a > b) std::swap(a, b);
        q.p.ileft = q.p.iright = 0; q.p.left = a; q.p.right = b;
        c.d(" values [%g,%g)", a, b);
        q.lo = below(a); q.hi = below(b);
        if (a == b) q.hi = q.lo;
        // an end too close to an eigenvalue: either answer is right
        if (below(a - tol) != below(a + tol) || below(b - tol) != below(b + tol)) return false;
        break; }
    }
    if (s.chance(1, 4) && !q.null) { q.p.tau = (double)(norm * pow(10.0, -s.range(3, 15))); c.d(" tau %g", q.p.tau); }
    return true;
}
static LV tri_gen(Src &s, Case &c, int n, LV &e)
{
    static const char *nm[] = {"random", "graded-up", "graded-down", "zero-diag", "zero-off", "integers", "toeplitz", "wilkinson", "tiny-off", "zero", "pairs", "wide"};
    int k = s.pickl({0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
    Rng g(s.seed());
    LV d(n);
    e.assign(n > 0 ? n - 1 : 0, 0);
    for (int i = 0; i < n; i++) {
        LD dd = g.sym(), ee = g.sym();
        switch (k) {
        case 1: dd = powl(10.0L, -12.0L * i / n) * (1 + g.unit()); ee = dd * g.sym(); break;
        case 2: dd = powl(10.0L, -12.0L * (n - 1 - i) / n) * (1 + g.unit()); ee = dd * g.sym(); break;
        case 3: if (g.below(2) == 0) dd = 0; break;
        case 4: if (g.below(3) == 0) ee = 0; if (g.below(6) == 0) dd = 0; break;
        case 5: dd = g.below(7) - 3; ee = g.below(5) - 2; break;
        case 6: dd = 2; ee = -1; break;
        case 7: dd = fabsl((LD)i - n / 2); ee = 1; break;
        case 8: ee *= 1e-9; break;
        case 9: dd = ee = 0; break;
        case 10: dd = g.below(2); ee = i % 2 ? 0 : 1; break;
        case 11: dd = powl(10.0L, g.sym() * 6); ee = powl(10.0L, g.sym() * 6); break;
        }
        d[i] = dd;
        if (i < n - 1) e[i] = ee;
    }
    int sc = s.pickl({0, 0, 0, 0, 60, -60, 150, -150});
    for (auto &x : d) x = ldexp((double)x, sc);
    for (auto &x : e) x = ldexp((double)x, sc);
    c.d(" [%s 2^%d]", nm[k], sc);
    c.label(nm[k]);
    return d;
}
TARGET(evd, selected, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    int n = dlap(s, 50);
    int fl = s.pickl({ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER, 0});
    c.d(" eigen_sym_selected n=%d %s", n, fl == ARMAS_UPPER ? "upper" : fl ? "lower" : "none");
    LM A0 = sym_gen(s, c, n);
    LD an = normF(A0), tol = evtol(n);
    // reference spectrum: full decomposition judged by its residual
    Mat A2 = tight(n, n), D2 = tight(n, 1);
    A2.set(A0);
    Conf c2 = conf0();
    int rc = armas_eigen_sym(&D2, &A2, ARMAS_LOWER | ARMAS_WANTV, &c2); if (rc < 0) oom(c, "reference", rc, c2);
    if (rc < 0) c.fail("eigen_sym with vectors returned %d (error %d)", rc, c2.err());
    if (mode.value) check_vec(c, "V (reference run)", A0, A2.lm(), D2, tol);
    auto below = [&](LD x) { int k = 0; while (k < n && D2.v(k) < x) k++; return k; };
    Sel q;
    if (!pick_sel(s, c, q, below, n, an, 4 * tol * an + 1e-290L)) c.discard();
    int cnt = std::max(0, q.hi - q.lo), extra = s.chance(1, 3) ? s.range(1, 5) : 0;
    Mat A = mk(s, n, n), D = mkvec(s, std::max(1, cnt + extra));
    c.d(" A=%s D=%s", sh(A).c_str(), sh(D).c_str());
    put_tri(A, A0, fl, s.chance(1, 2), s.seed());
    c.nontrivial = n > 2 && cnt > 0;
    A.snapshot(); D.snapshot();
    auto *pp = q.null ? nullptr : &q.p;
    if (!wcall(s, c, cf, "eigen_sym_selected", {A, D}, [&] { return armas_eigen_sym_selected(&D, &A, pp, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_eigen_sym_selected_w(&D, &A, pp, fl, w, &cf); })) return;
    frame_result(c, A, "A"); frame_result(c, D, "D");
    if (!mode.value) return;
    LD del = 3 * tol * an + 2 * q.p.tau + 1e-290L;
    for (int i = 0; i < cnt; i++) {
        if (!std::isfinite(D.v(i))) c.fail("eigenvalue %d is %g", i, D.v(i));
        if (i && D.v(i) < D.v(i - 1) - del) c.fail("eigenvalues not ascending at %d", i);
        small(c, "selected eigenvalue", fabsl((LD)D.v(i) - D2.v(q.lo + i)), del);
    }
}
TARGET(evd, trdbisect, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Dims dm(s);
    int n = s.chance(1, 10) ? s.range(1, 3) : dm(s, 1, 40, 150);
    c.d(" trdbisect n=%d", n);
    LV e, d = tri_gen(s, c, n, e);
    LD bn = td_norm(d, e), tol = evtol(n);
    Sel q;
    if (!pick_sel(s, c, q, [&](LD x) { return td_below(d, e, x); }, n, bn, 8 * tol * bn + 1e-290L)) c.discard();
    int cnt = std::max(0, q.hi - q.lo), extra = s.chance(1, 3) ? s.range(1, 5) : 0;
    bool shorty = cnt > 1 && s.chance(1, 10);
    Mat D = mkvec(s, n), E = mkvec(s, n - 1), Y = mkvec(s, shorty ? s.range(1, cnt - 1) : std::max(1, cnt + extra));
    c.d(" D=%s E=%s Y=%s", sh(D).c_str(), sh(E).c_str(), sh(Y).c_str());
    for (int i = 0; i < n; i++) { D.v(i) = (double)d[i]; if (i < n - 1) E.v(i) = (double)e[i]; }
    c.nontrivial = n > 2 && cnt > 0;
    D.snapshot(); E.snapshot(); Y.snapshot();
    int rc = armas_trdbisect(&Y, &D, &E, q.null ? nullptr : &q.p, &cf);
    frame_const(c, D, "D"); frame_const(c, E, "E"); frame_result(c, Y, "Y");
    if (shorty) {
        if (rc >= 0) c.fail("result vector of %d elements for %d eigenvalues was accepted", Y.n(), cnt);
        c.label("short-result");
        return;
    }
    if (rc != 0) c.fail("trdbisect returned %d (error %d)", rc, cf.err());
    if (!mode.value) return;
    td_values(c, "trdbisect", d, e, Y, cnt, q.lo, 8 * tol * bn + 2 * q.p.tau + 1e-290L);
}
TARGET(evd, trdeigen, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    int n = dlap(s, 70);
    Mat D = mkvec(s, n), E = mkvec(s, n - 1), V;
    bool wv = s.chance(2, 3), ident = s.chance(1, 2);
    if (wv) V = mk(s, n, n);
    int fl = (wv ? ARMAS_WANTV : 0) | (s.chance(1, 4) ? ARMAS_FORWARD : 0);
    if (s.chance(1, 6)) cf.tolmult = s.pickl({1, 4, 20, 100});
    c.d(" trdeigen D=%s E=%s fl=%x tolmult=%d V=%s", sh(D).c_str(), sh(E).c_str(), fl, (int)cf.tolmult, wv ? sh(V).c_str() : "-");
    LV e, d = tri_gen(s, c, n, e);
    for (int i = 0; i < n; i++) { D.v(i) = (double)d[i]; if (i < n - 1) E.v(i) = (double)e[i]; }
    c.nontrivial = n > 2;
    Rng g(s.seed());
    LM V0;
    if (wv) { LM Q = ident ? eye(n) : rndorth(g, n); V.set(Q); V0 = V.lm(); V.snapshot(); }
    D.snapshot(); E.snapshot();
    armas_dense_t *pv = wv ? &V : nullptr;
    MatList ops{D, E};
    if (wv) ops.push_back(std::addressof(V));
    if (!wcall(s, c, cf, "trdeigen", ops, [&] { return armas_trdeigen(&D, &E, pv, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_trdeigen_w(&D, &E, pv, fl, w, &cf); })) return;
    frame_result(c, D, "D"); frame_result(c, E, "E");
    if (wv) frame_result(c, V, "V");
    if (!mode.value) return;
    LD bn = td_norm(d, e), tm = cf.tolmult ? cf.tolmult : 5;
    LD tol = (60 + (12 + tm) * N(n)) * UEPS;
    td_values(c, "trdeigen", d, e, D, n, 0, 2 * tol * bn + 1e-290L);
    if (wv) {
        need_finite(c, "V", V);
        LM V1 = V.lm(), T(n, n);
        for (int i = 0; i < n; i++) { T(i, i) = d[i]; if (i < n - 1) T(i, i + 1) = T(i + 1, i) = e[i]; }
        ortho(c, "V", V1, tol);
        LM L = mul(V0, mul(T, mul(tr(V0), V1)));
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) L(i, j) -= V1(i, j) * D.v(j);
        small(c, "V0 T V0' V - V D", normF(L), 2 * tol * normF(T));
    }
}
// D + rho z z': eigenvalues less than x
static int sec_below(const LV &d, const LV &z, LD rho, LD x)
{
    int neg = 0;
    LD f = 1;
    for (size_t i = 0; i < d.size(); i++) {
        if (d[i] < x) neg++;
        f += rho * z[i] * (z[i] / (d[i] - x));
    }
    return f < 0 ? neg - 1 : neg;
}
TARGET(evd, trdsec, 6)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Dims dm(s);
    int n = s.chance(1, 8) ? s.range(1, 3) : dm(s, 2, 50, 200);
    Rng g(s.seed());
    LV d(n), z(n);
    int k = s.pickl({0, 0, 1, 2, 3, 4});
    static const char *nm[] = {"random", "equispaced", "close-pairs", "wide", "geometric"};
    LD x = g.sym(), zn = 0;
    int zk = s.pickl({0, 0, 0, 1, 2, 3});
    for (int i = 0; i < n; i++) {
        LD gap = 0.05 + g.unit();
        if (k == 1) gap = 1;
        if (k == 2 && i % 2) gap = 1e-6 * (1 + g.unit());
        if (k == 3) gap = powl(10.0L, g.sym() * 4);
        if (k == 4) gap = 1.3 * fabsl(x) + 0.01;
        if (i) x += gap;
        d[i] = (double)x;
        z[i] = zk == 1 ? 1 : (0.02 + g.unit());
        if (zk == 2 && g.below(2)) z[i] *= 1e-4;
        if (zk != 3 && zk != 1 && g.below(2)) z[i] = -z[i];
        zn = hypotl(zn, z[i]);
    }
    LD dn = 0;
    for (int i = 0; i < n; i++) { z[i] = (double)(z[i] / zn); dn = std::max(dn, fabsl(d[i])); }
    double rho = s.pickl({1, 1, 2, 10, 100}) * (s.chance(1, 3) ? 0.01 : 1.0) * (0.5 + g.unit());
    int op = s.weighted({2, 3, 3});
    static const char *on[] = {"solve", "solve+eigen-inplace", "solve+eigen"};
    c.d(" trdsec %s n=%d d=%s z=%d rho=%g", on[op], n, nm[k], zk, rho);
    c.label(nm[k]);
    c.nontrivial = n > 1;
    Mat D = mkvec(s, n), Z = mkvec(s, n), Y = mkvec(s, n), X = mkvec(s, n), Qd, Q;
    for (int i = 0; i < n; i++) { D.v(i) = (double)d[i]; Z.v(i) = (double)z[i]; }
    D.snapshot(); Z.snapshot(); Y.snapshot(); X.snapshot();
    LD an = dn + rho, tol = (200 + 20 * N(n)) * UEPS;
    auto values = [&] {
        for (int i = 0; i < n; i++) {
            LD y = Y.v(i);
            if (!std::isfinite((double)y)) c.fail("root %d is %g", i, (double)y);
            if (y < d[i] - tol * an || y > (i < n - 1 ? d[i + 1] : d[i] + rho * (1 + tol)) + tol * an) c.fail("root %d is %.17Lg, outside its interval [%.17Lg, %.17Lg]", i, y, d[i], i < n - 1 ? d[i + 1] : d[i] + rho);
            LD del = tol * an;
            if (sec_below(d, z, rho, y - del) > i) c.fail("root %d is %.17Lg, too large by more than %.3Lg", i, y, del);
            if (sec_below(d, z, rho, y + del) < i + 1) c.fail("root %d is %.17Lg, too small by more than %.3Lg", i, y, del);
        }
    };
    if (op == 0) {
        int rc = armas_trdsec_solve(&Y, &D, &Z, &X, rho, &cf);
        frame_const(c, D, "D"); frame_const(c, Z, "Z"); frame_result(c, Y, "Y"); frame_result(c, X, "delta");
        if (rc != 0) c.fail("trdsec_solve returned %d (error %d)", rc, cf.err());
        if (mode.value) values();
        return;
    }
    Qd = mk(s, n, n);
    Qd.snapshot();
    int rc = armas_trdsec_solve_vec(&Y, &X, &Qd, &D, &Z, rho, &cf);
    frame_const(c, D, "D"); frame_const(c, Z, "Z"); frame_result(c, Y, "Y"); frame_result(c, X, "v"); frame_result(c, Qd, "Qd");
    if (rc != 0) c.fail("trdsec_solve_vec returned %d (error %d)", rc, cf.err());
    if (mode.value) values();
    LM X0 = X.lmv();
    X.snapshot(); Qd.snapshot();
    if (op == 1) {
        rc = armas_trdsec_eigen(&Qd, &X, s.chance(1, 2) ? &Qd : nullptr, &cf);
        frame_result(c, Qd, "Q");
    } else {
        Q = mk(s, n, n);
        Q.snapshot();
        rc = armas_trdsec_eigen(&Q, &X, &Qd, &cf);
        frame_const(c, Qd, "Qd"); frame_result(c, Q, "Q");
    }
    frame_const(c, X, "v");
    if (rc != 0) c.fail("trdsec_eigen returned %d (error %d)", rc, cf.err());
    if (!mode.value) return;
    LM V = op == 1 ? Qd.lm() : Q.lm();
    ortho(c, "Q", V, tol);
    LM R(n, n);     // (D + rho z z') Q - Q Y
    for (int j = 0; j < n; j++) {
        LD t = 0;
        for (int i = 0; i < n; i++) t += z[i] * V(i, j);
        for (int i = 0; i < n; i++) R(i, j) = d[i] * V(i, j) + rho * z[i] * t - V(i, j) * Y.v(j);
    }
    small(c, "(D + rho z z') Q - Q Y", normF(R), 2 * tol * an * sqrtl(N(n)));
}

extern "C" void armas_d_sym_eigen2x2(double *z1, double *z2, double a, double b, double c);
extern "C" void armas_d_sym_eigen2x2vec(double *z1, double *z2, double *cs, double *sn, double a, double b, double c);
static double sym2x2(Src &s)
{
    if (s.chance(1, 8)) return 0;
    if (s.chance(1, 5)) return s.range(-3, 3);
    double v = 1 + ldexp((double)s.draw(1u << 30), -30);
    if (s.chance(1, 2)) v = -v;
    if (s.chance(1, 3)) v = ldexp(v, s.pickl({-480, -300, -60, -53, -52, -30, 30, 52, 53, 60, 300, 480}));
    return v;
}
TARGET(evd, eigen2x2, 5)
{
    double a = sym2x2(s), b = sym2x2(s), d = sym2x2(s);
    if (s.chance(1, 6)) d = s.chance(1, 2) ? a : -a;
    bool vec = s.chance(2, 3);
    c.d("sym_eigen2x2%s a=%.17g b=%.17g c=%.17g", vec ? "vec" : "", a, b, d);
    c.label(vec ? "vec" : "values");
    c.nontrivial = b != 0;
    LD T = (LD)a + d, D = sqrtl(((LD)a - d) * ((LD)a - d) + 4 * (LD)b * b);
    LD e1 = (T >= 0 ? T + D : T - D) / 2, e2 = (T >= 0 ? T - D : T + D) / 2;    // e1 is the larger by magnitude
    LD nr = fabsl(e1), lim = 40 * (LD)UEPS * nr + 4 * 4.9e-324L;
    double z1 = 77, z2 = 77, cs = 77, sn = 77;
    if (vec) armas_d_sym_eigen2x2vec(&z1, &z2, &cs, &sn, a, b, d); else armas_d_sym_eigen2x2(&z1, &z2, a, b, d);
    if (!mode.value) return;
    bool ok = (fabsl(z1 - e1) <= lim && fabsl(z2 - e2) <= lim) || (fabsl(z1 - e2) <= lim && fabsl(z2 - e1) <= lim && fabsl(fabsl(e1) - fabsl(e2)) <= lim);
    if (!ok) c.fail("eigenvalues %.17g %.17g, exact %.17Lg %.17Lg", z1, z2, e1, e2);
    CHECK(c, fabs(z1) >= fabs(z2) * (1 - 1e-14) - 4 * 4.9e-324, "first eigenvalue %.17g is smaller than second %.17g", z1, z2);
    if (!vec) return;
    if (!std::isfinite(cs) || !std::isfinite(sn)) c.fail("eigenvector (%g, %g)", cs, sn);
    CHECK(c, fabsl((LD)cs * cs + (LD)sn * sn - 1) <= 40 * (LD)UEPS, "eigenvector (%.17g, %.17g) is not of unit length", cs, sn);
    LD r0 = (LD)a * cs + (LD)b * sn - (LD)z1 * cs, r1 = (LD)b * cs + (LD)d * sn - (LD)z1 * sn;
    CHECK(c, fabsl(r0) <= 2 * lim && fabsl(r1) <= 2 * lim, "A*v - z1*v = (%Lg, %Lg), norm %Lg", r0, r1, nr);
}
