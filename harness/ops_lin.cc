// LU, Cholesky, LDL, Bunch-Kaufman factorizations with their solvers; inverses (C10, C11, C12, C17)
#include "piv.h"

static void residual(Case &c, const char *what, const LM &A, const LM &X, const LM &B, LD nf, LD tol)
{
    for (int j = 0; j < B.c; j++) {
        LM x = colof(X, j), b = colof(B, j);
        LM r = sub(b, mul(A, x));
        LD bound = tol * nf * normF(x) + 1e-285L;
        LD e = normF(r);
        if (!(e <= bound)) c.fail("%s: right hand side %d: |b - Ax| = %.3Lg, |x| = %.3Lg, norm of factors %.3Lg, allowed %.3Lg", what, j, e, normF(x), nf, bound);
    }
}
static Mat rhs(Src &s, Case &c, int n)
{
    int p = dlap(s, 40);
    Mat B = mk(s, n, p);
    fill_mode(B, s.pickl({DM_UNI, DM_INT, DM_NORMAL}), s.seed());
    c.d(" B=%s", sh(B).c_str());
    if (p == 1) c.label("single-rhs");
    return B;
}
static void lblab(Case &c, int k)
{
    int lb = armas_getenv()->lb;
    if (k > 1) c.nontrivial = true;
    if (lb > 0 && k > lb) c.label("blocked");
}
// ---------------------------------------------------------------- LU
static void lufill(Src &s, Case &c, Mat &A, bool piv, bool full)
{
    int m = A.r(), n = A.c(), mn = std::min(m, n);
    if (piv) { fill_gen(s, A, c, full); return; }
    // matrices for which the factorization without pivoting exists and is stable
    Rng g(s.seed());
    int k = s.range(0, 2);
    LM L(m, mn), U(mn, n);
    if (k == 0) {           // diagonally dominant
        fill_mode(A, DM_UNI, s.seed());
        for (int i = 0; i < mn; i++) A.e(i, i) = (A.e(i, i) < 0 ? -1 : 1) * (double)(std::max(m, n) + 1);
    } else {
        for (int j = 0; j < mn; j++) for (int i = j; i < m; i++) L(i, j) = i == j ? 1 : (LD)(g.below(3) - 1) * (k == 1 ? 1 : 0.5L);
        for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j, mn - 1); i++) U(i, j) = i == j ? (g.below(2) ? 1 : -1) * (LD)(1 + g.below(3)) : (LD)(g.below(5) - 2) * (k == 1 ? 1 : 0.25L);
        A.set(mul(L, U));
    }
    c.d(" [lu%d]", k);
    c.label("nopivot");
}
static void lu_LU(const LM &F, LM &L, LM &U)
{
    int m = F.r, n = F.c, k = std::min(m, n);
    L = LM(m, k); U = LM(k, n);
    for (int j = 0; j < k; j++) for (int i = j; i < m; i++) L(i, j) = i == j ? 1 : F(i, j);
    for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j, k - 1); i++) U(i, j) = F(i, j);
}
TARGET(lu, lufactor, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int m = dlap(s), n = s.chance(1, 3) ? m : dlap(s), k = std::min(m, n);
    bool piv = !s.chance(1, 4);
    Mat A = mk(s, m, n);
    c.d("lufactor A=%s", sh(A).c_str());
    lufill(s, c, A, piv, false);
    lblab(c, k);
    LM A0 = A.lm();
    int xp = s.chance(1, 8) ? s.range(1, 4) : 0;      // room for more pivots than needed
    Piv P(k + xp);
    P.stale(s);
    std::vector<int> p0;
    for (int i = 0; i < k + xp; i++) p0.push_back(P[i]);
    A.snapshot();
    int rc = armas_lufactor(&A, piv ? &P : ARMAS_NOPIVOT, &cf); if (rc < 0) oom(c, "lufactor", rc, cf);
    P.guards(c);
    for (int i = k; i < k + xp; i++) if (P[i] != p0[i]) c.fail("pivot %d was changed to %d, matrix has %d", i, P[i], k);
    frame_result(c, A, "A");
    if (!mode.value) return;
    need_finite(c, "factors", A);
    LM F = A.lm(), L, U;
    lu_LU(F, L, U);
    bool sing = false;
    for (int i = 0; i < k; i++) if (U(i, i) == 0) sing = true;
    if (sing) {
        c.label("singular");
        if (rc >= 0) c.fail("lufactor returned %d for exactly singular matrix (zero on diagonal of U)", rc);
        if (cf.err() != ARMAS_ESINGULAR) c.fail("lufactor reported singular matrix with error code %d", cf.err());
        if (!piv) return;
    } else if (rc != 0) c.fail("lufactor returned %d (error %d) for a matrix without zero pivots", rc, cf.err());
    LM R = A0;
    if (piv)
        for (int i = 0; i < k; i++) {
            if (P[i] < i + 1 || P[i] > m) c.fail("pivot %d is %d, rows are %d..%d", i, P[i], i + 1, m);
            swaprows(R, i, P[i] - 1);
        }
    LM E = sub(R, mul(L, U)), G = mul(absm(L), absm(U));
    LD tol = (8 + 3 * N(k)) * UEPS;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        if (piv && j < k && i > j && fabsl(L(i, j)) > 1 + 8 * UEPS) c.fail("L(%d,%d) = %.17Lg is larger than one", i, j, L(i, j));
        if (!(fabsl(E(i, j)) <= tol * (G(i, j) + fabsl(R(i, j))) + 1e-290L)) c.fail("PA - LU at (%d,%d) is %.3Lg, |L||U| %.3Lg", i, j, E(i, j), G(i, j));
    }
}
TARGET(lu, lusolve, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool piv = !s.chance(1, 4), trans = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("lusolve A=%s%s", sh(A).c_str(), trans ? " T" : "");
    lufill(s, c, A, piv, s.chance(2, 3));
    lblab(c, n);
    LM A0 = A.lm();
    Piv P(n);
    armas_lufactor(&A, piv ? &P : ARMAS_NOPIVOT, &cf);
    for (int i = 0; i < n; i++) if (!(A.e(i, i) != 0) || !std::isfinite(A.e(i, i))) c.discard();
    Mat B = rhs(s, c, n);
    LM B0 = B.lm();
    A.snapshot(); B.snapshot(); P.snapshot();
    if (trans) c.label("trans");
    OKRC(c, armas_lusolve(&B, &A, piv ? &P : ARMAS_NOPIVOT, trans ? ARMAS_TRANS : 0, &cf), cf);
    frame_const(c, A, "A"); frame_result(c, B, "B"); P.same(c);
    if (!mode.value) return;
    if (!finite(B)) c.discard();    // overflow for numerically singular matrices
    LM L, U;
    lu_LU(A.lm(), L, U);
    residual(c, "lusolve", trans ? tr(A0) : A0, B.lm(), B0, normF(mul(absm(L), absm(U))), (20 + 8 * N(n)) * UEPS);
}
// ---------------------------------------------------------------- Cholesky
// positive definite matrix; cond 10^-lc
static void spd(Src &s, Case &c, Mat &A)
{
    int n = A.r(), k = s.range(0, 3);
    Rng g(s.seed());
    LM S;
    if (k == 0) {       // diagonally dominant
        Mat T = tight(n, n);
        fill_mode(T, DM_UNI, s.seed());
        S = symm(T.lm(), true);
        for (int i = 0; i < n; i++) S(i, i) = fabsl(S(i, i)) + n;
    } else if (k == 1) {
        std::vector<double> w(n);
        double lc = s.pickl({1, 3, 6, 9});
        for (int i = 0; i < n; i++) w[i] = pow(10.0, -lc * i / std::max(1, n - 1));
        S = symwith(g, w);
        c.label("cond");
    } else if (k == 2) {    // L L' with small integers
        LM L(n, n);
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) L(i, j) = i == j ? 1 + g.below(3) : (g.below(4) ? 0 : g.below(3) - 1);
        S = mul(L, tr(L));
    } else {            // graded D S D
        Mat T = tight(n, n);
        fill_mode(T, DM_UNI, s.seed());
        S = symm(T.lm(), true);
        for (int i = 0; i < n; i++) S(i, i) = fabsl(S(i, i)) + n;
        std::vector<int> e(n);
        for (auto &x : e) x = g.below(30) - 15;
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) S(i, j) = ldexpl(S(i, j), e[i] + e[j]);
        c.label("graded");
    }
    int sc = s.pickl({0, 0, 0, 60, -60, 180, -180});
    for (auto &x : S.a) x = ldexpl(x, sc);
    S = symm(S, true);
    A.set(S);
    c.d(" [spd%d 2^%d]", k, sc);
}
static LM tri2(const LM &F, bool up) { return up ? tr(tri(F, true, false)) : tri(F, false, false); }
static Mask trimask(bool up) { return [=](int i, int j) { return up ? i <= j : i >= j; }; }
static void pollute_opp(Src &s, Case &c, Mat &A, bool up)
{
    int pk = polkind(s);
    pollute(A, pk, [=](int i, int j) { return up ? i > j : i < j; });
    if (pk != POL_KEEP) c.label("polluted");
}
TARGET(chol, cholfactor, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s);
    bool up = s.chance(1, 2), bad = s.chance(1, 4);
    Mat A = mk(s, n, n);
    c.d("cholfactor A=%s%s", sh(A).c_str(), up ? " U" : " L");
    spd(s, c, A);
    if (bad) {          // make it indefinite (or singular with a zero on the diagonal)
        int k = s.below(n), how = s.range(0, 2);
        if (how == 0) A.e(k, k) = -A.e(k, k);
        else if (how == 1) { for (int i = 0; i < n; i++) A.e(i, k) = A.e(k, i) = 0; }
        else if (n > 1) {
            int q = (k + 1 + s.below(n - 1)) % n;
            double v = 2 * sqrt(A.e(k, k)) * sqrt(A.e(q, q));
            A.e(k, q) = A.e(q, k) = v;
        } else A.e(k, k) = -1;
        c.d(" bad%d@%d", how, k);
        c.label("not-positive-definite");
    }
    lblab(c, n);
    LM A0 = A.lm();
    pollute_opp(s, c, A, up);
    A.snapshot();
    int rc;
    if (s.chance(1, 3)) rc = armas_cholfactor_w(&A, ARMAS_NOPIVOT, up ? ARMAS_UPPER : ARMAS_LOWER, ARMAS_NOWORK, &cf);
    else if (s.chance(1, 6)) rc = armas_cholesky(&A, up ? ARMAS_UPPER : ARMAS_LOWER, &cf);
    else rc = armas_cholfactor(&A, ARMAS_NOPIVOT, up ? ARMAS_UPPER : ARMAS_LOWER, &cf);
    if (rc < 0) oom(c, "cholfactor", rc, cf);
    frame_except(c, A, "A", trimask(up));
    if (!mode.value) return;
    if (bad) {
        if (rc >= 0) c.fail("cholfactor returned %d for a matrix that is not positive definite", rc);
        if (cf.err() != ARMAS_ENEGATIVE && cf.err() != ARMAS_ESINGULAR) c.fail("cholfactor reported error code %d for a matrix that is not positive definite", cf.err());
        return;
    }
    if (rc != 0) c.fail("cholfactor returned %d (error %d) for a positive definite matrix", rc, cf.err());
    LM L = tri2(A.lm(), up), E = sub(A0, mul(L, tr(L))), G = mul(absm(L), tr(absm(L)));
    LD tol = (8 + 3 * N(n)) * UEPS;
    for (int j = 0; j < n; j++) {
        if (!(L(j, j) > 0)) c.fail("diagonal %d of the factor is %Lg", j, L(j, j));
        for (int i = 0; i < n; i++)
            if (!(fabsl(E(i, j)) <= tol * (G(i, j) + fabsl(A0(i, j))) + 1e-290L)) c.fail("A - LL' at (%d,%d) is %.3Lg, |L||L'| %.3Lg", i, j, E(i, j), G(i, j));
    }
}
TARGET(chol, cholsolve, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2), piv = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("cholsolve A=%s%s%s", sh(A).c_str(), up ? " U" : " L", piv ? " pivoted" : "");
    spd(s, c, A);
    lblab(c, n);
    LM A0 = A.lm();
    Piv P(n);
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    int rc = armas_cholfactor(&A, piv ? &P : ARMAS_NOPIVOT, fl, &cf); if (rc < 0) oom(c, "cholfactor", rc, cf);
    if (rc != 0) { if (piv) c.discard(); c.fail("cholfactor returned %d for a positive definite matrix", rc); }
    if (piv) c.label("pivoted");
    pollute_opp(s, c, A, up);
    Mat B = rhs(s, c, n);
    LM B0 = B.lm();
    A.snapshot(); B.snapshot(); P.snapshot();
    OKRC(c, armas_cholsolve(&B, &A, piv ? &P : ARMAS_NOPIVOT, fl, &cf), cf);
    frame_const(c, A, "A"); frame_result(c, B, "B"); P.same(c);
    if (!mode.value) return;
    need_finite(c, "X", B);
    LM L = tri2(A.lm(), up);
    residual(c, "cholsolve", A0, B.lm(), B0, normF(mul(absm(L), tr(absm(L)))), (20 + 8 * N(n)) * UEPS);
}
TARGET(chol, cholpv, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("cholfactor pivoted A=%s%s", sh(A).c_str(), up ? " U" : " L");
    int r0 = n, sc = 0;
    if (s.chance(1, 3)) spd(s, c, A);
    else {                  // rank r0, exactly representable
        r0 = s.range(1, n);
        Rng g(s.seed());
        LM X(n, r0);
        for (auto &x : X.a) x = g.below(7) - 3;
        if (s.chance(1, 2)) for (int j = 0; j < r0; j++) for (int i = 0; i < r0; i++) X(i, j) = i < j ? 0 : i == j ? 1 + g.below(3) : (LD)(g.below(3) - 1);
        LM S = mul(X, tr(X));
        sc = s.pickl({0, 0, 60, -60});
        for (auto &x : S.a) x = ldexpl(x, sc);
        A.set(S);
        c.d(" rank<=%d 2^%d", r0, sc);
        c.label("semidefinite");
    }
    lblab(c, n);
    LM A0 = A.lm();
    LD amax = 0;
    for (int i = 0; i < n; i++) amax = std::max(amax, A0(i, i));
    if (amax == 0) c.discard();
    LD xstop, xlo = 0;
    switch (s.range(0, 2)) {
    case 0: xstop = amax * n * DBL_EPSILON; xlo = xstop / 2; break;     // either convention for epsilon
    case 1: cf.smult = s.pickl({1e-10, 1e-6, 1e-13}); xstop = amax * cf.smult; break;
    default: cf.stop = (double)amax * s.pickl({1e-10, 1e-5, 1e-2}); xstop = cf.stop; c.d(" stop=%g", cf.stop);
    }
    if (xlo == 0) xlo = xstop;
    pollute_opp(s, c, A, up);
    Piv P(n);
    P.stale(s);
    A.snapshot(); P.snapshot();
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER, rc = 0;
    // (workspace is optional for this routine, so a small one is not refused)
    if (mode.work || s.chance(1, 2)) {
        int done = -9999;
        bool nowork = s.chance(1, 5);
        if (!wcall(s, c, cf, "cholfactor", {A}, nullptr, [&](armas_wbuf_t *w) { done = armas_cholfactor_w(&A, &P, fl, nowork && w->bytes ? ARMAS_NOWORK : w, &cf); return done; })) return;
        rc = done;
    } else rc = armas_cholfactor(&A, &P, fl, &cf);
    if (rc < 0) oom(c, "cholfactor", rc, cf);
    P.guards(c);
    frame_except(c, A, "A", trimask(up));
    if (!mode.value) return;
    if (rc < 0 || rc > n) c.fail("pivoted cholfactor returned %d (error %d)", rc, cf.err());
    int r = rc == 0 ? n : rc;
    if (r < n) c.label("rank-deficient");
    LM F = A.lm(), L = tri2(F, up);
    LD noise = (8 + 3 * N(n)) * UEPS * amax * 2;
    LM R = A0;
    for (int k = 0; k < r; k++) {
        if (P[k] < k + 1 || P[k] > n) c.fail("pivot %d is %d", k, P[k]);
        swaprows(R, k, P[k] - 1); swapcols(R, k, P[k] - 1);
    }
    for (int k = 0; k + 1 < r; k++) if (!(L(k + 1, k + 1) * L(k + 1, k + 1) <= L(k, k) * L(k, k) + noise)) c.fail("diagonal of the pivoted factor is not decreasing at %d: %.17Lg %.17Lg", k, L(k, k), L(k + 1, k + 1));
    for (int k = 0; k < r; k++) if (!(L(k, k) * L(k, k) >= xlo * (1 - 8 * UEPS))) c.fail("diagonal %d of rank %d factor, %.3Lg, is below the stopping criterion %.3Lg", k, r, L(k, k) * L(k, k), xstop);
    // remaining part
    LM Lr = cols(L, 0, r), E = sub(R, mul(Lr, tr(Lr)));
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        bool tail = i >= r && j >= r;
        LD bound = tail ? xstop + noise : noise;
        if (!(fabsl(E(i, j)) <= bound)) c.fail("PAP' - LL' at (%d,%d) is %.3Lg, rank %d, stop %.3Lg, noise %.3Lg", i, j, E(i, j), r, xstop, noise);
        if (tail && i >= j && L(i, j) != 0) c.fail("factor of rank %d has non-zero element %.3Lg at (%d,%d)", r, L(i, j), i, j);
    }
    // overestimated rank is possible only when rounding errors can exceed the stopping criterion
    if (r > r0 && noise < xlo) c.fail("rank %d returned for a matrix of rank %d, stop %.3Lg, noise %.3Lg", r, r0, xstop, noise);
}
TARGET(chol, cholsolve_rank, 4)
{   // basic solution of a consistent semidefinite system: the pivot vector holds as many pivots as the rank
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = std::max(2, dlap(s, 50)), r0 = s.range(1, n - 1);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("cholsolve rank %d A=%s%s", r0, sh(A).c_str(), up ? " U" : " L");
    Rng g(s.seed());
    LM X(n, r0);
    for (int j = 0; j < r0; j++) for (int i = 0; i < n; i++) X(i, j) = i == j ? 3 : g.below(3) ? 0 : g.below(3) - 1;
    for (int i = 0; i < n; i++) swaprows(X, i, i + g.below(n - i));
    LM S = mul(X, tr(X));
    A.set(S);
    lblab(c, n);
    pollute_opp(s, c, A, up);
    Piv P(n);
    P.stale(s);
    cf.smult = 1e-9;
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    int r = armas_cholfactor(&A, &P, fl, &cf); if (r < 0) oom(c, "cholfactor", r, cf);
    if (r <= 0 || r > r0) c.discard();
    c.label("rank-deficient");
    int p = s.range(1, 6);
    Mat B = mk(s, n, p);
    LM Z(n, p);
    for (auto &z : Z.a) z = g.below(7) - 3;
    B.set(mul(S, Z));
    LM B0 = B.lm();
    c.d(" B=%s", sh(B).c_str());
    armas_pivot_t P2;
    armas_pivot_make(&P2, r, P.data());
    A.snapshot(); B.snapshot(); P.snapshot();
    OKRC(c, armas_cholsolve(&B, &A, &P2, fl, &cf), cf);
    frame_const(c, A, "A"); frame_result(c, B, "B"); P.same(c);
    if (!mode.value) return;
    need_finite(c, "X", B);
    LM L = tri2(A.lm(), up);
    LD e = normF(sub(mul(S, B.lm()), B0)), b = 1e-9L * normF(S) * normF(B.lm()) * n;
    if (!(e <= b)) c.fail("|AX - B| = %.3Lg for a consistent system of rank %d, allowed %.3Lg", e, r, b);
    for (int j = 0; j < p; j++) { int nz = 0; for (int i = 0; i < n; i++) if (B.e(i, j) != 0) nz++; if (nz > r) c.fail("solution column %d has %d non-zero elements, rank %d", j, nz, r); }
}
TARGET(chol, cholupdate, 6)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 60);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("cholupdate A=%s%s", sh(A).c_str(), up ? " U" : " L");
    spd(s, c, A);
    lblab(c, n);
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    OKRC(c, armas_cholfactor(&A, ARMAS_NOPIVOT, fl, &cf), cf);
    Mat X = mkvec(s, n);
    fill(s, X);
    if (s.chance(1, 5)) for (int i = 0; i < n; i++) if (s.chance(1, 2)) X.v(i) = 0;
    c.d(" x=%s", sh(X).c_str());
    pollute_opp(s, c, A, up);
    LM L0 = tri2(A.lm(), up), x = X.lmv();
    LM S = add(1, mul(L0, tr(L0)), 1, mul(x, tr(x)));
    A.snapshot(); X.snapshot();
    OKRC(c, armas_cholupdate(&A, &X, fl, &cf), cf);
    frame_except(c, A, "A", trimask(up)); frame_result(c, X, "X");
    if (!mode.value) return;
    LM L = tri2(A.lm(), up), E = sub(S, mul(L, tr(L)));
    LD tol = (20 + 10 * N(n)) * UEPS;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
        if (!(fabsl(E(i, j)) <= tol * sqrtl(S(i, i)) * sqrtl(S(j, j)) + 1e-290L)) c.fail("LL' + xx' - (updated factor) at (%d,%d) is %.3Lg, allowed %.3Lg", i, j, E(i, j), tol * sqrtl(S(i, i)) * sqrtl(S(j, j)));
}
// ---------------------------------------------------------------- LDL without and with diagonal pivoting
static void ldlfill(Src &s, Case &c, Mat &A, int kind)
{
    int n = A.r();
    if (kind == 1) { spd(s, c, A); return; }
    Mat T = tight(n, n);
    fill_mode(T, s.pickl({DM_UNI, DM_INT, DM_NORMAL}), s.seed());
    LM S = symm(T.lm(), true);
    Rng g(s.seed());
    if (kind == 0) for (int i = 0; i < n; i++) S(i, i) = (g.below(2) ? 1 : -1) * (fabsl(S(i, i)) + 3 * n);
    else if (kind == 2) {
        // L D L' with well scaled parts, permuted
        LM L(n, n), D(n, n);
        for (int j = 0; j < n; j++) { D(j, j) = (g.below(2) ? 1 : -1) * (1 + g.below(4)); for (int i = j; i < n; i++) L(i, j) = i == j ? 1 : 0.25L * (g.below(3) - 1); }
        S = mul(mul(L, D), tr(L));
    }
    int sc = s.pickl({0, 0, 0, 60, -60, 180, -180});
    for (auto &x : S.a) x = ldexpl(x, sc);
    S = symm(S, true);
    A.set(S);
    c.d(" [sym%d 2^%d]", kind, sc);
}
static int ldl_factor(Src &s, Case &c, Conf &cf, Mat &A, Piv *P, int fl, bool judge)
{
    if (!judge) { int rc = armas_ldlfactor(&A, P ? &P->p : ARMAS_NOPIVOT, fl, &cf); if (rc < 0) oom(c, "ldlfactor", rc, cf); if (rc) c.fail("ldlfactor returned %d", rc); return 0; }
    return wcall(s, c, cf, "ldlfactor", {A}, [&] { return armas_ldlfactor(&A, P ? &P->p : ARMAS_NOPIVOT, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_ldlfactor_w(&A, P ? &P->p : ARMAS_NOPIVOT, fl, w, &cf); }) ? 0 : -1;
}
static void ldl_WD(const LM &F, bool up, LM &W, LM &D)
{
    int n = F.r;
    W = tri(F, up, true);
    D = LM(n, n);
    for (int i = 0; i < n; i++) D(i, i) = F(i, i);
}
TARGET(ldl, ldlfactor, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s);
    bool up = s.chance(1, 2), piv = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("ldlfactor A=%s%s%s", sh(A).c_str(), up ? " U" : " L", piv ? " pivoted" : "");
    ldlfill(s, c, A, piv ? s.range(0, 3) : s.range(0, 1));
    lblab(c, n);
    LM A0 = A.lm();
    pollute_opp(s, c, A, up);
    Piv P(n);
    P.stale(s);
    A.snapshot();
    if (ldl_factor(s, c, cf, A, piv ? std::addressof(P) : nullptr, up ? ARMAS_UPPER : ARMAS_LOWER, true)) return;
    P.guards(c);
    frame_except(c, A, "A", trimask(up));
    if (!mode.value) return;
    LM W, D, R = A0;
    ldl_WD(A.lm(), up, W, D);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!std::isfinite((double)W(i, j)) || !std::isfinite((double)D(i, j))) { c.label("breakdown"); if (!piv) c.fail("factor is not finite"); c.discard(); }
    if (piv) {
        c.label("pivoted");
        for (int q = 0; q < n; q++) {
            int k = up ? n - 1 - q : q;
            if (up ? (P[k] < 1 || P[k] > k + 1) : (P[k] < k + 1 || P[k] > n)) c.fail("pivot %d is %d", k, P[k]);
            swaprows(R, k, P[k] - 1); swapcols(R, k, P[k] - 1);
        }
    }
    LM E = sub(R, mul(mul(W, D), tr(W))), G = mul(mul(absm(W), absm(D)), tr(absm(W)));
    // diagonal pivoting: largest remaining diagonal element first, so 1x1 elimination cannot grow for definite and dominant matrices
    LD tol = (10 + 5 * N(n)) * UEPS;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
        if (!(fabsl(E(i, j)) <= tol * (G(i, j) + fabsl(R(i, j))) * 4 + 1e-290L)) c.fail("A - LDL' at (%d,%d) is %.3Lg, |L||D||L'| %.3Lg", i, j, E(i, j), G(i, j));
    if (piv && n > 1) {   // first pivot is the largest diagonal element
        LD mx = 0;
        for (int i = 0; i < n; i++) mx = std::max(mx, fabsl(A0(i, i)));
        int k = up ? n - 1 : 0;
        if (fabsl(D(k, k)) != mx) c.fail("first pivot is %.17Lg, largest diagonal element %.17Lg", D(k, k), mx);
    }
}
TARGET(ldl, ldlsolve, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2), piv = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("ldlsolve A=%s%s%s", sh(A).c_str(), up ? " U" : " L", piv ? " pivoted" : "");
    ldlfill(s, c, A, piv ? s.range(0, 2) : s.range(0, 1));
    lblab(c, n);
    if (piv) c.label("pivoted");
    LM A0 = A.lm();
    Piv P(n);
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    ldl_factor(s, c, cf, A, piv ? std::addressof(P) : nullptr, fl, false);
    LM W, D;
    ldl_WD(A.lm(), up, W, D);
    for (int i = 0; i < n; i++) if (D(i, i) == 0 || !std::isfinite((double)D(i, i))) c.discard();
    pollute_opp(s, c, A, up);
    Mat B = rhs(s, c, n);
    LM B0 = B.lm();
    A.snapshot(); B.snapshot(); P.snapshot();
    bool trans = s.chance(1, 4);
    if (trans) { fl |= ARMAS_TRANS; c.d(" T"); c.label("trans"); }
    OKRC(c, armas_ldlsolve(&B, &A, piv ? &P : ARMAS_NOPIVOT, fl, &cf), cf);
    frame_const(c, A, "A"); frame_result(c, B, "B"); P.same(c);
    if (!mode.value) return;
    need_finite(c, "X", B);
    residual(c, "ldlsolve", A0, B.lm(), B0, normF(mul(mul(absm(W), absm(D)), tr(absm(W)))), (20 + 8 * N(n)) * UEPS);
}
// ---------------------------------------------------------------- Bunch-Kaufman
static void bkfill(Src &s, Case &c, Mat &A)
{
    int n = A.r(), k = s.range(0, 7);
    Mat T = tight(n, n);
    fill_mode(T, s.pickl({DM_UNI, DM_INT, DM_NORMAL, DM_ZEROS, DM_GRADED}), s.seed());
    LM S = symm(T.lm(), true);
    Rng g(s.seed());
    switch (k) {
    case 0: break;
    case 1: for (int i = 0; i < n; i++) S(i, i) = 0; break;                 // zero diagonal
    case 2: for (int i = 0; i < n; i++) S(i, i) *= 1e-3L; break;
    case 3: for (int i = 0; i < n; i++) S(i, i) += (g.below(2) ? 1 : -1) * 2 * n; break;
    case 4: {                       // block diagonal with 2x2 blocks, permuted
        S = LM(n, n);
        for (int i = 0; i < n; i += 2) { if (i + 1 < n) { S(i, i + 1) = S(i + 1, i) = 1 + g.below(5); S(i, i) = g.below(2); } else S(i, i) = g.below(2) ? 3 : -2; }
        for (int i = 0; i < n; i++) { int j = g.below(n); swaprows(S, i, j); swapcols(S, i, j); }
        break;
    }
    case 5: {                       // low rank
        int r = 1 + g.below(n);
        LM X(n, r), D(r, r);
        for (auto &x : X.a) x = g.below(5) - 2;
        for (int i = 0; i < r; i++) D(i, i) = g.below(2) ? 1 : -1;
        S = mul(mul(X, D), tr(X));
        c.label("low-rank");
        break;
    }
    case 6:                         // every element with a magnitude of its own: pivots have to be chosen well
        for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) S(i, j) = S(j, i) = g.sym() * powl(10, -7 * g.unit());
        c.label("mixed-scale");
        break;
    default: { std::vector<double> w(n); for (int i = 0; i < n; i++) w[i] = (g.below(2) ? 1 : -1) * pow(10.0, -6.0 * i / std::max(1, n - 1)); S = symwith(g, w); }
    }
    int sc = s.pickl({0, 0, 0, 60, -60, 180, -180});
    for (auto &x : S.a) x = ldexpl(x, sc);
    A.set(S);
    c.d(" [bk%d 2^%d]", k, sc);
}
// explicit W (product of interchanges and unit triangular factors) and D
static void bk_WD(Case &c, const LM &F, Piv &P, bool up, LM &W, LM &D)
{
    int n = F.r;
    W = eye(n); D = LM(n, n);
    // W = P1 L1 P2 L2 ...; multiply from the left, last factor first
    std::vector<std::pair<int, int>> st;    // block starts and sizes in elimination order
    if (!up) for (int k = 0; k < n;) { int np = P[k] < 0 ? 2 : 1; if (np == 2 && (k + 1 >= n || P[k + 1] != P[k])) c.fail("pivots %d.. do not describe a 2x2 block", k); st.push_back({k, np}); k += np; }
    else for (int k = n - 1; k >= 0;) { int np = P[k] < 0 ? 2 : 1; if (np == 2 && (k < 1 || P[k - 1] != P[k])) c.fail("pivots %d.. do not describe a 2x2 block", k); st.push_back({np == 2 ? k - 1 : k, np}); k -= np; }
    for (auto &b : st) {
        int k = b.first, pv = abs(P[k]) - 1;
        if (up ? (pv < 0 || pv > k) : (pv < (b.second == 2 ? k + 1 : k) || pv >= n)) c.fail("pivot %d is %d", k, P[k]);
        if (b.second == 2) c.label("2x2");
        for (int j = k; j < k + b.second; j++) D(j, j) = F(j, j);
        if (b.second == 2) D(k, k + 1) = D(k + 1, k) = up ? F(k, k + 1) : F(k + 1, k);
    }
    for (int q = (int)st.size() - 1; q >= 0; q--) {
        int k = st[q].first, np = st[q].second;
        LM W2 = W;
        for (int j = 0; j < np; j++) {
            int col = k + j;
            int i0 = up ? 0 : k + np, i1 = up ? k : n;
            for (int i = i0; i < i1; i++) for (int t = 0; t < n; t++) W2(i, t) += F(i, col) * W(col, t);
        }
        W = W2;
        int pv = abs(P[k]) - 1, own = np == 1 ? k : up ? k : k + 1;
        if (pv != own) swaprows(W, own, pv);
    }
}
static int bk_factor(Src &s, Case &c, Conf &cf, Mat &A, Piv &P, int fl, bool judge)
{
    if (!judge) { OKRC(c, armas_bkfactor(&A, &P, fl, &cf), cf); return 0; }
    return wcall(s, c, cf, "bkfactor", {A}, [&] { return armas_bkfactor(&A, &P, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_bkfactor_w(&A, &P, fl, w, &cf); }) ? 0 : -1;
}
TARGET(ldl, bkfactor, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("bkfactor A=%s%s", sh(A).c_str(), up ? " U" : " L");
    bkfill(s, c, A);
    lblab(c, n);
    LM A0 = A.lm();
    pollute_opp(s, c, A, up);
    Piv P(n);
    P.stale(s);
    A.snapshot();
    if (bk_factor(s, c, cf, A, P, up ? ARMAS_UPPER : ARMAS_LOWER, true)) return;
    P.guards(c);
    frame_except(c, A, "A", trimask(up));
    if (!mode.value) return;
    LM W, D;
    LM F = up ? tri(A.lm(), true, false) : tri(A.lm(), false, false);
    for (auto &x : F.a) if (!std::isfinite((double)x)) c.fail("factor is not finite");
    bk_WD(c, F, P, up, W, D);
    LM E = sub(A0, mul(mul(W, D), tr(W))), G = mul(mul(absm(W), absm(D)), tr(absm(W)));
    LD a = normMax(A0), g = normMax(G), e = normMax(E);
    if (!(g <= 100 * N(n) * N(n) * a)) c.fail("element growth in |L||D||L'|: %.3Lg for a matrix with largest element %.3Lg", g, a);
    LD tol = (20 + 10 * N(n)) * UEPS;
    if (!(e <= tol * (g + a))) c.fail("A - LDL' is %.3Lg, |L||D||L'| %.3Lg, |A| %.3Lg", e, g, a);
}
TARGET(ldl, bksolve, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("bksolve A=%s%s", sh(A).c_str(), up ? " U" : " L");
    bkfill(s, c, A);
    lblab(c, n);
    LM A0 = A.lm();
    Piv P(n);
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    bk_factor(s, c, cf, A, P, fl, false);
    LM W, D, F = up ? tri(A.lm(), true, false) : tri(A.lm(), false, false);
    bk_WD(c, F, P, up, W, D);
    // skip (numerically) singular D
    for (int i = 0; i < n; i++) {
        if (P[i] > 0) { if (fabsl(D(i, i)) <= 1e-12L * normMax(A0)) c.discard(); }
        else if (i + 1 < n && P[i + 1] < 0 && D(i, i + 1) != 0) { LD det = D(i, i) * D(i + 1, i + 1) - D(i, i + 1) * D(i, i + 1); if (fabsl(det) <= 1e-12L * normMax(A0) * fabsl(D(i, i + 1))) c.discard(); }
    }
    pollute_opp(s, c, A, up);
    Mat B = rhs(s, c, n);
    LM B0 = B.lm();
    A.snapshot(); B.snapshot(); P.snapshot();
    if (!wcall(s, c, cf, "bksolve", {A, B}, [&] { return armas_bksolve(&B, &A, &P, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_bksolve_w(&B, &A, &P, fl, w, &cf); })) return;
    frame_const(c, A, "A"); frame_result(c, B, "B"); P.same(c);
    if (!mode.value) return;
    need_finite(c, "X", B);
    residual(c, "bksolve", A0, B.lm(), B0, normF(mul(mul(absm(W), absm(D)), tr(absm(W)))), (20 + 8 * N(n)) * UEPS * 10);
}
// ---------------------------------------------------------------- inverses
static void judge_inv(Case &c, const LM &A, const LM &X, int n, LD fac)
{
    LM I = eye(n);
    LD k1 = normF(mul(absm(A), absm(X))), k2 = normF(mul(absm(X), absm(A)));
    LD e1 = normF(sub(mul(A, X), I)), e2 = normF(sub(mul(X, A), I));
    LD tol = (20 + 10 * N(n)) * UEPS * fac;
    LD b1 = tol * k1 * std::max((LD)1, std::min(k1, k2)), b2 = tol * k2 * std::max((LD)1, std::min(k1, k2));
    if (b1 > 0.1L || b2 > 0.1L) { c.label("ill-conditioned"); if (!std::isfinite((double)e1)) c.discard(); return; }
    if (!(e1 <= b1)) c.fail("|A*inv(A) - I| = %.3Lg, condition %.3Lg, allowed %.3Lg", e1, k1, b1);
    if (!(e2 <= b2)) c.fail("|inv(A)*A - I| = %.3Lg, condition %.3Lg, allowed %.3Lg", e2, k2, b2);
}
TARGET(inv, inverse_trm, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2), unit = s.chance(1, 3), sing = !unit && s.chance(1, 8);
    Mat A = mk(s, n, n);
    c.d("inverse_trm A=%s%s%s", sh(A).c_str(), up ? " U" : " L", unit ? " UNIT" : "");
    fill_mode(A, s.pickl({DM_UNI, DM_INT, DM_ZEROS, DM_NORMAL}), s.seed());
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i == j) A.e(i, i) = (A.e(i, i) < 0 ? -1 : 1) * (1 + fabs(A.e(i, i))); else A.e(i, j) *= 1.0 / (n > 4 ? n / 2.0 : 1);
    int sc = unit ? 0 : s.pickl({0, 0, 100, -100});
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.e(i, j) = ldexp(A.e(i, j), sc);
    int z = 0;
    if (sing) { z = s.below(n); A.e(z, z) = 0; c.d(" zero diagonal %d", z); c.label("singular"); }
    lblab(c, n);
    LM A0 = tri(A.lm(), up, unit);
    pollute(A, polkind(s), [=](int i, int j) { return up ? (unit ? i >= j : i > j) : (unit ? i <= j : i < j); });
    A.snapshot();
    int rc = armas_inverse_trm(&A, (up ? ARMAS_UPPER : ARMAS_LOWER) | (unit ? ARMAS_UNIT : 0), &cf); if (rc < 0) oom(c, "inverse_trm", rc, cf);
    frame_except(c, A, "A", [=](int i, int j) { return (up ? i <= j : i >= j) && !(unit && i == j); });
    if (!mode.value) return;
    if (sing) { if (rc >= 0) c.fail("inverse_trm returned %d for a singular matrix", rc); if (cf.err() != ARMAS_ESINGULAR) c.fail("error code %d for a singular matrix", cf.err()); return; }
    if (rc) c.fail("inverse_trm returned %d (error %d)", rc, cf.err());
    judge_inv(c, A0, tri(A.lm(), up, unit), n, 1);
}
TARGET(inv, luinverse, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool piv = !s.chance(1, 4), sing = piv && s.chance(1, 10);
    Mat A = mk(s, n, n);
    c.d("luinverse A=%s", sh(A).c_str());
    lufill(s, c, A, piv, true);
    if (sing) { int z = s.below(n); for (int i = 0; i < n; i++) A.e(i, z) = 0; c.label("singular"); c.d(" zero column %d", z); }
    lblab(c, n);
    LM A0 = A.lm();
    Piv P(n);
    armas_lufactor(&A, piv ? &P : ARMAS_NOPIVOT, &cf);
    cf.clear();
    A.snapshot(); P.snapshot();
    bool zero = false;
    for (int i = 0; i < n; i++) if (A.e(i, i) == 0) zero = true;
    if (zero) {
        if (!mode.value) return;
        int rc = armas_luinverse(&A, piv ? &P : ARMAS_NOPIVOT, &cf); if (rc < 0) oom(c, "luinverse", rc, cf);
        if (rc >= 0) c.fail("luinverse returned %d for a singular matrix", rc);
        if (cf.err() != ARMAS_ESINGULAR) c.fail("error code %d for a singular matrix", cf.err());
        return;
    }
    if (!wcall(s, c, cf, "luinverse", {A}, [&] { return armas_luinverse(&A, piv ? &P : ARMAS_NOPIVOT, &cf); }, [&](armas_wbuf_t *w) { return armas_luinverse_w(&A, piv ? &P : ARMAS_NOPIVOT, w, &cf); })) return;
    frame_result(c, A, "A"); P.same(c);
    if (!mode.value) return;
    judge_inv(c, A0, A.lm(), n, 4);
}
TARGET(inv, cholinverse, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("cholinverse A=%s%s", sh(A).c_str(), up ? " U" : " L");
    spd(s, c, A);
    lblab(c, n);
    LM A0 = A.lm();
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    OKRC(c, armas_cholfactor(&A, ARMAS_NOPIVOT, fl, &cf), cf);
    pollute_opp(s, c, A, up);
    bool sing = mode.value && s.chance(1, 12);
    if (sing) {
        int z = s.below(n); A.e(z, z) = 0; c.label("singular"); c.d(" zero diagonal %d in the factor", z);
        int rc = armas_cholinverse(&A, fl, &cf); if (rc < 0) oom(c, "cholinverse", rc, cf);
        if (rc >= 0) c.fail("cholinverse returned %d for a singular factor", rc);
        if (cf.err() != ARMAS_ESINGULAR) c.fail("error code %d for a singular matrix", cf.err());
        return;
    }
    A.snapshot();
    if (!wcall(s, c, cf, "cholinverse", {A}, [&] { return armas_cholinverse(&A, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_cholinverse_w(&A, fl, w, &cf); })) return;
    frame_except(c, A, "A", trimask(up));
    if (!mode.value) return;
    judge_inv(c, A0, symm(A.lm(), up), n, 4);
}
TARGET(inv, ldlinverse, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    int n = dlap(s, 70);
    bool up = s.chance(1, 2), piv = s.chance(1, 2);
    Mat A = mk(s, n, n);
    c.d("ldlinverse A=%s%s%s", sh(A).c_str(), up ? " U" : " L", piv ? " pivoted" : "");
    ldlfill(s, c, A, piv ? s.range(0, 2) : s.range(0, 1));
    lblab(c, n);
    LM A0 = A.lm();
    Piv P(n);
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    ldl_factor(s, c, cf, A, piv ? std::addressof(P) : nullptr, fl, false);
    for (int i = 0; i < n; i++) if (A.e(i, i) == 0 || !std::isfinite(A.e(i, i))) c.discard();
    pollute_opp(s, c, A, up);
    bool sing = mode.value && s.chance(1, 12);
    if (sing) {
        int z = s.below(n); A.e(z, z) = 0; c.label("singular"); c.d(" zero diagonal %d in the factor", z);
        int rc = armas_ldlinverse(&A, piv ? &P : ARMAS_NOPIVOT, fl, &cf); if (rc < 0) oom(c, "ldlinverse", rc, cf);
        if (rc >= 0) c.fail("ldlinverse returned %d for a singular factor", rc);
        if (cf.err() != ARMAS_ESINGULAR) c.fail("error code %d for a singular matrix", cf.err());
        return;
    }
    A.snapshot(); P.snapshot();
    if (!wcall(s, c, cf, "ldlinverse", {A}, [&] { return armas_ldlinverse(&A, piv ? &P : ARMAS_NOPIVOT, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_ldlinverse_w(&A, piv ? &P : ARMAS_NOPIVOT, fl, w, &cf); })) return;
    frame_except(c, A, "A", trimask(up)); P.same(c);
    if (!mode.value) return;
    judge_inv(c, A0, symm(A.lm(), up), n, 4);
}
