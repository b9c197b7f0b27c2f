// Matrix-vector operations (C02; frame: C05)
#include "la.h"

static const int BIG2 = 180;
static LD dm2(int k) { return 2.0L * k + 16; }
static void classify(Case &c, int m, int n, const Mat &A)
{
    if (m > 1 && n > 1) c.nontrivial = true;
    if (A.m.step > A.r()) c.label("padded");
    if (m != n) c.label("rectangular");
    if (m % 4 || n % 4) c.label("remainder");
}
static int nz(int n) { return n == 0 ? 1 : n; }

TARGET(blas2, mvmult, 14)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE});
    int m = nz(dim(s, BIG2)), n = nz(dim(s, BIG2));
    bool trans = s.chance(1, 2), ab = s.chance(1, 5);
    Mat A = mk(s, m, n), X = mkvec(s, trans ? m : n), Y = mkvec(s, trans ? n : m);
    int d1 = fill(s, A), d2 = fill(s, X); fill(s, Y);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    c.d("mvmult%s%s A=%s(%s) X=%s(%s) Y=%s alpha=%g beta=%g opt=%x", trans ? " T" : "", ab ? " ABS" : "", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), sh(Y).c_str(), alpha, beta, cf.optflags);
    classify(c, m, n, A);
    if (ab) c.label("abs");
    LM a = A.lm(), x = X.lmv(), y = Y.lmv();
    if (trans) a = tr(a);
    if (ab) { a = absm(a); x = absm(x); }
    LM ref = add(alpha, mul(a, x), beta, y);
    LM av = add(fabsl(alpha), mul(absm(a), absm(x)), fabsl(beta), absm(y));
    A.snapshot(); X.snapshot(); Y.snapshot();
    OKRC(c, armas_mvmult(beta, &Y, alpha, &A, &X, (trans ? ARMAS_TRANS : 0) | (ab ? ARMAS_ABS : 0), &cf), cf);
    cmpv(c, "mvmult", Y, ref, av, dm2(x.r));
    frame_const(c, A, "A"); frame_const(c, X, "X"); frame_result(c, Y, "Y");
}
TARGET(blas2, mvmult_sym, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE});
    int n = nz(dim(s, BIG2));
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n), X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X); fill(s, Y);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    LM a = symoperand(s, A, up), x = X.lmv(), y = Y.lmv();
    c.d("mvmult_sym %s A=%s(%s) X=%s(%s) Y=%s alpha=%g beta=%g opt=%x", up ? "upper" : "lower", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), sh(Y).c_str(), alpha, beta, cf.optflags);
    classify(c, n, n, A);
    LM ref = add(alpha, mul(a, x), beta, y);
    LM av = add(fabsl(alpha), mul(absm(a), absm(x)), fabsl(beta), absm(y));
    A.snapshot(); X.snapshot(); Y.snapshot();
    OKRC(c, armas_mvmult_sym(beta, &Y, alpha, &A, &X, up ? ARMAS_UPPER : ARMAS_LOWER, &cf), cf);
    cmpv(c, "mvmult_sym", Y, ref, av, dm2(n));
    frame_const(c, A, "A"); frame_const(c, X, "X"); frame_result(c, Y, "Y");
}
TARGET(blas2, mvmult_trm, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE});
    int n = nz(dim(s, BIG2));
    bool up = s.chance(1, 2), trans = s.chance(1, 2), unit = s.chance(1, 3);
    Mat A = mk(s, n, n), X = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X);
    double alpha = rnd_scalar(s);
    LM a = trioperand(s, A, up, unit), x = X.lmv();
    if (trans) a = tr(a);
    c.d("mvmult_trm %s%s%s A=%s(%s) X=%s(%s) alpha=%g opt=%x", up ? "upper" : "lower", trans ? " T" : "", unit ? " unit" : "", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), alpha, cf.optflags);
    classify(c, n, n, A);
    if (unit) c.label("unit");
    LM ref = mul(a, x), av = mul(absm(a), absm(x));
    for (auto &v : ref.a) v *= alpha;
    for (auto &v : av.a) v *= fabsl(alpha);
    A.snapshot(); X.snapshot();
    OKRC(c, armas_mvmult_trm(&X, alpha, &A, (up ? ARMAS_UPPER : ARMAS_LOWER) | (trans ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0), &cf), cf);
    cmpv(c, "mvmult_trm", X, ref, av, dm2(n));
    frame_const(c, A, "A"); frame_result(c, X, "X");
}
// triangular matrix safe to solve with: no exponential growth
void solvable_tri(Src &s, Mat &A)
{
    int n = A.r();
    bool damp = n > 12 || s.chance(1, 2);
    double f = damp ? 1.0 / (1 + n / 2) : 1.0;
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < n; i++) {
            if (i == j) { double d = A.e(i, j); A.e(i, j) = d < 0 ? -0.5 - fabs(d) / (1 + fabs(d)) : 0.5 + d / (1 + d); }
            else { double v = A.e(i, j); A.e(i, j) = f * v / (1 + fabs(v) * 0.25); }
        }
}
TARGET(blas2, mvsolve_trm, 12)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE});
    int n = nz(dim(s, BIG2));
    bool up = s.chance(1, 2), trans = s.chance(1, 2), unit = s.chance(1, 3);
    Mat A = mk(s, n, n), X = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X);
    solvable_tri(s, A);
    double alpha = rnd_scalar(s);
    LM a = trioperand(s, A, up, unit), b = X.lmv();
    if (trans) a = tr(a);
    c.d("mvsolve_trm %s%s%s A=%s(%s) X=%s(%s) alpha=%g opt=%x", up ? "upper" : "lower", trans ? " T" : "", unit ? " unit" : "", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), alpha, cf.optflags);
    classify(c, n, n, A);
    if (unit) c.label("unit");
    A.snapshot(); X.snapshot();
    OKRC(c, armas_mvsolve_trm(&X, alpha, &A, (up ? ARMAS_UPPER : ARMAS_LOWER) | (trans ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0), &cf), cf);
    need_finite(c, "mvsolve_trm result", X);
    LM x = X.lmv(), ax = mul(a, x), aax = mul(absm(a), absm(x));
    if (mode.value)
        for (int i = 0; i < n; i++) cmp(c, "mvsolve_trm: (A*x)[i] against alpha*b[i]", 0, ax(i, 0) - alpha * b(i, 0), aax(i, 0) + fabsl(alpha * b(i, 0)), dm2(n));
    frame_const(c, A, "A"); frame_result(c, X, "X");
}
TARGET(blas2, mvupdate, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE});
    int m = nz(dim(s, BIG2)), n = nz(dim(s, BIG2));
    Mat A = mk(s, m, n), X = mkvec(s, m), Y = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X); fill(s, Y);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    c.d("mvupdate A=%s(%s) X=%s(%s) Y=%s alpha=%g beta=%g opt=%x", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), sh(Y).c_str(), alpha, beta, cf.optflags);
    classify(c, m, n, A);
    share(s, c, X, Y);
    LM xy = mul(X.lmv(), tr(Y.lmv()));
    LM ref = add(alpha, xy, beta, A.lm()), av = add(fabsl(alpha), absm(xy), fabsl(beta), absm(A.lm()));
    A.snapshot(); X.snapshot(); Y.snapshot();
    OKRC(c, armas_mvupdate(beta, &A, alpha, &X, &Y, &cf), cf);
    cmpm(c, "mvupdate", A, ref, av, 8);
    frame_const(c, X, "X"); frame_const(c, Y, "Y"); frame_result(c, A, "A");
}
// result restricted to one triangle: opposite part is not referenced
static void tri_result(Src &s, Case &c, const char *name, Mat &A, bool up, const LM &ref, const LM &av, LD m)
{
    if (mode.value)
        for (int j = 0; j < A.c(); j++)
            for (int i = 0; i < A.r(); i++)
                if (up ? i <= j : i >= j) {
                    LD tol = m * UEPS * av(i, j) + m * DBL_MIN;
                    if (!(fabsl(A.e(i, j) - ref(i, j)) <= tol))
                        c.fail("%s: element (%d,%d) is %.17g, expected %.17Lg, error exceeds bound %.3Lg", name, i, j, A.e(i, j), ref(i, j), tol);
                }
    frame_except(c, A, "A", [=](int i, int j) { return up ? i <= j : i >= j; });
}
TARGET(blas2, mvupdate_trm, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ORECURSIVE});
    int m = nz(dim(s, BIG2)), n = s.chance(1, 2) ? m : nz(dim(s, BIG2));
    bool up = s.chance(1, 2), sym = m == n && s.chance(1, 3);
    Mat A = mk(s, m, n), X = mkvec(s, m), Y = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X); fill(s, Y);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    c.d("%s %s A=%s(%s) X=%s(%s) Y=%s alpha=%g beta=%g opt=%x", sym ? "mvupdate_sym" : "mvupdate_trm", up ? "upper" : "lower", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), sh(Y).c_str(), alpha, beta, cf.optflags);
    classify(c, m, n, A);
    LM a = A.lm();
    pollute(A, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    if (!sym) share(s, c, X, Y);
    LM xy = mul(X.lmv(), tr(sym ? X.lmv() : Y.lmv()));
    LM ref = add(alpha, xy, beta, a), av = add(fabsl(alpha), absm(xy), fabsl(beta), absm(a));
    A.snapshot(); X.snapshot(); Y.snapshot();
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    if (sym) OKRC(c, armas_mvupdate_sym(beta, &A, alpha, &X, fl, &cf), cf);
    else OKRC(c, armas_mvupdate_trm(beta, &A, alpha, &X, &Y, fl, &cf), cf);
    tri_result(s, c, "mvupdate_trm", A, up, ref, av, 8);
    frame_const(c, X, "X"); frame_const(c, Y, "Y");
}
TARGET(blas2, mvupdate2_sym, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE});
    int n = nz(dim(s, BIG2));
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n), X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, A), d2 = fill(s, X); fill(s, Y);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    c.d("mvupdate2_sym %s A=%s(%s) X=%s(%s) Y=%s alpha=%g beta=%g opt=%x", up ? "upper" : "lower", sh(A).c_str(), dm_name(d1), sh(X).c_str(), dm_name(d2), sh(Y).c_str(), alpha, beta, cf.optflags);
    classify(c, n, n, A);
    LM a = A.lm();
    pollute(A, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    share(s, c, X, Y);
    LM xy = mul(X.lmv(), tr(Y.lmv())), yx = tr(xy);
    LM ref = add(alpha, add(1, xy, 1, yx), beta, a), av = add(fabsl(alpha), add(1, absm(xy), 1, absm(yx)), fabsl(beta), absm(a));
    A.snapshot(); X.snapshot(); Y.snapshot();
    OKRC(c, armas_mvupdate2_sym(beta, &A, alpha, &X, &Y, up ? ARMAS_UPPER : ARMAS_LOWER, &cf), cf);
    tri_result(s, c, "mvupdate2_sym", A, up, ref, av, 12);
    frame_const(c, X, "X"); frame_const(c, Y, "Y");
}
