// Matrix-matrix operations (C03; frame C05, configuration C06, parallel C07)
#include "la.h"
void solvable_tri(Src &s, Mat &A);

static int d3(Src &s)
{
    int n;
    if (large_case) n = s.range(100, 330);
    else if (s.chance(1, mode.thorough ? 40 : 400)) n = s.range(100, 320);
    else n = dim(s, cfg_accel ? 260 : 130);
    return n ? n : 1;
}
static LD mult3(int k) { return 2.0L * k + 16; }
static void classify(Case &c, int m, int n, int k, const Mat &A)
{
    if (m > 1 && n > 1 && k > 1) c.nontrivial = true;
    if (A.m.step > A.r()) c.label("padded");
    if (m % 4 || n % 4 || k % 4) c.label("remainder");
    if (m > 64 || n > 64 || k > 64) c.label("large");
}
static int transflag(Src &s, bool t, int tf, int cf) { return t ? (s.chance(1, 4) ? cf : tf) : 0; }

TARGET(blas3, mult, 16)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE});
    int m = d3(s), n = d3(s), k = d3(s);
    bool ta = s.chance(1, 2), tb = s.chance(1, 2);
    int ab = s.weighted({8, 1, 1, 1});
    Mat A = ta ? mk(s, k, m) : mk(s, m, k), B = tb ? mk(s, n, k) : mk(s, k, n), C = mk(s, m, n);
    int d1 = fill(s, A), d2 = fill(s, B); fill(s, C);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    int fl = transflag(s, ta, ARMAS_TRANSA, ARMAS_CTRANSA) | transflag(s, tb, ARMAS_TRANSB, ARMAS_CTRANSB) | (ab & 1 ? ARMAS_ABSA : 0) | (ab & 2 ? ARMAS_ABSB : 0);
    c.d("mult%s%s%s%s A=%s(%s) B=%s(%s) C=%s alpha=%g beta=%g flags=%x opt=%x", ta ? " TA" : "", tb ? " TB" : "", ab & 1 ? " |A|" : "", ab & 2 ? " |B|" : "", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), sh(C).c_str(), alpha, beta, fl, cf.optflags);
    classify(c, m, n, k, A);
    if (ab) c.label("abs");
    share(s, c, A, B);
    LM a = A.lm(), b = B.lm();
    if (ta) a = tr(a);
    if (tb) b = tr(b);
    if (ab & 1) a = absm(a);
    if (ab & 2) b = absm(b);
    LM ref = add(alpha, mul(a, b), beta, C.lm()), av = add(fabsl(alpha), mul(absm(a), absm(b)), fabsl(beta), absm(C.lm()));
    A.snapshot(); B.snapshot(); C.snapshot();
    OKRC(c, armas_mult(beta, &C, alpha, &A, &B, fl, &cf), cf);
    cmpm(c, "mult", C, ref, av, mult3(k));
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
}
TARGET(blas3, mult_sym, 12)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE});
    int m = d3(s), n = d3(s);
    bool right = s.chance(1, 2), tb = s.chance(1, 3), up = s.chance(1, 2);
    int k = right ? n : m;
    Mat A = mk(s, k, k), B = tb ? mk(s, n, m) : mk(s, m, n), C = mk(s, m, n);
    int d1 = fill(s, A), d2 = fill(s, B); fill(s, C);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    LM a;
    if (share(s, c, A, B)) {
        a = A.lm();
        for (int j = 0; j < k; j++) for (int i = 0; i < j; i++) (up ? a(j, i) : a(i, j)) = up ? a(i, j) : a(j, i);
    } else a = symoperand(s, A, up);
    LM b = B.lm();
    if (tb) b = tr(b);
    int fl = (right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0})) | (tb ? ARMAS_TRANSB : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER);
    c.d("mult_sym%s%s %s A=%s(%s) B=%s(%s) C=%s alpha=%g beta=%g flags=%x opt=%x", right ? " RIGHT" : " LEFT", tb ? " TB" : "", up ? "upper" : "lower", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), sh(C).c_str(), alpha, beta, fl, cf.optflags);
    classify(c, m, n, k, A);
    LM p = right ? mul(b, a) : mul(a, b), q = right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b));
    LM ref = add(alpha, p, beta, C.lm()), av = add(fabsl(alpha), q, fabsl(beta), absm(C.lm()));
    A.snapshot(); B.snapshot(); C.snapshot();
    OKRC(c, armas_mult_sym(beta, &C, alpha, &A, &B, fl, &cf), cf);
    cmpm(c, "mult_sym", C, ref, av, mult3(k));
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
}
TARGET(blas3, mult_trm, 14)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ORECURSIVE});
    int m = d3(s), n = d3(s);
    bool right = s.chance(1, 2), trans = s.chance(1, 2), up = s.chance(1, 2), unit = s.chance(1, 3);
    int k = right ? n : m;
    Mat A = mk(s, k, k), B = mk(s, m, n);
    int d1 = fill(s, A), d2 = fill(s, B);
    double alpha = rnd_scalar(s);
    LM a = trioperand(s, A, up, unit), b = B.lm();
    if (trans) a = tr(a);
    int fl = (right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0})) | (trans ? ARMAS_TRANS : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER) | (unit ? ARMAS_UNIT : 0);
    c.d("mult_trm%s%s %s%s A=%s(%s) B=%s(%s) alpha=%g flags=%x opt=%x", right ? " RIGHT" : " LEFT", trans ? " T" : "", up ? "upper" : "lower", unit ? " unit" : "", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), alpha, fl, cf.optflags);
    classify(c, m, n, k, A);
    if (unit) c.label("unit");
    LM ref = right ? mul(b, a) : mul(a, b), av = right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b));
    for (auto &v : ref.a) v *= alpha;
    for (auto &v : av.a) v *= fabsl(alpha);
    A.snapshot(); B.snapshot();
    OKRC(c, armas_mult_trm(&B, alpha, &A, fl, &cf), cf);
    cmpm(c, "mult_trm", B, ref, av, mult3(k));
    frame_const(c, A, "A"); frame_result(c, B, "B");
}
TARGET(blas3, solve_trm, 14)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ORECURSIVE});
    int m = d3(s), n = d3(s);
    bool right = s.chance(1, 2), trans = s.chance(1, 2), up = s.chance(1, 2), unit = s.chance(1, 3);
    int k = right ? n : m;
    Mat A = mk(s, k, k), B = mk(s, m, n);
    int d1 = fill(s, A), d2 = fill(s, B);
    solvable_tri(s, A);
    double alpha = rnd_scalar(s);
    LM a = trioperand(s, A, up, unit), b = B.lm();
    if (trans) a = tr(a);
    int fl = (right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0})) | (trans ? ARMAS_TRANS : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER) | (unit ? ARMAS_UNIT : 0);
    c.d("solve_trm%s%s %s%s A=%s(%s) B=%s(%s) alpha=%g flags=%x opt=%x", right ? " RIGHT" : " LEFT", trans ? " T" : "", up ? "upper" : "lower", unit ? " unit" : "", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), alpha, fl, cf.optflags);
    classify(c, m, n, k, A);
    if (unit) c.label("unit");
    A.snapshot(); B.snapshot();
    OKRC(c, armas_solve_trm(&B, alpha, &A, fl, &cf), cf);
    need_finite(c, "solve_trm result", B);
    if (mode.value) {
        LM x = B.lm();
        LM ax = right ? mul(x, a) : mul(a, x), aax = right ? mul(absm(x), absm(a)) : mul(absm(a), absm(x));
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                LD r = alpha * b(i, j), t = mult3(k) * UEPS * (aax(i, j) + fabsl(r)) + mult3(k) * DBL_MIN;
                if (!(fabsl(ax(i, j) - r) <= t)) c.fail("solve_trm: op(A)*X is %.17Lg at (%d,%d) where alpha*B is %.17Lg, bound %.3Lg", ax(i, j), i, j, r, t);
            }
    }
    frame_const(c, A, "A"); frame_result(c, B, "B");
}
static void tri_result(Case &c, const char *name, Mat &C, bool up, const LM &ref, const LM &av, LD m)
{
    if (mode.value)
        for (int j = 0; j < C.c(); j++)
            for (int i = 0; i < C.r(); i++)
                if (up ? i <= j : i >= j) {
                    LD tol = m * UEPS * av(i, j) + m * DBL_MIN;
                    if (!(fabsl(C.e(i, j) - ref(i, j)) <= tol))
                        c.fail("%s: element (%d,%d) is %.17g, expected %.17Lg, error exceeds bound %.3Lg", name, i, j, C.e(i, j), ref(i, j), tol);
                }
    frame_except(c, C, "C", [=](int i, int j) { return up ? i <= j : i >= j; });
}
TARGET(blas3, update_trm, 12)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ORECURSIVE});
    int m = d3(s), n = s.chance(1, 2) ? m : d3(s), k = d3(s);
    bool ta = s.chance(1, 2), tb = s.chance(1, 2), up = s.chance(1, 2);
    Mat A = ta ? mk(s, k, m) : mk(s, m, k), B = tb ? mk(s, n, k) : mk(s, k, n), C = mk(s, m, n);
    int d1 = fill(s, A), d2 = fill(s, B); fill(s, C);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    LM c0 = C.lm();
    pollute(C, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    int fl = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER);
    c.d("update_trm %s%s%s A=%s(%s) B=%s(%s) C=%s alpha=%g beta=%g opt=%x", up ? "upper" : "lower", ta ? " TA" : "", tb ? " TB" : "", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), sh(C).c_str(), alpha, beta, cf.optflags);
    classify(c, m, n, k, A);
    if (m != n) c.label("trapezoidal");
    share(s, c, A, B);
    LM a = A.lm(), b = B.lm();
    if (ta) a = tr(a);
    if (tb) b = tr(b);
    LM ref = add(alpha, mul(a, b), beta, c0), av = add(fabsl(alpha), mul(absm(a), absm(b)), fabsl(beta), absm(c0));
    A.snapshot(); B.snapshot(); C.snapshot();
    OKRC(c, armas_update_trm(beta, &C, alpha, &A, &B, fl, &cf), cf);
    tri_result(c, "update_trm", C, up, ref, av, mult3(k));
    frame_const(c, A, "A"); frame_const(c, B, "B");
}
TARGET(blas3, update_sym, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ORECURSIVE});
    int n = d3(s), k = d3(s);
    bool ta = s.chance(1, 2), up = s.chance(1, 2);
    Mat A = ta ? mk(s, k, n) : mk(s, n, k), C = mk(s, n, n);
    int d1 = fill(s, A); fill(s, C);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    LM c0 = C.lm();
    pollute(C, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    int fl = (ta ? ARMAS_TRANS : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER);
    c.d("update_sym %s%s A=%s(%s) C=%s alpha=%g beta=%g opt=%x", up ? "upper" : "lower", ta ? " T" : "", sh(A).c_str(), dm_name(d1), sh(C).c_str(), alpha, beta, cf.optflags);
    classify(c, n, n, k, A);
    LM a = A.lm();
    if (ta) a = tr(a);
    LM ref = add(alpha, mul(a, tr(a)), beta, c0), av = add(fabsl(alpha), mul(absm(a), absm(tr(a))), fabsl(beta), absm(c0));
    A.snapshot(); C.snapshot();
    OKRC(c, armas_update_sym(beta, &C, alpha, &A, fl, &cf), cf);
    tri_result(c, "update_sym", C, up, ref, av, mult3(k));
    frame_const(c, A, "A");
}
TARGET(blas3, update2_sym, 10)
{
    Conf cf = cfg(s, c, {ARMAS_ONAIVE, ARMAS_ORECURSIVE});
    int n = d3(s), k = d3(s);
    bool ta = s.chance(1, 2), up = s.chance(1, 2);
    Mat A = ta ? mk(s, k, n) : mk(s, n, k), B = ta ? mk(s, k, n) : mk(s, n, k), C = mk(s, n, n);
    int d1 = fill(s, A), d2 = fill(s, B); fill(s, C);
    double alpha = rnd_scalar(s), beta = rnd_scalar(s);
    LM c0 = C.lm();
    pollute(C, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    int fl = (ta ? ARMAS_TRANS : 0) | (up ? ARMAS_UPPER : ARMAS_LOWER);
    c.d("update2_sym %s%s A=%s(%s) B=%s(%s) C=%s alpha=%g beta=%g opt=%x", up ? "upper" : "lower", ta ? " T" : "", sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), sh(C).c_str(), alpha, beta, cf.optflags);
    classify(c, n, n, k, A);
    share(s, c, A, B);
    LM a = A.lm(), b = B.lm();
    if (ta) { a = tr(a); b = tr(b); }
    LM p = mul(a, tr(b)), q = mul(absm(a), absm(tr(b)));
    LM ref = add(alpha, add(1, p, 1, tr(p)), beta, c0), av = add(fabsl(alpha), add(1, q, 1, tr(q)), fabsl(beta), absm(c0));
    A.snapshot(); B.snapshot(); C.snapshot();
    OKRC(c, armas_update2_sym(beta, &C, alpha, &A, &B, fl, &cf), cf);
    tri_result(c, "update2_sym", C, up, ref, av, 2 * mult3(k));
    frame_const(c, A, "A"); frame_const(c, B, "B");
}
