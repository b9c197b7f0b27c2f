// Extended precision operations (C08): results against quadruple precision reference
#include "lap.h"
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }
struct QM {
    int r = 0, c = 0;
    std::vector<Q> a;
    QM() {}
    QM(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0) {}
    Q &operator()(int i, int j) { return a[(size_t)j * r + i]; }
    Q operator()(int i, int j) const { return a[(size_t)j * r + i]; }
};
static QM qm(const Mat &A) { QM R(A.r(), A.c()); for (int j = 0; j < R.c; j++) for (int i = 0; i < R.r; i++) R(i, j) = A.e(i, j); return R; }
static QM qv(const Mat &x) { QM R(x.n(), 1); for (int i = 0; i < R.r; i++) R(i, 0) = x.v(i); return R; }
static QM tr(const QM &A) { QM R(A.c, A.r); for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) R(j, i) = A(i, j); return R; }
// s = A*B, sa = |A|*|B|
static void mul(const QM &A, const QM &B, QM &S, QM &SA)
{
    S = QM(A.r, B.c); SA = QM(A.r, B.c);
    for (int j = 0; j < B.c; j++) for (int k = 0; k < A.c; k++) { Q b = B(k, j); if (b != 0) for (int i = 0; i < A.r; i++) { Q t = A(i, k) * b; S(i, j) += t; SA(i, j) += qabs(t); } }
}
static void judge(Case &c, const char *what, int i, int j, double got, Q ref, Q abss, int n)
{
    if (!std::isfinite(got)) c.fail("%s: element (%d,%d) is %g", what, i, j, got);
    Q err = qabs((Q)got - ref), u = UEPS;
    Q lim = 4 * u * qabs(ref) + 4 * (Q)(n + 8) * (n + 8) * u * u * abss + 1e-290;
    if (err > lim) {
        c.fail("%s: element (%d,%d) is %.17g, exact %.17g; error %.3g, allowed %.3g (condition of the sum %.3g)", what, i, j, got, (double)ref, (double)err, (double)lim,
               ref != 0 ? (double)(abss / qabs(ref)) : INFINITY);
    }
}
// ---------------------------------------------------------------- cancelling data
struct Canc {
    int k;                  // size of the inner dimension
    std::vector<int> pr, sg;
    std::vector<double> sc; // scale of pair
    double tail;            // relative perturbation of an element from exact cancellation
    int kind;
    Rng g;
    static const char *name(int k) { static const char *n[] = {"random", "cancel-exact", "cancel-2^-10", "cancel-2^-30", "cancel-2^-45", "cancel-ulp", "wide"}; return n[k]; }
    Canc(Src &s, Case &c, int k_) : k(k_), g(s.seed())
    {
        kind = s.pickl({0, 1, 2, 3, 4, 5, 6});
        static const int t[] = {0, 0, 10, 30, 45, 51, 0};
        tail = kind >= 2 && kind <= 5 ? ldexp(1.0, -t[kind]) : 0;
        std::vector<int> p(k);
        for (int i = 0; i < k; i++) p[i] = i;
        bool shuffled = s.chance(1, 2);
        if (shuffled) for (int i = k - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]);
        pr.resize(k); sg.resize(k); sc.resize(k + 1);
        int e = kind == 6 ? 40 : s.pickl({0, 3, 20});
        for (int i = 0; i < k; i++) { pr[i] = p[i] / 2; sg[i] = p[i] % 2 ? -1 : 1; }
        for (int i = 0; i <= k; i++) sc[i] = ldexp(1.0, e ? (int)g.below(2 * e) - e : 0);
        // a single unpaired element is of the order of the result
        if (cancels() && k % 2 && k > 1) sc[k / 2] *= tail;
        c.label(name(kind));
        c.d(" [%s%s]", name(kind), shuffled ? " shuffled" : "");
    }
    bool cancels() const { return kind >= 1 && kind <= 5; }
    double pert(double x) { return tail && g.below(2) ? x * (1 + tail * g.sym()) : x; }
    // first operand, inner dimension along columns (or rows: trans)
    void left(const Mat &A, bool vec, bool trans)
    {
        int o = vec ? 1 : trans ? A.c() : A.r(), np = k / 2 + 1;
        std::vector<double> m((size_t)o * np);
        for (auto &x : m) x = g.sym();
        for (int q = 0; q < k; q++) for (int i = 0; i < o; i++) {
            double x = cancels() ? pert(sg[q] * m[(size_t)pr[q] * o + i]) : g.sym();
            x *= sc[pr[q]];
            (vec ? A.v(q) : trans ? A.e(q, i) : A.e(i, q)) = x;
        }
    }
    // second operand, inner dimension along rows
    void right(const Mat &B, bool vec, bool trans)
    {
        int o = vec ? 1 : trans ? B.r() : B.c(), np = k / 2 + 1;
        std::vector<double> m((size_t)o * np);
        for (auto &x : m) x = g.sym();
        for (int q = 0; q < k; q++) for (int j = 0; j < o; j++) {
            double x = cancels() ? m[(size_t)pr[q] * o + j] : g.sym();
            (vec ? B.v(q) : trans ? B.e(j, q) : B.e(q, j)) = x;
        }
    }
    // symmetric (or used as triangular) operand
    void square(const Mat &A)
    {
        int np = k / 2 + 1;
        std::vector<double> m((size_t)np * np);
        for (int i = 0; i < np; i++) for (int j = 0; j <= i; j++) m[i * np + j] = m[j * np + i] = g.sym();
        for (int j = 0; j < k; j++) for (int i = j; i < k; i++) {
            double x = cancels() ? pert(sg[i] * sg[j] * m[pr[i] * np + pr[j]]) : g.sym();
            A.e(i, j) = A.e(j, i) = x * sc[pr[i]] * sc[pr[j]];
        }
    }
};
static double scal(Src &s, bool zero)
{
    int w = s.weighted({4, 2, 2, 2, zero ? 1 : 0});
    if (w == 0) return 1;
    if (w == 1) return -1;
    if (w == 2) return s.pickl({2, 3, -3, 5}) * 0.5;
    if (w == 4) return 0;
    return Rng(s.seed()).sym() * 3;
}
// result operand: garbage, or such that the sum beta*C + alpha*S cancels to working precision
static void target(Src &s, Case &c, const Mat &C, bool vec, double beta, double alpha, const QM &S)
{
    int w = beta == 0 ? 0 : s.weighted({2, 3});
    c.d(" C:%s", w ? "cancelling" : "random");
    Rng g(s.seed());
    for (int j = 0; j < S.c; j++) for (int i = 0; i < S.r; i++) {
        double x = g.sym();
        if (w) x = (double)(-(Q)alpha * S(i, j) / beta);
        if (w && g.below(3) == 0) x *= 1 + 1e-13 * g.sym();
        (vec ? C.v(i) : C.e(i, j)) = x;
    }
}
static void envs(Src &s, Case &c) { if (s.chance(1, 2)) env_vary(s, c); }
static QM qtri(const Mat &A, bool up, bool unit)
{
    QM T(A.r(), A.c());
    for (int j = 0; j < T.c; j++) for (int i = 0; i < T.r; i++) T(i, j) = i == j && unit ? (Q)1 : (up ? i <= j : i >= j) ? (Q)A.e(i, j) : (Q)0;
    return T;
}
static QM qsym(const Mat &A, bool up)
{
    QM T(A.r(), A.c());
    for (int j = 0; j < T.c; j++) for (int i = 0; i < T.r; i++) T(i, j) = (up ? i <= j : i >= j) ? A.e(i, j) : A.e(j, i);
    return T;
}
static int dimx(Src &s, int lo = 1) { return large_case ? s.range(60, 150) : s.weighted({3, 4, 1}) == 0 ? s.range(lo, 6) : s.chance(1, 5) ? s.range(20, mode.maxdim ? 70 : 40) : s.range(lo, 24); }
static int dimv(Src &s) { return s.chance(1, 100) && !mode.maxdim && !mode.exact ? s.range(40, 300) : dimx(s); }

TARGET(ext, dot, 8)
{
    int n = s.chance(1, 5) ? s.range(50, 600) : s.range(0, 40);
    double alpha = scal(s, true), r = 1e300;
    c.d(" ext_adot n=%d alpha=%g", n, alpha);
    Canc k(s, c, n);
    Mat x = mkvec(s, n), y = mkvec(s, n);
    k.left(x, true, false); k.right(y, true, false);
    share(s, c, x, y);
    Conf cf = conf0();
    x.snapshot(); y.snapshot();
    c.nontrivial = n > 1 && alpha != 0;
    if (n == 0) { armas_ext_adot(&r, alpha, &x, &y, &cf); frame_const(c, x, "x"); return; }
    OKRC(c, armas_ext_adot(&r, alpha, &x, &y, &cf), cf);
    frame_const(c, x, "x"); frame_const(c, y, "y");
    if (!mode.value) return;
    QM S, SA; QM xt = tr(qv(x)); mul(xt, qv(y), S, SA);
    judge(c, "ext_adot", 0, 0, r, alpha * S(0, 0), fabs(alpha) * SA(0, 0), n);
}
extern "C" int armas_d_ext_sum(double *result, double alpha, const armas_d_dense_t *X, int flags, armas_conf_t *cf);
TARGET(ext, sum, 6)
{
    int n = s.chance(1, 5) ? s.range(50, 600) : s.range(1, 40);
    int fl = s.chance(1, 4) ? ARMAS_ABS : 0;
    double alpha = scal(s, true), r = 1e300;
    c.d(" ext_sum n=%d alpha=%g %s", n, alpha, fl ? "ABS" : "");
    Canc k(s, c, n);
    Mat x = mkvec(s, n);
    k.left(x, true, false);
    Conf cf = conf0();
    x.snapshot();
    c.nontrivial = n > 1 && alpha != 0;
    OKRC(c, armas_d_ext_sum(&r, alpha, &x, fl, &cf), cf);
    frame_const(c, x, "x");
    if (!mode.value) return;
    Q S = 0, SA = 0;
    for (int i = 0; i < n; i++) { S += fl ? fabs(x.v(i)) : x.v(i); SA += fabs(x.v(i)); }
    judge(c, "ext_sum", 0, 0, r, alpha * S, fabs(alpha) * SA, n);
}
TARGET(ext, axpby, 5)
{
    int n = s.chance(1, 5) ? s.range(50, 300) : s.range(0, 40);
    double alpha = scal(s, true), beta = scal(s, true);
    c.d(" ext_axpby n=%d alpha=%g beta=%g", n, alpha, beta);
    Mat x = mkvec(s, n), y = mkvec(s, n);
    Rng g(s.seed());
    for (int i = 0; i < n; i++) x.v(i) = g.sym() * ldexp(1, g.below(20) - 10);
    QM S = qv(x);
    target(s, c, y, true, beta, alpha, S);
    Conf cf = conf0();
    x.snapshot(); y.snapshot();
    QM y0 = qv(y);
    c.nontrivial = n > 0;
    OKRC(c, armas_ext_axpby(beta, &y, alpha, &x, &cf), cf);
    frame_const(c, x, "x"); frame_result(c, y, "y");
    if (mode.value) for (int i = 0; i < n; i++) judge(c, "ext_axpby", i, 0, y.v(i), beta * y0(i, 0) + alpha * S(i, 0), fabs(beta) * qabs(y0(i, 0)) + fabs(alpha) * qabs(S(i, 0)), 2);
}
TARGET(ext, mvmult, 8)
{
    envs(s, c);
    int m = dimv(s), n = dimv(s), fl = s.chance(1, 2) ? ARMAS_TRANS : 0;
    bool t = fl != 0;
    double alpha = scal(s, true), beta = scal(s, true);
    c.d(" ext_mvmult A=%dx%d %s alpha=%g beta=%g", m, n, t ? "TRANS" : "", alpha, beta);
    Canc k(s, c, t ? m : n);
    Mat A = mk(s, m, n), x = mkvec(s, t ? m : n), y = mkvec(s, t ? n : m);
    k.left(A, false, t); k.right(x, true, false);
    QM S, SA, a = qm(A);
    mul(t ? tr(a) : a, qv(x), S, SA);
    target(s, c, y, true, beta, alpha, S);
    Conf cf = conf0();
    A.snapshot(); x.snapshot(); y.snapshot();
    QM y0 = qv(y);
    c.nontrivial = alpha != 0 && m * n > 1;
    OKRC(c, armas_ext_mvmult(beta, &y, alpha, &A, &x, fl, &cf), cf);
    frame_const(c, A, "A"); frame_const(c, x, "x"); frame_result(c, y, "y");
    if (mode.value) for (int i = 0; i < y.n(); i++) judge(c, "ext_mvmult", i, 0, y.v(i), beta * y0(i, 0) + alpha * S(i, 0), fabs(beta) * qabs(y0(i, 0)) + fabs(alpha) * SA(i, 0), k.k);
}
TARGET(ext, mvmult_sym, 6)
{
    envs(s, c);
    int n = dimv(s);
    bool up = s.chance(1, 2);
    double alpha = scal(s, true), beta = scal(s, true);
    c.d(" ext_mvmult_sym n=%d %s alpha=%g beta=%g", n, up ? "UPPER" : "LOWER", alpha, beta);
    Canc k(s, c, n);
    Mat A = mk(s, n, n), x = mkvec(s, n), y = mkvec(s, n);
    k.square(A); k.right(x, true, false);
    QM S, SA;
    mul(qsym(A, up), qv(x), S, SA);
    pollute(A, polkind(s), [&](int i, int j) { return up ? i > j : i < j; });
    target(s, c, y, true, beta, alpha, S);
    Conf cf = conf0();
    A.snapshot(); x.snapshot(); y.snapshot();
    QM y0 = qv(y);
    c.nontrivial = alpha != 0 && n > 1;
    OKRC(c, armas_ext_mvmult_sym(beta, &y, alpha, &A, &x, up ? ARMAS_UPPER : ARMAS_LOWER, &cf), cf);
    frame_const(c, A, "A"); frame_const(c, x, "x"); frame_result(c, y, "y");
    if (mode.value) for (int i = 0; i < n; i++) judge(c, "ext_mvmult_sym", i, 0, y.v(i), beta * y0(i, 0) + alpha * S(i, 0), fabs(beta) * qabs(y0(i, 0)) + fabs(alpha) * SA(i, 0), n);
}
TARGET(ext, mvmult_trm, 6)
{
    envs(s, c);
    int n = dimv(s);
    bool up = s.chance(1, 2), unit = s.chance(1, 3), t = s.chance(1, 2);
    double alpha = scal(s, true);
    c.d(" ext_mvmult_trm n=%d %s%s%s alpha=%g", n, up ? "UPPER" : "LOWER", t ? " TRANS" : "", unit ? " UNIT" : "", alpha);
    Canc k(s, c, n);
    Mat A = mk(s, n, n), x = mkvec(s, n);
    k.square(A); k.right(x, true, false);
    QM S, SA, T = qtri(A, up, unit);
    mul(t ? tr(T) : T, qv(x), S, SA);
    pollute(A, polkind(s), [&](int i, int j) { return (up ? i > j : i < j) || (unit && i == j); });
    Conf cf = conf0();
    A.snapshot(); x.snapshot();
    c.nontrivial = alpha != 0 && n > 1;
    OKRC(c, armas_ext_mvmult_trm(&x, alpha, &A, (up ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0), &cf), cf);
    frame_const(c, A, "A"); frame_result(c, x, "x");
    if (mode.value) for (int i = 0; i < n; i++) judge(c, "ext_mvmult_trm", i, 0, x.v(i), alpha * S(i, 0), fabs(alpha) * SA(i, 0), n);
}
TARGET(ext, mvupdate, 6)
{
    envs(s, c);
    int op = s.range(0, 2);
    int m = dimv(s), n = op ? m : dimv(s);
    bool up = s.chance(1, 2);
    double alpha = scal(s, true), beta = scal(s, true);
    static const char *nm[] = {"ext_mvupdate", "ext_mvupdate_sym", "ext_mvupdate2_sym"};
    c.d(" %s A=%dx%d %s alpha=%g beta=%g", nm[op], m, n, op ? up ? "UPPER" : "LOWER" : "", alpha, beta);
    c.label(nm[op]);
    Mat A = mk(s, m, n), x = mkvec(s, m), y = op == 1 ? Mat() : mkvec(s, n);
    Rng g(s.seed());
    for (int i = 0; i < m; i++) x.v(i) = g.sym() * ldexp(1, g.below(12) - 6);
    if (op != 1) for (int i = 0; i < n; i++) y.v(i) = g.sym() * ldexp(1, g.below(12) - 6);
    if (op == 2 && s.chance(1, 2)) for (int i = 0; i < n; i++) y.v(i) = (i % 2 ? -1 : 1) * x.v(i) * (g.below(2) ? 1 : 1 + 1e-14 * g.sym());
    if (op != 1) share(s, c, x, y);
    QM S(m, n), SA(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        Q a = (Q)x.v(i) * (op == 1 ? x.v(j) : y.v(j)), b = op == 2 ? (Q)y.v(i) * x.v(j) : (Q)0;
        S(i, j) = a + b; SA(i, j) = qabs(a) + qabs(b);
    }
    target(s, c, A, false, beta, alpha, S);
    if (op) pollute(A, polkind(s), [&](int i, int j) { return up ? i > j : i < j; });
    Conf cf = conf0();
    A.snapshot(); x.snapshot(); if (op != 1) y.snapshot();
    QM A0 = qm(A);
    c.nontrivial = alpha != 0 && m * n > 1;
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER, rc;
    if (op == 0) rc = armas_ext_mvupdate(beta, &A, alpha, &x, &y, &cf);
    else if (op == 1) rc = armas_ext_mvupdate_sym(beta, &A, alpha, &x, fl, &cf);
    else rc = armas_ext_mvupdate2_sym(beta, &A, alpha, &x, &y, fl, &cf);
    if (rc < 0) oom(c, "update", rc, cf);
    if (rc) c.fail("%s returned %d (error %d) for valid operands", nm[op], rc, cf.err());
    frame_const(c, x, "x"); if (op != 1) frame_const(c, y, "y");
    auto in = [&](int i, int j) { return op == 0 || (up ? i <= j : i >= j); };
    frame_except(c, A, "A", in);
    if (mode.value) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j))
        judge(c, nm[op], i, j, A.e(i, j), beta * A0(i, j) + alpha * S(i, j), fabs(beta) * qabs(A0(i, j)) + fabs(alpha) * SA(i, j), 3);
}
static Conf econf(Src &s, Case &c)
{
    Conf cf = cfg(s, c, {0, 0, ARMAS_ONAIVE});
    return cf;
}
TARGET(ext, mult, 8)
{
    Conf cf = econf(s, c);
    int m = dimx(s), n = dimx(s), p = dimx(s);
    bool ta = s.chance(1, 2), tb = s.chance(1, 2);
    double alpha = scal(s, true), beta = scal(s, true);
    c.d(" ext_mult C=%dx%d k=%d%s%s alpha=%g beta=%g", m, n, p, ta ? " TRANSA" : "", tb ? " TRANSB" : "", alpha, beta);
    Canc k(s, c, p);
    Mat A = ta ? mk(s, p, m) : mk(s, m, p), B = tb ? mk(s, n, p) : mk(s, p, n), C = mk(s, m, n);
    k.left(A, false, ta); k.right(B, false, tb);
    share(s, c, A, B);
    QM S, SA, a = qm(A), b = qm(B);
    mul(ta ? tr(a) : a, tb ? tr(b) : b, S, SA);
    target(s, c, C, false, beta, alpha, S);
    A.snapshot(); B.snapshot(); C.snapshot();
    QM C0 = qm(C);
    c.nontrivial = alpha != 0 && p > 1;
    OKRC(c, armas_ext_mult(beta, &C, alpha, &A, &B, (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &cf), cf);
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
    if (mode.value) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++)
        judge(c, "ext_mult", i, j, C.e(i, j), beta * C0(i, j) + alpha * S(i, j), fabs(beta) * qabs(C0(i, j)) + fabs(alpha) * SA(i, j), p);
}
TARGET(ext, mult_sym, 8)
{
    Conf cf = econf(s, c);
    int m = dimx(s), n = dimx(s);
    bool right = s.chance(1, 2), tb = s.chance(1, 2), up = s.chance(1, 2);
    int na = right ? n : m;
    double alpha = scal(s, true), beta = scal(s, true);
    c.d(" ext_mult_sym C=%dx%d %s %s%s alpha=%g beta=%g", m, n, right ? "RIGHT" : "LEFT", up ? "UPPER" : "LOWER", tb ? " TRANSB" : "", alpha, beta);
    Canc k(s, c, na);
    Mat A = mk(s, na, na), B = tb ? mk(s, n, m) : mk(s, m, n), C = mk(s, m, n);
    k.square(A);
    // inner dimension of op(B): rows on left product, columns on right
    k.right(B, false, right != tb);
    QM S, SA, a = qsym(A, up), b = qm(B);
    if (tb) b = tr(b);
    if (right) mul(b, a, S, SA); else mul(a, b, S, SA);
    pollute(A, polkind(s), [&](int i, int j) { return up ? i > j : i < j; });
    target(s, c, C, false, beta, alpha, S);
    A.snapshot(); B.snapshot(); C.snapshot();
    QM C0 = qm(C);
    c.nontrivial = alpha != 0 && na > 1;
    OKRC(c, armas_ext_mult_sym(beta, &C, alpha, &A, &B, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (up ? ARMAS_UPPER : ARMAS_LOWER) | (tb ? ARMAS_TRANSB : 0), &cf), cf);
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
    if (mode.value) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++)
        judge(c, "ext_mult_sym", i, j, C.e(i, j), beta * C0(i, j) + alpha * S(i, j), fabs(beta) * qabs(C0(i, j)) + fabs(alpha) * SA(i, j), na);
}
TARGET(ext, mult_trm, 8)
{
    Conf cf = econf(s, c);
    int m = dimx(s), n = dimx(s);
    bool right = s.chance(1, 2), t = s.chance(1, 2), up = s.chance(1, 2), unit = s.chance(1, 3);
    int na = right ? n : m;
    double alpha = scal(s, true);
    c.d(" ext_mult_trm B=%dx%d %s %s%s%s alpha=%g", m, n, right ? "RIGHT" : "LEFT", up ? "UPPER" : "LOWER", t ? " TRANS" : "", unit ? " UNIT" : "", alpha);
    Canc k(s, c, na);
    Mat A = mk(s, na, na), B = mk(s, m, n);
    k.square(A); k.right(B, false, right);
    QM S, SA, a = qtri(A, up, unit), b = qm(B);
    if (t) a = tr(a);
    if (right) mul(b, a, S, SA); else mul(a, b, S, SA);
    pollute(A, polkind(s), [&](int i, int j) { return (up ? i > j : i < j) || (unit && i == j); });
    A.snapshot(); B.snapshot();
    c.nontrivial = alpha != 0 && na > 1;
    OKRC(c, armas_ext_mult_trm(&B, alpha, &A, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (up ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0), &cf), cf);
    frame_const(c, A, "A"); frame_result(c, B, "B");
    if (mode.value) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++)
        judge(c, "ext_mult_trm", i, j, B.e(i, j), alpha * S(i, j), fabs(alpha) * SA(i, j), na);
}
// ---------------------------------------------------------------- triangular solve
// substitution in quadruple precision. E1, E2: first and second order growth of errors (M(T)^-1 |T| |x| and so on)
static void qsolve(const QM &T, bool up, const std::vector<Q> &b, std::vector<Q> &x, bool comparison)
{
    int n = T.r;
    x = b;
    for (int q = 0; q < n; q++) {
        int i = up ? n - 1 - q : q;
        Q s = b[i];
        for (int j = up ? i + 1 : 0; j < (up ? n : i); j++) s += comparison ? qabs(T(i, j)) * x[j] : -T(i, j) * x[j];
        x[i] = s / (comparison ? qabs(T(i, i)) : T(i, i));
    }
}
static void soldata(Src &s, Case &c, const Mat &A, const Mat &B, bool vec)
{
    int n = A.r(), kind = s.pickl({0, 1, 2, 3});
    static const char *nm[] = {"dominant", "mild", "growing", "unit-like"};
    c.d(" [%s]", nm[kind]); c.label(nm[kind]);
    Rng g(s.seed());
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        double x = g.sym();
        if (kind == 0) x = i == j ? 2 + g.unit() : x / n;
        if (kind == 1) x = i == j ? (g.below(2) ? 1 : -1) * (0.7 + g.unit()) : x * 1.5 / sqrt((double)n);
        if (kind == 2) x = i == j ? 1 + 0.5 * g.unit() : x * 1.2;
        if (kind == 3) x = i == j ? 1 : g.below(3) - 1;
        A.e(i, j) = x;
    }
    if (vec) for (int i = 0; i < B.n(); i++) B.v(i) = g.sym();
    else for (int j = 0; j < B.c(); j++) for (int i = 0; i < B.r(); i++) B.e(i, j) = g.sym();
}
// x: result for right hand side b of T x = b. u: extra terms of order u^2
static void judge_solve(Case &c, const char *what, const QM &T, bool up, const std::vector<Q> &b, const std::function<double(int)> &x, const std::function<void(int, const char *)> &at)
{
    int n = T.r;
    std::vector<Q> r, t(n), e1, e2;
    qsolve(T, up, b, r, false);
    auto grow = [&](const std::vector<Q> &v, std::vector<Q> &e) {
        for (int i = 0; i < n; i++) { t[i] = qabs(b[i]); for (int j = 0; j < n; j++) t[i] += qabs(T(i, j)) * qabs(v[j]); }
        qsolve(T, up, t, e, true);
    };
    grow(r, e1); grow(e1, e2);
    Q u = UEPS;
    for (int i = 0; i < n; i++) {
        double g = x(i);
        if (!std::isfinite(g)) c.fail("%s: element %d is %g", what, i, g);
        Q err = qabs(g - r[i]), lim = 4 * u * qabs(r[i]) + 8 * (Q)(n + 8) * u * u * (e1[i] + e2[i]);
        if (err > lim) c.fail("%s: element %d is %.17g, exact %.17g; error %.3g, allowed %.3g", what, i, g, (double)r[i], (double)err, (double)lim);
    }
}
TARGET(ext, mvsolve_trm, 6)
{
    envs(s, c);
    int n = Dims(s, 64).big ? s.range(50, 150) : s.chance(1, 5) ? s.range(20, 50) : s.range(1, 24);
    bool up = s.chance(1, 2), unit = s.chance(1, 3), t = s.chance(1, 2);
    double alpha = scal(s, false);
    c.d(" ext_mvsolve_trm n=%d %s%s%s alpha=%g", n, up ? "UPPER" : "LOWER", t ? " TRANS" : "", unit ? " UNIT" : "", alpha);
    Mat A = mk(s, n, n), x = mkvec(s, n);
    soldata(s, c, A, x, true);
    QM T = qtri(A, up, unit);
    if (t) T = tr(T);
    std::vector<Q> b(n);
    for (int i = 0; i < n; i++) b[i] = (Q)alpha * x.v(i);
    pollute(A, polkind(s), [&](int i, int j) { return (up ? i > j : i < j) || (unit && i == j); });
    Conf cf = conf0();
    A.snapshot(); x.snapshot();
    c.nontrivial = n > 1;
    int fl = (up ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0);
    if (!wcall(s, c, cf, "ext_mvsolve_trm", {A, x}, [&] { return armas_ext_mvsolve_trm(&x, alpha, &A, fl, &cf); },
               [&](armas_wbuf_t *wb) { return armas_ext_mvsolve_trm_w(&x, alpha, &A, fl, wb, &cf); })) return;
    frame_const(c, A, "A"); frame_result(c, x, "x");
    if (mode.value) judge_solve(c, "ext_mvsolve_trm", T, up != t, b, [&](int i) { return x.v(i); }, {});
}
TARGET(ext, solve_trm, 8)
{
    Conf cf = econf(s, c);
    Dims dm(s, 64);
    int m = s.chance(1, 5) ? s.range(10, 40) : dm(s, 1, 16, 100), n = s.chance(1, 5) ? s.range(10, 40) : dm(s, 1, 16, 100);
    bool right = s.chance(1, 2), up = s.chance(1, 2), unit = s.chance(1, 3), t = s.chance(1, 2);
    int na = right ? n : m;
    double alpha = scal(s, false);
    c.d(" ext_solve_trm B=%dx%d %s %s%s%s alpha=%g", m, n, right ? "RIGHT" : "LEFT", up ? "UPPER" : "LOWER", t ? " TRANS" : "", unit ? " UNIT" : "", alpha);
    Mat A = mk(s, na, na), B = mk(s, m, n);
    soldata(s, c, A, B, false);
    QM T = qtri(A, up, unit), B0 = qm(B);
    if (t) T = tr(T);
    pollute(A, polkind(s), [&](int i, int j) { return (up ? i > j : i < j) || (unit && i == j); });
    A.snapshot(); B.snapshot();
    c.nontrivial = na > 1;
    int fl = (right ? ARMAS_RIGHT : ARMAS_LEFT) | (up ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0);
    if (!wcall(s, c, cf, "ext_solve_trm", {A, B}, [&] { return armas_ext_solve_trm(&B, alpha, &A, fl, &cf); },
               [&](armas_wbuf_t *wb) { return armas_ext_solve_trm_w(&B, alpha, &A, fl, wb, &cf); })) return;
    frame_const(c, A, "A"); frame_result(c, B, "B");
    if (!mode.value) return;
    QM U = right ? tr(T) : T;
    bool u2 = (up != t) != right;
    for (int q = 0; q < (right ? m : n); q++) {
        std::vector<Q> b(na);
        for (int i = 0; i < na; i++) b[i] = (Q)alpha * (right ? B0(q, i) : B0(i, q));
        judge_solve(c, "ext_solve_trm", U, u2, b, [&](int i) { return right ? B.e(q, i) : B.e(i, q); }, {});
    }
}
