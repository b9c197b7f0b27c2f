// Fortran and CBLAS compatible entry points against the reference BLAS definitions (C26)
#include "la.h"
extern "C" {
void daxpy_(int *, double *, double *, int *, double *, int *);
void dcopy_(int *, double *, int *, double *, int *);
double ddot_(int *, double *, int *, double *, int *);
double dnrm2_(int *, double *, int *);
double dasum_(int *, double *, int *);
int idamax_(int *, double *, int *);
void dswap_(int *, double *, int *, double *, int *);
void dscal_(int *, double *, int *, double *);
void drot_(int *, double *, int *, double *, int *, double *, double *);
void drotg_(double *, double *, double *, double *);
void dgemv_(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dger_(int *, int *, double *, double *, int *, double *, int *, double *, int *);
void dsymv_(char *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyr_(char *, int *, double *, double *, int *, double *, int *);
void dsyr2_(char *, int *, double *, double *, int *, double *, int *, double *, int *);
void dtrmv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dtrsv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsymm_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyrk_(char *, char *, int *, int *, double *, double *, int *, double *, double *, int *);
void dsyr2k_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dtrmm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void cblas_dgemm(int, int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dsymm(int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dtrmm(int, int, int, int, int, int, int, double, double *, int, double *, int);
void cblas_dtrsm(int, int, int, int, int, int, int, double, double *, int, double *, int);
}
enum { RowMajor = 101, ColMajor = 102, NoTrans = 111, Trans = 112, ConjTrans = 113, Upper = 121, Lower = 122, NonUnit = 131, Unit = 132, Left = 141, Right = 142 };

static const int BIGV = 70;
static int cdim(Src &s) { return s.chance(1, 16) ? 0 : dim(s, BIGV); }

// vector argument: element k of the BLAS vector
struct BV {
    Mat M;
    int inc = 1, n = 0;
    double *p() { return M.m.elems; }
    int at(int k) const { return inc < 0 ? n - 1 - k : k; }
    LM lm() const { LM x(n, 1); for (int i = 0; i < n; i++) x(i, 0) = M.v(at(i)); return x; }
};
static void bvec(Src &s, Case &c, BV &b, int n)
{
    b.n = n;
    b.M = mkvec(s, n);
    b.inc = b.M.m.rows == 1 && n != 1 ? b.M.m.step : (b.M.m.rows == 1 ? b.M.m.step : 1);
    if (s.chance(1, 3)) { b.inc = -b.inc; c.label("negative-increment"); }
    if (b.inc > 1 || b.inc < -1) c.label("strided");
    fill(s, b.M);
}
static std::string bs(const BV &b) { char t[64]; snprintf(t, sizeof t, "vec(%d,inc=%d)", b.n, b.inc); return t; }
static void cmpb(Case &c, const char *what, const BV &b, const LM &ref, const LM &av, LD mult)
{
    LM r(b.n, 1), a(b.n, 1);
    for (int i = 0; i < b.n; i++) { r(b.at(i), 0) = ref(i, 0); a(b.at(i), 0) = av(i, 0); }
    cmpv(c, what, b.M, r, a, mult);
}
static LD dmul(int k) { return 2.0L * k + 16; }
static char ch(Src &s, char u) { return s.chance(1, 3) ? (char)(u + 32) : u; }
static char trch(Src &s, bool t) { return t ? ch(s, s.chance(1, 4) ? 'C' : 'T') : ch(s, 'N'); }
static int trcb(Src &s, bool t) { return t ? (s.chance(1, 4) ? ConjTrans : Trans) : NoTrans; }

// --- level 1
TARGET(compat, axpy, 5)
{
    env_vary(s, c);
    int n = cdim(s); BV X, Y; bvec(s, c, X, n); bvec(s, c, Y, n);
    double al = rnd_scalar(s);
    c.d("daxpy x=%s y=%s alpha=%g", bs(X).c_str(), bs(Y).c_str(), al);
    c.nontrivial = n > 1;
    LM ref = add(al, X.lm(), 1, Y.lm()), av = add(fabs(al), absm(X.lm()), 1, absm(Y.lm()));
    X.M.snapshot(); Y.M.snapshot();
    daxpy_(&n, &al, X.p(), &X.inc, Y.p(), &Y.inc);
    cmpb(c, "daxpy", Y, ref, av, 8);
    frame_const(c, X.M, "x"); frame_result(c, Y.M, "y");
}
TARGET(compat, copyswap, 5)
{
    int n = cdim(s); BV X, Y; bvec(s, c, X, n); bvec(s, c, Y, n);
    bool sw = s.chance(1, 2);
    c.d("%s x=%s y=%s", sw ? "dswap" : "dcopy", bs(X).c_str(), bs(Y).c_str());
    c.nontrivial = n > 1;
    LM x = X.lm(), y = Y.lm(), z(n, 1);
    X.M.snapshot(); Y.M.snapshot();
    if (sw) dswap_(&n, X.p(), &X.inc, Y.p(), &Y.inc);
    else dcopy_(&n, X.p(), &X.inc, Y.p(), &Y.inc);
    cmpb(c, "y", Y, x, z, 0);
    cmpb(c, "x", X, sw ? y : x, z, 0);
    frame_result(c, X.M, "x"); frame_result(c, Y.M, "y");
}
TARGET(compat, reduce, 6)
{
    env_vary(s, c);
    int n = cdim(s); BV X, Y; bvec(s, c, X, n); bvec(s, c, Y, n);
    int op = s.below(4);
    static const char *nm[] = {"ddot", "dnrm2", "dasum", "idamax"};
    c.d("%s x=%s y=%s", nm[op], bs(X).c_str(), bs(Y).c_str());
    c.nontrivial = n > 1;
    LM x = X.lm(), y = Y.lm();
    X.M.snapshot(); Y.M.snapshot();
    LD ref = 0, av = 0;
    double got = 0;
    if (op == 0) {
        for (int i = 0; i < n; i++) { ref += x(i, 0) * y(i, 0); av += fabsl(x(i, 0) * y(i, 0)); }
        got = ddot_(&n, X.p(), &X.inc, Y.p(), &Y.inc);
        cmp(c, "ddot", got, ref, av, dmul(n));
    } else if (op == 3) {
        int got = idamax_(&n, X.p(), &X.inc);
        if (n == 0 || X.inc < 0) { if (got != 0) c.fail("idamax_: index %d for n=%d incx=%d, expected 0", got, n, X.inc); }
        else {
            int k = 0;
            for (int i = 1; i < n; i++) if (fabsl(x(i, 0)) > fabsl(x(k, 0))) k = i;
            if (got < 1 || got > n) c.fail("idamax_: index %d outside 1..%d", got, n);
            if (fabsl(x(got - 1, 0)) != fabsl(x(k, 0))) c.fail("idamax_: element %d has magnitude %.17Lg, maximum is %.17Lg at %d", got, fabsl(x(got - 1, 0)), fabsl(x(k, 0)), k + 1);
        }
    } else {
        if (X.inc < 0) { if (op == 1) X.inc = -X.inc; else n = 0; }    // reference dasum: zero for negative increment
        for (int i = 0; i < n; i++) { ref += op == 1 ? x(i, 0) * x(i, 0) : fabsl(x(i, 0)); }
        if (op == 1) ref = sqrtl(ref);
        n = X.n;
        got = op == 1 ? dnrm2_(&n, X.p(), &X.inc) : dasum_(&n, X.p(), &X.inc);
        cmp(c, nm[op], got, ref, ref, dmul(n));
    }
    frame_const(c, X.M, "x"); frame_const(c, Y.M, "y");
}
TARGET(compat, scal, 3)
{
    int n = cdim(s); BV X; bvec(s, c, X, n);
    double al = rnd_scalar(s);
    c.d("dscal x=%s alpha=%g", bs(X).c_str(), al);
    c.nontrivial = n > 1;
    LM ref = X.lm(), av(n, 1);
    X.M.snapshot();
    if (X.inc > 0) for (int i = 0; i < n; i++) { ref(i, 0) *= al; av(i, 0) = fabsl(ref(i, 0)); }
    dscal_(&n, X.p(), &X.inc, &al);
    cmpb(c, "dscal", X, ref, av, 2);
    frame_result(c, X.M, "x");
}
TARGET(compat, rot, 4)
{
    int n = cdim(s); BV X, Y; bvec(s, c, X, n); bvec(s, c, Y, n);
    double th = 7 * Rng(s.seed()).sym(), co = cos(th), si = sin(th);
    if (s.chance(1, 4)) { co = rnd_scalar(s); si = rnd_scalar(s); }
    c.d("drot x=%s y=%s c=%g s=%g", bs(X).c_str(), bs(Y).c_str(), co, si);
    c.nontrivial = n > 1;
    LM x = X.lm(), y = Y.lm();
    X.M.snapshot(); Y.M.snapshot();
    drot_(&n, X.p(), &X.inc, Y.p(), &Y.inc, &co, &si);
    cmpb(c, "drot x", X, add(co, x, si, y), add(fabs(co), absm(x), fabs(si), absm(y)), 4);
    cmpb(c, "drot y", Y, add(co, y, -si, x), add(fabs(co), absm(y), fabs(si), absm(x)), 4);
    frame_result(c, X.M, "x"); frame_result(c, Y.M, "y");
}
TARGET(compat, rotg, 4)
{
    Rng g(s.seed());
    double a = g.sym(), b = g.sym();
    switch (s.below(6)) { case 1: a = 0; break; case 2: b = 0; break; case 3: a = b = 0; break; case 4: a *= ldexp(1.0, s.range(-400, 400)); break; case 5: b = s.chance(1, 2) ? a : -a; break; }
    if (s.chance(1, 5)) { double f = ldexp(1.0, s.range(-500, 500)); a *= f; b *= f; }
    c.d("drotg a=%.17g b=%.17g", a, b);
    c.nontrivial = a != 0 && b != 0;
    double r = a, z = b, co = 77, si = 77;
    drotg_(&r, &z, &co, &si);
    LD h = hypotl(a, b), sg = fabs(a) > fabs(b) ? (a < 0 ? -1 : 1) : (b < 0 ? -1 : 1);
    LD er = sg * h, ec = h == 0 ? 1 : a / er, es = h == 0 ? 0 : b / er;
    cmp(c, "drotg c", co, ec, fabsl(ec), 16);
    cmp(c, "drotg s", si, es, fabsl(es), 16);
    cmp(c, "drotg r", r, er, h, 16);
    LD ez = h == 0 ? 0 : fabs(a) > fabs(b) ? es : ec != 0 ? 1 / ec : 1;
    if (fabsl(ez) < 1e300L) cmp(c, "drotg z", z, ez, fabsl(ez), 32);
}
// --- level 2
TARGET(compat, gemv, 8)
{
    env_vary(s, c);
    int m = cdim(s), n = cdim(s);
    bool t = s.chance(1, 2);
    Mat A = mk(s, m, n); BV X, Y; bvec(s, c, X, t ? m : n); bvec(s, c, Y, t ? n : m);
    int d1 = fill(s, A);
    double al = rnd_scalar(s), be = rnd_scalar(s);
    char tc = trch(s, t);
    c.d("dgemv %c A=%s(%s) x=%s y=%s alpha=%g beta=%g", tc, sh(A).c_str(), dm_name(d1), bs(X).c_str(), bs(Y).c_str(), al, be);
    c.nontrivial = m > 1 && n > 1;
    LM a = A.lm(), x = X.lm(), y = Y.lm(); if (t) a = tr(a);
    LM ref = y, av = absm(y);
    if (m && n) { ref = add(al, mul(a, x), be, y); av = add(fabs(al), mul(absm(a), absm(x)), fabs(be), absm(y)); }
    A.snapshot(); X.M.snapshot(); Y.M.snapshot();
    dgemv_(&tc, &m, &n, &al, A.m.elems, &A.m.step, X.p(), &X.inc, &be, Y.p(), &Y.inc);
    cmpb(c, "dgemv", Y, ref, av, dmul(x.r));
    frame_const(c, A, "A"); frame_const(c, X.M, "x"); frame_result(c, Y.M, "y");
}
TARGET(compat, symv, 5)
{
    env_vary(s, c);
    int n = cdim(s);
    bool up = s.chance(1, 2);
    Mat A = mk(s, n, n); BV X, Y; bvec(s, c, X, n); bvec(s, c, Y, n);
    fill(s, A);
    LM a = symoperand(s, A, up), x = X.lm(), y = Y.lm();
    double al = rnd_scalar(s), be = rnd_scalar(s);
    char u = ch(s, up ? 'U' : 'L');
    c.d("dsymv %c A=%s x=%s y=%s alpha=%g beta=%g", u, sh(A).c_str(), bs(X).c_str(), bs(Y).c_str(), al, be);
    c.nontrivial = n > 1;
    LM ref = add(al, mul(a, x), be, y), av = add(fabs(al), mul(absm(a), absm(x)), fabs(be), absm(y));
    A.snapshot(); X.M.snapshot(); Y.M.snapshot();
    dsymv_(&u, &n, &al, A.m.elems, &A.m.step, X.p(), &X.inc, &be, Y.p(), &Y.inc);
    cmpb(c, "dsymv", Y, ref, av, dmul(n));
    frame_const(c, A, "A"); frame_const(c, X.M, "x"); frame_result(c, Y.M, "y");
}
static void tri_cmp(Case &c, const char *what, Mat &A, bool up, const LM &ref, const LM &av, LD mult)
{
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            if (up ? i <= j : i >= j) cmp(c, what, A.e(i, j), ref(i, j), av(i, j), mult);
    frame_except(c, A, "A", [=](int i, int j) { return up ? i <= j : i >= j; });
}
TARGET(compat, rank1, 8)
{
    env_vary(s, c);
    int op = s.below(3);    // ger, syr, syr2
    static const char *nm[] = {"dger", "dsyr", "dsyr2"};
    int m = cdim(s), n = op ? m : cdim(s);
    bool up = s.chance(1, 2);
    Mat A = mk(s, m, n); BV X, Y; bvec(s, c, X, m); bvec(s, c, Y, n);
    fill(s, A);
    double al = rnd_scalar(s);
    char u = ch(s, up ? 'U' : 'L');
    c.d("%s %c A=%s x=%s y=%s alpha=%g", nm[op], u, sh(A).c_str(), bs(X).c_str(), bs(Y).c_str(), al);
    c.nontrivial = m > 1 && n > 1;
    LM x = X.lm(), y = Y.lm(), a = A.lm();
    LM xy = mul(x, tr(op == 1 ? x : y)), axy = absm(xy);
    if (op == 2) { xy = add(1, xy, 1, mul(y, tr(x))); axy = add(1, axy, 1, absm(mul(y, tr(x)))); }
    LM ref = add(al, xy, 1, a), av = add(fabs(al), axy, 1, absm(a));
    if (op) pollute(A, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    A.snapshot(); X.M.snapshot(); Y.M.snapshot();
    if (op == 0) { dger_(&m, &n, &al, X.p(), &X.inc, Y.p(), &Y.inc, A.m.elems, &A.m.step); cmpm(c, "dger", A, ref, av, 8); frame_result(c, A, "A"); }
    else {
        if (op == 1) dsyr_(&u, &n, &al, X.p(), &X.inc, A.m.elems, &A.m.step);
        else dsyr2_(&u, &n, &al, X.p(), &X.inc, Y.p(), &Y.inc, A.m.elems, &A.m.step);
        tri_cmp(c, nm[op], A, up, ref, av, 12);
    }
    frame_const(c, X.M, "x"); frame_const(c, Y.M, "y");
}
void solvable_tri(Src &s, Mat &A);
TARGET(compat, trv, 8)
{
    env_vary(s, c);
    int n = cdim(s);
    bool up = s.chance(1, 2), t = s.chance(1, 2), un = s.chance(1, 3), solve = s.chance(1, 2);
    Mat A = mk(s, n, n); BV X; bvec(s, c, X, n);
    fill(s, A);
    if (solve) solvable_tri(s, A);
    LM a = trioperand(s, A, up, un), x = X.lm(); if (t) a = tr(a);
    char u = ch(s, up ? 'U' : 'L'), tc = trch(s, t), dc = ch(s, un ? 'U' : 'N');
    c.d("%s %c%c%c A=%s x=%s", solve ? "dtrsv" : "dtrmv", u, tc, dc, sh(A).c_str(), bs(X).c_str());
    c.nontrivial = n > 1;
    A.snapshot(); X.M.snapshot();
    if (!solve) {
        dtrmv_(&u, &tc, &dc, &n, A.m.elems, &A.m.step, X.p(), &X.inc);
        cmpb(c, "dtrmv", X, mul(a, x), mul(absm(a), absm(x)), dmul(n));
    } else {
        dtrsv_(&u, &tc, &dc, &n, A.m.elems, &A.m.step, X.p(), &X.inc);
        need_finite(c, "dtrsv result", X.M);
        LM y = X.lm(), ay = mul(a, y), aay = mul(absm(a), absm(y));
        for (int i = 0; i < n; i++) cmp(c, "dtrsv: (A*x)[i] against b[i]", 0, ay(i, 0) - x(i, 0), aay(i, 0) + fabsl(x(i, 0)), dmul(n));
    }
    frame_const(c, A, "A"); frame_result(c, X.M, "x");
}
// --- level 3
// operand r x c stored in given order: column major view of the storage is transposed in row major order
static Mat mko(Src &s, int order, int r, int c) { return order == RowMajor ? mk(s, c, r) : mk(s, r, c); }
static LM lo(const Mat &A, int order) { return order == RowMajor ? tr(A.lm()) : A.lm(); }
static void cmpo(Case &c, const char *what, Mat &A, int order, const LM &ref, const LM &av, LD mult) { cmpm(c, what, A, order == RowMajor ? tr(ref) : ref, order == RowMajor ? tr(av) : av, mult); }
static int order_of(Src &s, Case &c, bool &cb)
{
    int w = s.below(3);
    cb = w > 0;
    c.label(w == 0 ? "fortran" : w == 1 ? "cblas-col" : "cblas-row");
    return w == 2 ? RowMajor : ColMajor;
}
TARGET(compat, gemm, 12)
{
    env_vary(s, c);
    bool cb; int o = order_of(s, c, cb);
    int m = cdim(s), n = cdim(s), k = cdim(s);
    bool ta = s.chance(1, 2), tb = s.chance(1, 2);
    Mat A = ta ? mko(s, o, k, m) : mko(s, o, m, k), B = tb ? mko(s, o, n, k) : mko(s, o, k, n), C = mko(s, o, m, n);
    int d1 = fill(s, A), d2 = fill(s, B); fill(s, C);
    double al = rnd_scalar(s), be = rnd_scalar(s);
    LM a = lo(A, o), b = lo(B, o), c0 = lo(C, o); if (ta) a = tr(a); if (tb) b = tr(b);
    c.d("%s m=%d n=%d k=%d trans=%d,%d A=%s(%s) B=%s(%s) C=%s alpha=%g beta=%g", cb ? o == RowMajor ? "cblas_dgemm row" : "cblas_dgemm col" : "dgemm_", m, n, k, ta, tb, sh(A).c_str(), dm_name(d1), sh(B).c_str(), dm_name(d2), sh(C).c_str(), al, be);
    c.nontrivial = m > 1 && n > 1 && k > 0;
    LM ref = add(al, mul(a, b), be, c0), av = add(fabs(al), mul(absm(a), absm(b)), fabs(be), absm(c0));
    A.snapshot(); B.snapshot(); C.snapshot();
    if (cb) { int x = trcb(s, ta), y = trcb(s, tb); cblas_dgemm(o, x, y, m, n, k, al, A.m.elems, A.m.step, B.m.elems, B.m.step, be, C.m.elems, C.m.step); }
    else { char x = trch(s, ta), y = trch(s, tb); dgemm_(&x, &y, &m, &n, &k, &al, A.m.elems, &A.m.step, B.m.elems, &B.m.step, &be, C.m.elems, &C.m.step); }
    cmpo(c, "gemm", C, o, ref, av, dmul(k));
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
}
// triangle argument in the given order, as seen in the column major view of the storage
static bool vup(bool up, int o) { return o == RowMajor ? !up : up; }
TARGET(compat, symm, 9)
{
    env_vary(s, c);
    bool cb; int o = order_of(s, c, cb);
    int m = cdim(s), n = cdim(s);
    bool up = s.chance(1, 2), right = s.chance(1, 2);
    int k = right ? n : m;
    Mat A = mko(s, o, k, k), B = mko(s, o, m, n), C = mko(s, o, m, n);
    fill(s, A); fill(s, B); fill(s, C);
    double al = rnd_scalar(s), be = rnd_scalar(s);
    LM a = symoperand(s, A, vup(up, o)), b = lo(B, o), c0 = lo(C, o);
    c.d("%s m=%d n=%d %s %s A=%s B=%s C=%s alpha=%g beta=%g", cb ? o == RowMajor ? "cblas_dsymm row" : "cblas_dsymm col" : "dsymm_", m, n, right ? "right" : "left", up ? "upper" : "lower", sh(A).c_str(), sh(B).c_str(), sh(C).c_str(), al, be);
    c.nontrivial = m > 1 && n > 1;
    LM ref = add(al, right ? mul(b, a) : mul(a, b), be, c0), av = add(fabs(al), right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b)), fabs(be), absm(c0));
    A.snapshot(); B.snapshot(); C.snapshot();
    if (cb) cblas_dsymm(o, right ? Right : Left, up ? Upper : Lower, m, n, al, A.m.elems, A.m.step, B.m.elems, B.m.step, be, C.m.elems, C.m.step);
    else { char x = ch(s, right ? 'R' : 'L'), y = ch(s, up ? 'U' : 'L'); dsymm_(&x, &y, &m, &n, &al, A.m.elems, &A.m.step, B.m.elems, &B.m.step, &be, C.m.elems, &C.m.step); }
    cmpo(c, "symm", C, o, ref, av, dmul(k));
    frame_const(c, A, "A"); frame_const(c, B, "B"); frame_result(c, C, "C");
}
TARGET(compat, syrk, 9)
{
    env_vary(s, c);
    int n = cdim(s), k = cdim(s);
    bool up = s.chance(1, 2), t = s.chance(1, 2), two = s.chance(1, 2);
    Mat A = t ? mk(s, k, n) : mk(s, n, k), B = t ? mk(s, k, n) : mk(s, n, k), C = mk(s, n, n);
    fill(s, A); fill(s, B); fill(s, C);
    double al = rnd_scalar(s), be = rnd_scalar(s);
    LM a = A.lm(), b = B.lm(), c0 = C.lm(); if (t) { a = tr(a); b = tr(b); }
    char u = ch(s, up ? 'U' : 'L'), tc = trch(s, t);
    c.d("%s %c%c n=%d k=%d A=%s B=%s C=%s alpha=%g beta=%g", two ? "dsyr2k" : "dsyrk", u, tc, n, k, sh(A).c_str(), sh(B).c_str(), sh(C).c_str(), al, be);
    c.nontrivial = n > 1 && k > 0;
    LM p = mul(a, tr(two ? b : a)), ap = mul(absm(a), absm(tr(two ? b : a)));
    if (two) { p = add(1, p, 1, mul(b, tr(a))); ap = add(1, ap, 1, mul(absm(b), absm(tr(a)))); }
    LM ref = add(al, p, be, c0), av = add(fabs(al), ap, fabs(be), absm(c0));
    pollute(C, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    A.snapshot(); B.snapshot(); C.snapshot();
    if (two) dsyr2k_(&u, &tc, &n, &k, &al, A.m.elems, &A.m.step, B.m.elems, &B.m.step, &be, C.m.elems, &C.m.step);
    else dsyrk_(&u, &tc, &n, &k, &al, A.m.elems, &A.m.step, &be, C.m.elems, &C.m.step);
    tri_cmp(c, two ? "dsyr2k" : "dsyrk", C, up, ref, av, 2 * dmul(k));
    frame_const(c, A, "A"); frame_const(c, B, "B");
}
TARGET(compat, trm, 14)
{
    env_vary(s, c);
    bool cb; int o = order_of(s, c, cb);
    int m = cdim(s), n = cdim(s);
    bool up = s.chance(1, 2), right = s.chance(1, 2), t = s.chance(1, 2), un = s.chance(1, 3), solve = s.chance(1, 2);
    int k = right ? n : m;
    Mat A = mko(s, o, k, k), B = mko(s, o, m, n);
    fill(s, A); fill(s, B);
    if (solve) solvable_tri(s, A);
    double al = rnd_scalar(s);
    LM a = trioperand(s, A, vup(up, o), un), b = lo(B, o);
    if (o == RowMajor) a = tr(a);
    if (t) a = tr(a);
    c.d("%s%s %s %s%s%s m=%d n=%d A=%s B=%s alpha=%g", cb ? o == RowMajor ? "cblas row " : "cblas col " : "", solve ? "trsm" : "trmm", right ? "right" : "left", up ? "upper" : "lower", t ? " T" : "", un ? " unit" : "", m, n, sh(A).c_str(), sh(B).c_str(), al);
    c.nontrivial = m > 1 && n > 1;
    A.snapshot(); B.snapshot();
    int f1 = right ? Right : Left, f2 = up ? Upper : Lower, f4 = un ? Unit : NonUnit;
    char g1 = ch(s, right ? 'R' : 'L'), g2 = ch(s, up ? 'U' : 'L'), g4 = ch(s, un ? 'U' : 'N');
    if (cb) {
        int f3 = trcb(s, t);
        (solve ? cblas_dtrsm : cblas_dtrmm)(o, f1, f2, f3, f4, m, n, al, A.m.elems, A.m.step, B.m.elems, B.m.step);
    } else {
        char g3 = trch(s, t);
        (solve ? dtrsm_ : dtrmm_)(&g1, &g2, &g3, &g4, &m, &n, &al, A.m.elems, &A.m.step, B.m.elems, &B.m.step);
    }
    if (!solve) {
        LM ref = right ? mul(b, a) : mul(a, b), av = right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b));
        for (auto &v : ref.a) v *= al;
        for (auto &v : av.a) v *= fabs(al);
        cmpo(c, "trmm", B, o, ref, av, dmul(k));
    } else {
        need_finite(c, "trsm result", B);
        LM x = lo(B, o), ax = right ? mul(x, a) : mul(a, x), aax = right ? mul(absm(x), absm(a)) : mul(absm(a), absm(x));
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) cmp(c, "trsm: product with solution against alpha*b", 0, ax(i, j) - al * b(i, j), aax(i, j) + fabsl(al * b(i, j)), 2 * dmul(k));
    }
    frame_const(c, A, "A"); frame_result(c, B, "B");
}
