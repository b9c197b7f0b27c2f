// Vector operations (C01; frame: C05)
#include "la.h"

static int vlen(Src &s)
{
    int w = s.weighted({10, 6, 4, 3, 1});
    if (mode.maxdim) return s.range(0, 40);
    switch (w) {
    case 0: return s.range(0, 12);
    case 1: return s.range(0, 70);
    case 2: return s.range(0, 300);
    case 3: return s.range(1000, 1050) + 1024 * s.range(0, 4);   // around the recursion limit
    default: return s.range(0, 9000);
    }
}
static void venv(Src &s, Case &c) { if (s.chance(1, 3)) env_vary(s, c); }
static int sumopt(Src &s)
{
    return s.pickl({0, ARMAS_ONAIVE, ARMAS_OKAHAN, ARMAS_OPAIRWISE, ARMAS_ORECURSIVE});
}
static void classify(Case &c, const Mat &X)
{
    if (X.n() > 1) c.nontrivial = true;
    if (X.r() == 1 && X.m.step > 1) c.label("strided");
    if (X.n() % 4) c.label("remainder");
    if (X.n() >= 1024) c.label("long");
    if (X.n() == 0) c.label("empty");
}
static const double MUL1 = 4;

TARGET(blas1, dot, 10)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, X), d2 = fill(s, Y);
    share(s, c, X, Y);
    X.snapshot(); Y.snapshot();
    Conf cf = conf0();
    cf.optflags = sumopt(s);
    bool adot = s.chance(1, 2);
    double alpha = adot ? rnd_scalar(s) : 1, r0 = adot ? rnd_scalar(s) : 0;
    c.d("%s n=%d X=%s(%s) Y=%s(%s) opt=%x alpha=%g r0=%g", adot ? "adot" : "dot", n, sh(X).c_str(), dm_name(d1), sh(Y).c_str(), dm_name(d2), cf.optflags, alpha, r0);
    classify(c, X);
    LD sum = 0, ab = 0;
    for (int i = 0; i < n; i++) { LD t = (LD)X.v(i) * Y.v(i); sum += t; ab += fabsl(t); }
    if (adot) {
        double res = r0;
        OKRC(c, armas_adot(&res, alpha, &X, &Y, &cf), cf);
        cmp(c, "adot", res, r0 + alpha * sum, fabs(r0) + fabsl(alpha) * ab, MUL1 + n);
    } else {
        double res = armas_dot(&X, &Y, &cf);
        cmp(c, "dot", res, sum, ab, MUL1 + n);
    }
    frame_const(c, X, "X");
    frame_const(c, Y, "Y");
}
TARGET(blas1, asum, 8)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n);
    int d1 = fill(s, X);
    X.snapshot();
    Conf cf = conf0();
    cf.optflags = sumopt(s);
    c.d("asum n=%d X=%s(%s) opt=%x", n, sh(X).c_str(), dm_name(d1), cf.optflags);
    classify(c, X);
    LD ab = 0;
    for (int i = 0; i < n; i++) ab += fabsl(X.v(i));
    cmp(c, "asum", armas_asum(&X, &cf), ab, ab, MUL1 + n);
    frame_const(c, X, "X");
}
TARGET(blas1, nrm2, 8)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n);
    int d1 = fill(s, X);
    // magnitudes over the whole range where the result is representable
    int sc = s.pickl({0, 0, 200, 490, -300, -480});
    if (sc) for (int i = 0; i < n; i++) X.v(i) = ldexp(X.v(i), sc);
    else if (s.chance(1, 3)) {      // every element with a magnitude of its own
        Rng g(s.seed());
        int e = s.pickl({20, 100, 480});
        for (int i = 0; i < n; i++) X.v(i) = ldexp(X.v(i), g.below(2 * e) - e);
        c.label("mixed-scale");
    }
    X.snapshot();
    Conf cf = conf0();
    c.d("nrm2 n=%d X=%s(%s) scale=2^%d", n, sh(X).c_str(), dm_name(d1), sc);
    classify(c, X);
    LD r = normF(X.lmv());
    cmp(c, "nrm2", armas_nrm2(&X, &cf), r, r, 2 * MUL1 + 2 * n);
    frame_const(c, X, "X");
}
TARGET(blas1, iamax, 8)
{
    venv(s, c);
    int n = vlen(s);
    if (n == 0) n = 1;
    Mat X = mkvec(s, n);
    int d1 = fill(s, X);
    if (s.chance(1, 3)) { int k = s.range(0, n - 1); X.v(k) = (s.chance(1, 2) ? -1 : 1) * 1e6; }
    else if (s.chance(1, 4)) { int e = s.pickl({-900, 900, -1000, -1021}); for (int i = 0; i < n; i++) X.v(i) = ldexp(X.v(i), e); c.label("extreme-scale"); }
    X.snapshot();
    Conf cf = conf0();
    c.d("iamax n=%d X=%s(%s)", n, sh(X).c_str(), dm_name(d1));
    classify(c, X);
    double mx = 0;
    for (int i = 0; i < n; i++) mx = std::max(mx, fabs(X.v(i)));
    int k = armas_iamax(&X, &cf);
    if (mode.value) {
        if (k < 0 || k >= n) c.fail("iamax returned %d for a vector of %d elements", k, n);
        if (fabs(X.v(k)) != mx) c.fail("iamax: |x[%d]| = %.17g but the largest magnitude is %.17g", k, fabs(X.v(k)), mx);
        double a = armas_amax(&X, &cf);
        if (a != mx) c.fail("amax: %.17g instead of %.17g", a, mx);
    }
    frame_const(c, X, "X");
}
extern "C" int armas_iamin(const armas_dense_t *, armas_conf_t *);
TARGET(blas1, iamin, 3)
{
    venv(s, c);
    int n = vlen(s);
    if (n == 0) n = 1;
    Mat X = mkvec(s, n);
    int d1 = fill(s, X);
    if (s.chance(1, 3)) { int k = s.range(0, n - 1); X.v(k) = (s.chance(1, 2) ? -1 : 1) * 1e-6; }
    else if (s.chance(1, 4)) { int e = s.pickl({-900, 900, -1000, -1021}); for (int i = 0; i < n; i++) X.v(i) = ldexp(X.v(i), e); c.label("extreme-scale"); }
    X.snapshot();
    Conf cf = conf0();
    c.d("iamin n=%d X=%s(%s)", n, sh(X).c_str(), dm_name(d1));
    classify(c, X);
    double mn = fabs(X.v(0));
    for (int i = 0; i < n; i++) mn = std::min(mn, fabs(X.v(i)));
    int k = armas_iamin(&X, &cf);
    if (mode.value) {
        if (k < 0 || k >= n) c.fail("iamin returned %d for a vector of %d elements", k, n);
        if (fabs(X.v(k)) != mn) c.fail("iamin: |x[%d]| = %.17g but the smallest magnitude is %.17g", k, fabs(X.v(k)), mn);
    }
    frame_const(c, X, "X");
}
TARGET(blas1, axpby, 12)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, X), d2 = fill(s, Y);
    X.snapshot(); Y.snapshot();
    Conf cf = conf0();
    bool plain = s.chance(1, 2);
    double alpha = rnd_scalar(s), beta = plain ? 1 : rnd_scalar(s);
    c.d("%s n=%d X=%s(%s) Y=%s(%s) alpha=%g beta=%g", plain ? "axpy" : "axpby", n, sh(X).c_str(), dm_name(d1), sh(Y).c_str(), dm_name(d2), alpha, beta);
    classify(c, X);
    LM ref(n, 1), ab(n, 1);
    for (int i = 0; i < n; i++) { ref(i, 0) = (LD)beta * Y.v(i) + (LD)alpha * X.v(i); ab(i, 0) = fabsl((LD)beta * Y.v(i)) + fabsl((LD)alpha * X.v(i)); }
    if (plain) OKRC(c, armas_axpy(&Y, alpha, &X, &cf), cf);
    else OKRC(c, armas_axpby(beta, &Y, alpha, &X, &cf), cf);
    cmpv(c, "axpby", Y, ref, ab, MUL1);
    frame_const(c, X, "X");
    frame_result(c, Y, "Y");
}
TARGET(blas1, scale, 6)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n);
    int d1 = fill(s, X);
    X.snapshot();
    double alpha = rnd_scalar(s);
    Conf cf = conf0();
    c.d("scale n=%d X=%s(%s) alpha=%g", n, sh(X).c_str(), dm_name(d1), alpha);
    classify(c, X);
    LM ref = X.lmv();
    for (auto &x : ref.a) x *= alpha;
    OKRC(c, armas_scale(&X, alpha, &cf), cf);
    cmpv(c, "scale", X, ref, absm(ref), 2);
    frame_result(c, X, "X");
}
TARGET(blas1, copy, 6)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, X); fill(s, Y);
    X.snapshot(); Y.snapshot();
    Conf cf = conf0();
    c.d("copy n=%d X=%s(%s) Y=%s", n, sh(X).c_str(), dm_name(d1), sh(Y).c_str());
    classify(c, X);
    OKRC(c, armas_copy(&Y, &X, &cf), cf);
    if (mode.value) for (int i = 0; i < n; i++) if (Y.v(i) != X.v(i)) c.fail("copy: element %d is %.17g instead of %.17g", i, Y.v(i), X.v(i));
    frame_const(c, X, "X");
    frame_result(c, Y, "Y");
}
TARGET(blas1, swap, 6)
{
    venv(s, c);
    int n = vlen(s);
    Mat X = mkvec(s, n), Y = mkvec(s, n);
    int d1 = fill(s, X); fill(s, Y);
    X.snapshot(); Y.snapshot();
    Conf cf = conf0();
    c.d("swap n=%d X=%s(%s) Y=%s", n, sh(X).c_str(), dm_name(d1), sh(Y).c_str());
    classify(c, X);
    LM x = X.lmv(), y = Y.lmv();
    OKRC(c, armas_swap(&Y, &X, &cf), cf);
    if (mode.value) for (int i = 0; i < n; i++) if (Y.v(i) != (double)x(i, 0) || X.v(i) != (double)y(i, 0)) c.fail("swap: element %d not exchanged", i);
    frame_result(c, X, "X");
    frame_result(c, Y, "Y");
}
