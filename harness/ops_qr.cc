// Orthogonal factorizations (C09; frame C05, configuration C06, workspace C19)
#include "lap.h"

struct QRF {
    int kind, m, n, k, ord;     // k reflectors of order ord
    Mat A, tau;
    LM A0, F, t;
};
static const char *kn[] = {"qr", "lq", "ql", "rq"};
static int f_w(int kind, armas_dense_t *A, armas_dense_t *t, armas_wbuf_t *w, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrfactor_w(A, t, w, cf);
    case K_LQ: return armas_lqfactor_w(A, t, w, cf);
    case K_QL: return armas_qlfactor_w(A, t, w, cf);
    default: return armas_rqfactor_w(A, t, w, cf);
    }
}
static int f_p(int kind, armas_dense_t *A, armas_dense_t *t, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrfactor(A, t, cf);
    case K_LQ: return armas_lqfactor(A, t, cf);
    case K_QL: return armas_qlfactor(A, t, cf);
    default: return armas_rqfactor(A, t, cf);
    }
}
static void shape(Src &s, QRF &q, int kind, int big)
{
    q.kind = kind;
    int a = dlap(s, big), b = dlap(s, big);
    if (s.chance(1, 5)) b = a;
    bool tall = kind == K_QR || kind == K_QL;
    q.m = tall ? std::max(a, b) : std::min(a, b);
    q.n = tall ? std::min(a, b) : std::max(a, b);
    q.k = std::min(q.m, q.n);
    q.ord = std::max(q.m, q.n);
    q.A = mk(s, q.m, q.n);
    q.tau = mkcol(s, q.k);
}
static LM triang(int kind, const LM &F)
{
    LM T(F.r, F.c);
    int m = F.r, n = F.c;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            bool in = kind == K_QR ? i <= j : kind == K_LQ ? i >= j : kind == K_QL ? i - (m - n) >= j : i <= j - (n - m);
            if (in) T(i, j) = F(i, j);
        }
    return T;
}
static void classify(Case &c, const QRF &q)
{
    int lb = armas_getenv()->lb;
    if (q.k > 1) c.nontrivial = true;
    if (lb > 0 && q.k > lb) c.label("blocked");
    if (q.m == q.n) c.label("square");
}
// factorizes and (when judge) checks the factorization
static bool factor(Src &s, Case &c, QRF &q, Conf &cf, bool judge)
{
    q.A0 = q.A.lm();
    fill_mode(q.tau, DM_UNI, 1);
    q.A.snapshot(); q.tau.snapshot();
    LM t0 = q.tau.lmv();
    bool ok = true;
    if (judge) ok = wcall(s, c, cf, "factor", {q.A, q.tau}, [&] { return f_p(q.kind, &q.A, &q.tau, &cf); }, [&](armas_wbuf_t *w) { return f_w(q.kind, &q.A, &q.tau, w, &cf); });
    else OKRC(c, f_p(q.kind, &q.A, &q.tau, &cf), cf);
    if (!ok) return false;
    q.F = q.A.lm(); q.t = q.tau.lmv();
    if (!judge) return true;
    frame_result(c, q.A, "A"); frame_result(c, q.tau, "tau");
    for (int i = q.k; i < q.tau.n(); i++) if (q.t(i, 0) != t0(i, 0)) c.fail("element %d of tau is changed, there are %d reflectors", i, q.k);
    if (!mode.value) return true;
    need_finite(c, "factorization", q.A); need_finite(c, "tau", q.tau);
    LD tol = (20 + 6 * N(q.k) + N(q.ord)) * UEPS;
    LM Q = refl_q(q.kind, q.F, q.t, q.k);
    ortho(c, "Q from reflectors", Q, tol);
    LM T = triang(q.kind, q.F);
    bool left = q.kind == K_QR || q.kind == K_QL;
    LM R = left ? mul(Q, T) : mul(T, Q);
    if (q.kind == K_QR || q.kind == K_QL) {
        // A = Q R: T is m x n with zero rows outside of the triangle
        small_cols(c, "A - QR", sub(R, q.A0), q.A0, tol);
    } else {
        small_rows(c, "A - LQ", sub(R, q.A0), q.A0, tol);
    }
    return true;
}
static void t_factor(Src &s, Case &c, int kind)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {});
    QRF q;
    shape(s, q, kind, 90);
    c.d("%sfactor A=%s", kn[kind], sh(q.A).c_str());
    fill_gen(s, q.A, c);
    classify(c, q);
    if ((kind == K_QR || kind == K_LQ) && s.chance(1, 8)) { q.tau = mkcol(s, q.k + s.range(1, 5)); c.d(" tau=%d", q.tau.n()); }
    bool nn = s.chance(1, 6);
    if (nn) { cf.optflags |= ARMAS_ONONNEG; c.d(" non-negative diagonal"); c.label("nonneg"); }
    if (!factor(s, c, q, cf, true) || !nn || !mode.value) return;
    for (int i = 0; i < q.k; i++) {
        int r = q.kind == K_QL ? q.m - q.k + i : i, l = q.kind == K_RQ ? q.n - q.k + i : i;
        if (!(q.F(r, l) >= 0)) c.fail("diagonal element %d is %Lg although non-negative diagonal was requested", i, q.F(r, l));
    }
}
TARGET(qr, qrfactor, 10) { t_factor(s, c, K_QR); }
TARGET(qr, lqfactor, 10) { t_factor(s, c, K_LQ); }
TARGET(qr, qlfactor, 10) { t_factor(s, c, K_QL); }
TARGET(qr, rqfactor, 10) { t_factor(s, c, K_RQ); }

static int b_w(int kind, armas_dense_t *A, armas_dense_t *t, int K, armas_wbuf_t *w, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrbuild_w(A, t, K, w, cf);
    case K_LQ: return armas_lqbuild_w(A, t, K, w, cf);
    case K_QL: return armas_qlbuild_w(A, t, K, w, cf);
    default: return armas_rqbuild_w(A, t, K, w, cf);
    }
}
static int b_p(int kind, armas_dense_t *A, armas_dense_t *t, int K, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrbuild(A, t, K, cf);
    case K_LQ: return armas_lqbuild(A, t, K, cf);
    case K_QL: return armas_qlbuild(A, t, K, cf);
    default: return armas_rqbuild(A, t, K, cf);
    }
}
static void t_build(Src &s, Case &c, int kind)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    QRF q;
    shape(s, q, kind, 90);
    c.d("%sbuild A=%s", kn[kind], sh(q.A).c_str());
    fill_gen(s, q.A, c);
    classify(c, q);
    factor(s, c, q, cf, false);
    int K = s.chance(1, 3) ? s.range(0, q.k) : q.k;
    c.d(" K=%d", K);
    if (K < q.k) c.label("partial");
    // reflectors stored outside of the first K and the triangular factor are not part of the input
    LM Q;
    if (kind == K_QR || kind == K_LQ) Q = refl_q(kind, q.F, q.t, K);
    else {      // the last K reflectors
        LM t = q.t;
        for (int i = 0; i < q.k - K; i++) t.a[i] = 0;
        Q = refl_q(kind, q.F, t, q.k);
    }
    LM ref(q.m, q.n);
    for (int j = 0; j < q.n; j++)
        for (int i = 0; i < q.m; i++)
            ref(i, j) = kind == K_QR ? Q(i, j) : kind == K_LQ ? Q(i, j) : kind == K_QL ? Q(i, q.m - q.n + j) : Q(q.n - q.m + i, j);
    q.A.snapshot(); q.tau.snapshot();
    if (!wcall(s, c, cf, "build", {q.A, q.tau}, [&] { return b_p(kind, &q.A, &q.tau, K, &cf); }, [&](armas_wbuf_t *w) { return b_w(kind, &q.A, &q.tau, K, w, &cf); })) return;
    LM one(q.m, q.n, 1);
    cmpm(c, "Q", q.A, ref, one, 20 + 6 * N(q.k) + N(q.ord));
    frame_result(c, q.A, "A"); frame_const(c, q.tau, "tau");
}
TARGET(qr, qrbuild, 8) { t_build(s, c, K_QR); }
TARGET(qr, lqbuild, 8) { t_build(s, c, K_LQ); }
TARGET(qr, qlbuild, 8) { t_build(s, c, K_QL); }
TARGET(qr, rqbuild, 8) { t_build(s, c, K_RQ); }

static int m_w(int kind, armas_dense_t *C, armas_dense_t *A, armas_dense_t *t, int fl, armas_wbuf_t *w, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrmult_w(C, A, t, fl, w, cf);
    case K_LQ: return armas_lqmult_w(C, A, t, fl, w, cf);
    case K_QL: return armas_qlmult_w(C, A, t, fl, w, cf);
    default: return armas_rqmult_w(C, A, t, fl, w, cf);
    }
}
static int m_p(int kind, armas_dense_t *C, armas_dense_t *A, armas_dense_t *t, int fl, armas_conf_t *cf)
{
    switch (kind) {
    case K_QR: return armas_qrmult(C, A, t, fl, cf);
    case K_LQ: return armas_lqmult(C, A, t, fl, cf);
    case K_QL: return armas_qlmult(C, A, t, fl, cf);
    default: return armas_rqmult(C, A, t, fl, cf);
    }
}
static void t_mult(Src &s, Case &c, int kind)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    QRF q;
    shape(s, q, kind, 70);
    c.d("%smult A=%s", kn[kind], sh(q.A).c_str());
    fill_gen(s, q.A, c);
    classify(c, q);
    factor(s, c, q, cf, false);
    bool right = s.chance(1, 2), trans = s.chance(1, 2);
    int p = dlap(s, 90);
    Mat C = right ? mk(s, p, q.ord) : mk(s, q.ord, p);
    fill(s, C);
    c.d(" C=%s%s%s", sh(C).c_str(), right ? " RIGHT" : " LEFT", trans ? " T" : "");
    if (armas_getenv()->lb > 0 && p > armas_getenv()->lb) c.label("blocked");
    int fl = (right ? ARMAS_RIGHT : s.pickl({ARMAS_LEFT, 0})) | (trans ? ARMAS_TRANS : 0);
    // the triangular factor is not part of the input
    LM T = triang(kind, q.F);
    int pk = s.pickl({POL_KEEP, POL_BIG, POL_NAN});
    if (pk != POL_KEEP && s.chance(1, 2)) {
        int m = q.m, n = q.n;
        pollute(q.A, pk == POL_NAN ? POL_BIG : pk, [=](int i, int j) { return kind == K_QR ? i <= j : kind == K_LQ ? i >= j : kind == K_QL ? i - (m - n) >= j : i <= j - (n - m); });
        c.label("polluted");
    }
    LM Q = refl_q(kind, q.F, q.t, q.k);
    if (trans) Q = tr(Q);
    LM C0 = C.lm(), ref = right ? mul(C0, Q) : mul(Q, C0);
    q.A.snapshot(); q.tau.snapshot(); C.snapshot();
    if (!wcall(s, c, cf, "mult", {C, q.A, q.tau}, [&] { return m_p(kind, &C, &q.A, &q.tau, fl, &cf); }, [&](armas_wbuf_t *w) { return m_w(kind, &C, &q.A, &q.tau, fl, w, &cf); })) return;
    if (mode.value) {
        need_finite(c, "C", C);
        LD tol = (20 + 6 * N(q.k) + N(q.ord)) * UEPS;
        if (right) small_rows(c, "C*op(Q)", sub(C.lm(), ref), C0, tol);
        else small_cols(c, "op(Q)*C", sub(C.lm(), ref), C0, tol);
    }
    frame_const(c, q.A, "A"); frame_const(c, q.tau, "tau"); frame_result(c, C, "C");
}
TARGET(qr, qrmult, 8) { t_mult(s, c, K_QR); }
TARGET(qr, lqmult, 8) { t_mult(s, c, K_LQ); }
TARGET(qr, qlmult, 8) { t_mult(s, c, K_QL); }
TARGET(qr, rqmult, 8) { t_mult(s, c, K_RQ); }

TARGET(qr, reflector, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    QRF q;
    int kind = s.range(0, 3);
    shape(s, q, kind, 40);
    c.d("%sreflector A=%s", kn[kind], sh(q.A).c_str());
    fill_gen(s, q.A, c);
    classify(c, q);
    factor(s, c, q, cf, false);
    Mat T = mk(s, q.k, q.k);
    fill_mode(T, DM_ZEROS, s.seed());
    bool up = kind == K_QR || kind == K_LQ;
    for (int j = 0; j < q.k; j++) for (int i = 0; i < q.k; i++) if (up ? i > j : i < j) T.e(i, j) = 0;
    q.A.snapshot(); q.tau.snapshot(); T.snapshot();
    int rc = kind == K_QR ? armas_qrreflector(&T, &q.A, &q.tau, &cf) : kind == K_LQ ? armas_lqreflector(&T, &q.A, &q.tau, &cf)
           : kind == K_QL ? armas_qlreflector(&T, &q.A, &q.tau, &cf) : armas_rqreflector(&T, &q.A, &q.tau, &cf);
    if (rc) c.fail("reflector returned %d", rc);
    LM V = refl_v(kind, q.F, q.k), Tl = tri(T.lm(), up, false);
    // H(0)H(1).. = I - V T V'  (T upper) or H(k)..H(0) = I - V T V' (T lower)
    LM Q = refl_q(kind, q.F, q.t, q.k);
    if (kind == K_LQ || kind == K_RQ) Q = tr(Q);
    LM B = sub(eye(q.ord), mul(mul(V, Tl), tr(V)));
    if (mode.value) {
        need_finite(c, "T", T);
        LD e = normMax(sub(B, Q)), tol = (30 + 10 * N(q.k)) * UEPS * 4;
        if (!(e <= tol)) c.fail("block reflector I - V T V' differs from the product of reflectors by %.3Lg (allowed %.3Lg)", e, tol);
    }
    frame_const(c, q.A, "A"); frame_const(c, q.tau, "tau");
    frame_except(c, T, "T", [=](int i, int j) { return up ? i <= j : i >= j; });
}
// least squares and minimum norm solutions
static void t_solve(Src &s, Case &c, int kind)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    QRF q;
    shape(s, q, kind, 60);
    c.d("%ssolve A=%s", kn[kind], sh(q.A).c_str());
    fill_gen(s, q.A, c, true);
    classify(c, q);
    factor(s, c, q, cf, false);
    for (int i = 0; i < q.k; i++) if (q.A.e(i, i) == 0) c.discard();
    int p = dlap(s, 40);
    bool trans = s.chance(1, 2);
    Mat B = mk(s, q.ord, p);
    fill_mode(B, s.pickl({DM_UNI, DM_INT, DM_NORMAL}), s.seed());
    c.d(" B=%s%s", sh(B).c_str(), trans ? " T" : "");
    bool minnorm = (kind == K_QR) == trans;
    c.label(minnorm ? "min-norm" : "least-squares");
    LM B0 = B.lm();
    q.A.snapshot(); q.tau.snapshot(); B.snapshot();
    int fl = trans ? ARMAS_TRANS : 0;
    if (!wcall(s, c, cf, "solve", {B, q.A, q.tau}, [&] { return kind == K_QR ? armas_qrsolve(&B, &q.A, &q.tau, fl, &cf) : armas_lqsolve(&B, &q.A, &q.tau, fl, &cf); },
               [&](armas_wbuf_t *w) { return kind == K_QR ? armas_qrsolve_w(&B, &q.A, &q.tau, fl, w, &cf) : armas_lqsolve_w(&B, &q.A, &q.tau, fl, w, &cf); })) return;
    if (mode.value) {
        need_finite(c, "X", B);
        LM M = kind == K_QR ? q.A0 : tr(q.A0);     // tall matrix; least squares with M, minimum norm with M'
        LD tol = (60 + 20 * N(q.k) + 4 * sqrtl(N(q.ord))) * UEPS, nA = normF(M);
        for (int j = 0; j < p; j++) {
            LM x = rows(colof(B.lm(), j), 0, minnorm ? q.ord : q.k), b = rows(colof(B0, j), 0, minnorm ? q.k : q.ord);
            if (!minnorm) {
                LM r = sub(b, mul(M, x));
                small(c, "A'(b - Ax)", normF(mul(tr(M), r)), tol * nA * (normF(b) + nA * normF(x)));
            } else {
                LM r = sub(b, mul(tr(M), x));
                small(c, "b - op(A)x", normF(r), tol * nA * normF(x));
                if (q.ord > q.k) {
                    LM Q = refl_q(kind, q.F, q.t, q.k);
                    if (kind == K_LQ) Q = tr(Q);
                    LM z = mul(tr(cols(Q, q.k, q.ord - q.k)), x);
                    small(c, "component of x outside of the range", normF(z), tol * normF(x));
                }
            }
        }
    }
    frame_const(c, q.A, "A"); frame_const(c, q.tau, "tau"); frame_result(c, B, "B");
}
TARGET(qr, qrsolve, 8) { t_solve(s, c, K_QR); }
TARGET(qr, lqsolve, 8) { t_solve(s, c, K_LQ); }

TARGET(qr, qrtfactor, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    QRF q;
    shape(s, q, K_QR, 60);
    c.d("qrtfactor A=%s", sh(q.A).c_str());
    fill_gen(s, q.A, c);
    classify(c, q);
    int lb = s.chance(1, 4) ? q.n : s.range(1, std::min(q.n, 12));
    Mat T = mk(s, lb, q.n);
    c.d(" T=%s", sh(T).c_str());
    if (q.n > lb) c.label("blocked");
    fill_mode(T, DM_UNI, 3);
    if (s.chance(1, 4)) for (int j = 0; j < q.n; j++) for (int i = 0; i < lb; i++) T.e(i, j) = 0;
    q.A0 = q.A.lm();
    q.A.snapshot(); T.snapshot();
    if (!wcall(s, c, cf, "qrtfactor", {q.A, T}, [&] { return armas_qrtfactor(&q.A, &T, &cf); }, [&](armas_wbuf_t *w) { return armas_qrtfactor_w(&q.A, &T, w, &cf); })) return;
    frame_result(c, q.A, "A"); frame_result(c, T, "T");
    if (!mode.value) return;
    need_finite(c, "A", q.A); need_finite(c, "T", T);
    LM F = q.A.lm(), V = refl_v(K_QR, F, q.k), Tl = T.lm(), Q = eye(q.m);
    for (int j0 = ((q.n - 1) / lb) * lb; j0 >= 0; j0 -= lb) {
        int w = std::min(lb, q.n - j0);
        LM v = cols(V, j0, w), t = tri(rows(cols(Tl, j0, w), 0, w), true, false);
        Q = sub(Q, mul(v, mul(t, mul(tr(v), Q))));
    }
    LD tol = (30 + 10 * N(q.k) + N(q.ord)) * UEPS;
    ortho(c, "Q from block reflectors", Q, tol);
    small_cols(c, "A - QR", sub(mul(Q, triang(K_QR, F)), q.A0), q.A0, tol);
}
