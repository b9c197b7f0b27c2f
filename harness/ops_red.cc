// Reductions to condensed form (C15)
#include "lap.h"

struct Red { int m, n; Mat A, tq, tp; LM A0, F, q, p; bool up = false; };
static LM embed(const LM &Q, int lead, int total)   // diag(I, Q) or diag(Q, I)
{
    LM E = eye(total);
    for (int j = 0; j < Q.c; j++) for (int i = 0; i < Q.r; i++) E(i + lead, j + lead) = Q(i, j);
    return E;
}
static LM sub2(const LM &A, int i, int j, int r, int c)
{
    LM S(r, c);
    for (int y = 0; y < c; y++) for (int x = 0; x < r; x++) S(x, y) = A(i + x, j + y);
    return S;
}
static void lab(Case &c, int k)
{
    int lb = armas_getenv()->lb;
    if (k > 2) c.nontrivial = true;
    if (lb > 0 && k > lb) c.label("blocked");
}
static LM firstk(const LM &t, int k) { return rows(t, 0, k); }
// Q (m x m) using the first K reflectors of a bidiagonal reduction
static LM bd_Q(const LM &F, const LM &tq, bool lower, int K)
{
    int m = F.r, n = F.c;
    if (!lower) return refl_q(K_QR, F, tq, std::min(K, n));
    if (m == 1) return eye(1);
    return embed(refl_q(K_QR, sub2(F, 1, 0, m - 1, m - 1), tq, std::min(K, m - 1)), 1, m);
}
// P' (n x n)
static LM bd_PT(const LM &F, const LM &tp, bool lower, int K)
{
    int m = F.r, n = F.c;
    if (lower) return refl_q(K_LQ, F, tp, std::min(K, m));
    if (n == 1) return eye(1);
    return embed(refl_q(K_LQ, sub2(F, 0, 1, n - 1, n - 1), tp, std::min(K, n - 1)), 1, n);
}
static LM bd_B(const LM &F, bool lower)
{
    LM B(F.r, F.c);
    int k = std::min(F.r, F.c);
    for (int i = 0; i < k; i++) {
        B(i, i) = F(i, i);
        if (!lower && i + 1 < k) B(i, i + 1) = F(i, i + 1);
        if (lower && i + 1 < k) B(i + 1, i) = F(i + 1, i);
    }
    return B;
}
static bool bd_make(Src &s, Case &c, Red &r, Conf &cf, bool judge)
{
    r.m = dlap(s, 70); r.n = dlap(s, 70);
    if (s.chance(1, 4)) r.n = r.m;
    int k = std::min(r.m, r.n);
    r.A = mk(s, r.m, r.n);
    bool low = r.m < r.n;
    // exact lengths or the documented min(M,N) for both
    bool ex = k > 1 && s.chance(1, 2);
    int xq = s.chance(1, 10) ? s.range(1, 4) : 0, xp = s.chance(1, 10) ? s.range(1, 4) : 0;      // more room than needed
    r.tq = mkcol(s, (low && ex ? k - 1 : k) + xq);
    r.tp = mkcol(s, (!low && ex ? k - 1 : k) + xp);
    c.d("bdreduce A=%s", sh(r.A).c_str());
    fill_gen(s, r.A, c);
    fill_mode(r.tq, DM_UNI, 1); fill_mode(r.tp, DM_UNI, 2);
    lab(c, k);
    r.A0 = r.A.lm();
    r.A.snapshot(); r.tq.snapshot(); r.tp.snapshot();
    if (judge) {
        if (!wcall(s, c, cf, "bdreduce", {r.A, r.tq, r.tp}, [&] { return armas_bdreduce(&r.A, &r.tq, &r.tp, &cf); }, [&](armas_wbuf_t *w) { return armas_bdreduce_w(&r.A, &r.tq, &r.tp, w, &cf); })) return false;
        frame_result(c, r.A, "A"); frame_result(c, r.tq, "tauq"); frame_result(c, r.tp, "taup");
    } else OKRC(c, armas_bdreduce(&r.A, &r.tq, &r.tp, &cf), cf);
    r.F = r.A.lm(); r.q = r.tq.lmv(); r.p = r.tp.lmv();
    return true;
}
TARGET(red, bdreduce, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    if (!bd_make(s, c, r, cf, true) || !mode.value) return;
    bool low = r.m < r.n;
    int k = std::min(r.m, r.n);
    need_finite(c, "reduction", r.A);
    LD tol = (40 + 12 * N(std::max(r.m, r.n))) * UEPS;
    LM Q = bd_Q(r.F, r.q, low, k), PT = bd_PT(r.F, r.p, low, k), B = bd_B(r.F, low);
    ortho(c, "Q from reflectors", Q, tol); ortho(c, "P from reflectors", tr(PT), tol);
    small(c, "A - Q B P'", normF(sub(r.A0, mul(mul(Q, B), PT))), tol * normF(r.A0));
}
TARGET(red, bdbuild, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    bd_make(s, c, r, cf, false);
    bool low = r.m < r.n, wq = s.chance(1, 2);
    int k = std::min(r.m, r.n);
    // matrix the factor is generated in: all of A or its leading square part
    bool sq = s.chance(1, 2) && !(wq ? !low : low);
    int m = sq ? k : r.m, n = sq ? k : r.n;
    Mat U = mk(s, m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) U.e(i, j) = r.A.e(i, j);
    int nref = wq ? (low ? k - 1 : k) : (low ? k : k - 1), K = s.chance(1, 3) && nref > 1 ? s.range(1, nref) : k;
    bool flow = low && m == n;
    if (flow && !sq) c.discard();
    int fl = (wq ? ARMAS_WANTQ : ARMAS_WANTP) | (flow || (low && s.chance(1, 2)) ? ARMAS_LOWER : 0);
    c.d(" bdbuild %s in %s K=%d%s", wq ? "Q" : "P", sh(U).c_str(), K, fl & ARMAS_LOWER ? " LOWER" : "");
    Mat &t = wq ? r.tq : r.tp;
    t.snapshot(); U.snapshot();
    if (!wcall(s, c, cf, "bdbuild", {U, t}, [&] { return armas_bdbuild(&U, &t, K, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_bdbuild_w(&U, &t, K, fl, w, &cf); })) return;
    frame_const(c, t, "tau"); frame_result(c, U, "Q");
    if (!mode.value) return;
    LD tol = (40 + 12 * N(std::max(r.m, r.n))) * UEPS;
    LM E = wq ? bd_Q(r.F, r.q, low, K) : bd_PT(r.F, r.p, low, K);
    // columns of Q (rows of P') that fit in
    int er = wq ? (low ? k : m) : (low ? m : k), ec = wq ? k : (low ? n : k);
    for (int j = 0; j < ec; j++) for (int i = 0; i < er; i++)
        if (!(fabsl(U.e(i, j) - E(i, j)) <= tol)) c.fail("bdbuild: element (%d,%d) is %.17g, reflectors give %.17Lg", i, j, U.e(i, j), E(i, j));
}
TARGET(red, bdmult, 10)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    bd_make(s, c, r, cf, false);
    bool low = r.m < r.n, wq = s.chance(1, 2), right = s.chance(1, 2), tn = s.chance(1, 2), lflag = s.chance(1, 2);
    int k = std::min(r.m, r.n), ord = wq ? r.m : r.n, o = s.chance(1, 12) ? 1 : dlap(s, 60);
    if (low && r.m == r.n) c.discard();
    // P of a tall and Q of a wide reduction are determined by the leading square part as well
    Mat S;
    Mat *pa = std::addressof(r.A);
    bool sq = (wq ? low : !low) && s.chance(1, 3);
    if (sq) {
        S = mk(s, k, k);
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) S.e(i, j) = r.A.e(i, j);
        pa = std::addressof(S);
    }
    Mat C = mk(s, right ? o : ord, right ? ord : o);
    fill(s, C);
    int fl = (wq ? ARMAS_MULTQ : ARMAS_MULTP) | (right ? ARMAS_RIGHT : lflag ? ARMAS_LEFT : 0) | (tn ? ARMAS_TRANS : 0) | (low && (sq || s.chance(1, 2)) ? ARMAS_LOWER : 0);
    c.d(" bdmult C=%s %s%s%s%s", sh(C).c_str(), wq ? "Q" : "P", right ? " RIGHT" : "", tn ? " TRANS" : "", sq ? " square" : "");
    LM C0 = C.lm();
    Mat &t = wq ? r.tq : r.tp;
    pa->snapshot(); t.snapshot(); C.snapshot();
    if (!wcall(s, c, cf, "bdmult", {C, *pa, t}, [&] { return armas_bdmult(&C, &pa->m, &t, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_bdmult_w(&C, &pa->m, &t, fl, w, &cf); })) return;
    frame_const(c, *pa, "A"); frame_const(c, t, "tau"); frame_result(c, C, "C");
    if (!mode.value) return;
    LD tol = (40 + 12 * N(std::max(r.m, r.n))) * UEPS;
    LM Q = wq ? bd_Q(r.F, r.q, low, k) : tr(bd_PT(r.F, r.p, low, k));
    if (tn) Q = tr(Q);
    LM R = right ? mul(C0, Q) : mul(Q, C0), E = sub(C.lm(), R);
    if (right) small_rows(c, "bdmult", E, C0, tol); else small_cols(c, "bdmult", E, C0, tol);
}
// ---------------------------------------------------------------- tridiagonal
static void symfill(Src &s, Case &c, Mat &A)
{
    int n = A.r(), k = s.range(0, 5);
    Rng g(s.seed());
    LM S(n, n);
    switch (k) {
    case 0: case 1: { Mat T = tight(n, n); fill_mode(T, k ? DM_INT : DM_UNI, s.seed()); S = symm(T.lm(), true); break; }
    case 2: { std::vector<double> w(n); for (auto &x : w) x = g.below(3) - 1; S = symwith(g, w); break; }
    case 3: { std::vector<double> w(n); for (int i = 0; i < n; i++) w[i] = (g.below(2) ? 1 : -1) * pow(10.0, -12.0 * i / std::max(1, n - 1)); S = symwith(g, w); break; }
    case 4: for (int i = 0; i < n; i++) { S(i, i) = g.below(4); if (i + 1 < n && g.below(3)) S(i, i + 1) = S(i + 1, i) = g.below(3); } break;   // tridiagonal with zeros
    case 5: { Mat T = tight(n, n); fill_mode(T, DM_ZEROS, s.seed()); S = symm(T.lm(), true); for (int i = 0; i < n; i++) if (g.below(3) == 0) for (int j = 0; j < n; j++) S(i, j) = S(j, i) = 0; break; }
    }
    int sc = s.pickl({0, 0, 0, 0, 60, -60, 200, -200});
    for (auto &x : S.a) x = ldexpl(x, sc);
    S = symm(S, true);
    A.set(S);
    c.d(" [sym%d 2^%d]", k, sc);
}
static bool trd_make(Src &s, Case &c, Red &r, Conf &cf, bool judge)
{
    int n = r.m = r.n = dlap(s, 80);
    r.up = s.chance(1, 2);
    r.A = mk(s, n, n);
    r.tq = mkcol(s, n);
    c.d("trdreduce A=%s%s", sh(r.A).c_str(), r.up ? " U" : " L");
    symfill(s, c, r.A);
    r.A0 = r.A.lm();
    int how = polkind(s);
    bool up = r.up;
    pollute(r.A, how, [=](int i, int j) { return up ? i > j : i < j; });
    fill_mode(r.tq, DM_UNI, 1);
    lab(c, n);
    r.A.snapshot(); r.tq.snapshot();
    int fl = up ? ARMAS_UPPER : ARMAS_LOWER;
    if (judge) {
        if (!wcall(s, c, cf, "trdreduce", {r.A, r.tq}, [&] { return armas_trdreduce(&r.A, &r.tq, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_trdreduce_w(&r.A, &r.tq, fl, w, &cf); })) return false;
        frame_except(c, r.A, "A", [=](int i, int j) { return up ? i <= j : i >= j; }); frame_result(c, r.tq, "tau");
    } else OKRC(c, armas_trdreduce(&r.A, &r.tq, fl, &cf), cf);
    r.F = up ? tri(r.A.lm(), true, false) : tri(r.A.lm(), false, false);
    r.q = r.tq.lmv();
    return true;
}
static LM trd_Q(const Red &r, int K)
{
    int n = r.n;
    if (n == 1) return eye(1);
    if (!r.up) return embed(refl_q(K_QR, sub2(r.F, 1, 0, n - 1, n - 1), r.q, std::min(K, n - 1)), 1, n);
    LM S = sub2(r.F, 0, 1, n - 1, n - 1);
    LM t = r.q;
    for (int i = 0; i < n - 1 - K; i++) t(i, 0) = 0;    // the last K reflectors
    return embed(refl_q(K_QL, S, t, n - 1), 0, n);
}
static LM trd_T(const Red &r)
{
    LM T(r.n, r.n);
    for (int i = 0; i < r.n; i++) {
        T(i, i) = r.F(i, i);
        if (i + 1 < r.n) T(i, i + 1) = T(i + 1, i) = r.up ? r.F(i, i + 1) : r.F(i + 1, i);
    }
    return T;
}
TARGET(red, trdreduce, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    if (!trd_make(s, c, r, cf, true) || !mode.value) return;
    LM T = trd_T(r), Q = trd_Q(r, r.n);
    for (int i = 0; i < r.n; i++) if (!std::isfinite((double)T(i, i))) c.fail("diagonal element %d is not finite", i);
    LD tol = (40 + 12 * N(r.n)) * UEPS;
    ortho(c, "Q from reflectors", Q, tol);
    small(c, "A - Q T Q'", normF(sub(r.A0, mul(mul(Q, T), tr(Q)))), tol * normF(r.A0));
}
TARGET(red, trdbuild, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    trd_make(s, c, r, cf, false);
    int n = r.n, K = s.chance(1, 4) && n > 2 ? s.range(1, n - 1) : n - 1 + s.range(0, 1), fl = r.up ? ARMAS_UPPER : ARMAS_LOWER;
    c.d(" trdbuild K=%d", K);
    r.A.snapshot(); r.tq.snapshot();
    if (!wcall(s, c, cf, "trdbuild", {r.A, r.tq}, [&] { return armas_trdbuild(&r.A, &r.tq, K, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_trdbuild_w(&r.A, &r.tq, K, fl, w, &cf); })) return;
    frame_const(c, r.tq, "tau"); frame_result(c, r.A, "Q");
    if (!mode.value) return;
    LM Q = trd_Q(r, std::min(K, n - 1));
    LD tol = (40 + 12 * N(n)) * UEPS;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
        if (!(fabsl(r.A.e(i, j) - Q(i, j)) <= tol)) c.fail("trdbuild: element (%d,%d) is %.17g, reflectors give %.17Lg", i, j, r.A.e(i, j), Q(i, j));
}
TARGET(red, trdmult, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    trd_make(s, c, r, cf, false);
    int n = r.n, o = s.chance(1, 12) ? 1 : dlap(s, 60);
    bool right = s.chance(1, 2), tn = s.chance(1, 2), lflag = s.chance(1, 2);
    Mat C = mk(s, right ? o : n, right ? n : o);
    fill(s, C);
    int fl = (r.up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : lflag ? ARMAS_LEFT : 0) | (tn ? ARMAS_TRANS : 0);
    c.d(" trdmult C=%s%s%s", sh(C).c_str(), right ? " RIGHT" : "", tn ? " TRANS" : "");
    LM C0 = C.lm();
    bool up = r.up;
    pollute(r.A, polkind(s), [=](int i, int j) { return up ? i > j : i < j; });
    r.A.snapshot(); r.tq.snapshot(); C.snapshot();
    if (!wcall(s, c, cf, "trdmult", {C, r.A, r.tq}, [&] { return armas_trdmult(&C, &r.A, &r.tq, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_trdmult_w(&C, &r.A, &r.tq, fl, w, &cf); })) return;
    frame_const(c, r.A, "A"); frame_const(c, r.tq, "tau"); frame_result(c, C, "C");
    if (!mode.value) return;
    LM Q = trd_Q(r, n - 1);
    if (tn) Q = tr(Q);
    LM R = right ? mul(C0, Q) : mul(Q, C0), E = sub(C.lm(), R);
    LD tol = (40 + 12 * N(n)) * UEPS;
    if (right) small_rows(c, "trdmult", E, C0, tol); else small_cols(c, "trdmult", E, C0, tol);
}
// ---------------------------------------------------------------- Hessenberg
static bool hess_make(Src &s, Case &c, Red &r, Conf &cf, bool judge)
{
    int n = r.m = r.n = std::max(2, dlap(s, 80));
    r.A = mk(s, n, n);
    r.tq = mkcol(s, n - 1);
    c.d("hessreduce A=%s", sh(r.A).c_str());
    fill_gen(s, r.A, c);
    fill_mode(r.tq, DM_UNI, 1);
    r.A0 = r.A.lm();
    lab(c, n);
    r.A.snapshot(); r.tq.snapshot();
    if (judge) {
        if (!wcall(s, c, cf, "hessreduce", {r.A, r.tq}, [&] { return armas_hessreduce(&r.A, &r.tq, &cf); }, [&](armas_wbuf_t *w) { return armas_hessreduce_w(&r.A, &r.tq, w, &cf); })) return false;
        frame_result(c, r.A, "A"); frame_result(c, r.tq, "tau");
    } else OKRC(c, armas_hessreduce(&r.A, &r.tq, &cf), cf);
    r.F = r.A.lm(); r.q = r.tq.lmv();
    return true;
}
static LM hess_Q(const Red &r) { return embed(refl_q(K_QR, sub2(r.F, 1, 0, r.n - 1, r.n - 1), r.q, r.n - 1), 1, r.n); }
TARGET(red, hessreduce, 12)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    if (!hess_make(s, c, r, cf, true) || !mode.value) return;
    int n = r.n;
    need_finite(c, "reduction", r.A);
    LM Q = hess_Q(r), H(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n && i <= j + 1; i++) H(i, j) = r.F(i, j);
    LD tol = (40 + 12 * N(n)) * UEPS;
    ortho(c, "Q from reflectors", Q, tol);
    small(c, "A - Q H Q'", normF(sub(r.A0, mul(mul(Q, H), tr(Q)))), tol * normF(r.A0));
}
TARGET(red, hessmult, 8)
{
    lenv(s, c);
    Conf cf = cfg(s, c, {0, 0, 0, ARMAS_ONONNEG});
    Red r;
    hess_make(s, c, r, cf, false);
    int n = r.n, o = s.chance(1, 12) ? 1 : dlap(s, 60);
    bool right = s.chance(1, 2), tn = s.chance(1, 2), lflag = s.chance(1, 2);
    Mat C = mk(s, right ? o : n, right ? n : o);
    fill(s, C);
    int fl = (right ? ARMAS_RIGHT : lflag ? ARMAS_LEFT : 0) | (tn ? ARMAS_TRANS : 0);
    c.d(" hessmult C=%s%s%s", sh(C).c_str(), right ? " RIGHT" : "", tn ? " TRANS" : "");
    LM C0 = C.lm();
    r.A.snapshot(); r.tq.snapshot(); C.snapshot();
    if (!wcall(s, c, cf, "hessmult", {C, r.A, r.tq}, [&] { return armas_hessmult(&C, &r.A, &r.tq, fl, &cf); }, [&](armas_wbuf_t *w) { return armas_hessmult_w(&C, &r.A, &r.tq, fl, w, &cf); })) return;
    frame_const(c, r.A, "A"); frame_const(c, r.tq, "tau"); frame_result(c, C, "C");
    if (!mode.value) return;
    LM Q = hess_Q(r);
    if (tn) Q = tr(Q);
    LM R = right ? mul(C0, Q) : mul(Q, C0), E = sub(C.lm(), R);
    LD tol = (40 + 12 * N(n)) * UEPS;
    if (right) small_rows(c, "hessmult", E, C0, tol); else small_cols(c, "hessmult", E, C0, tol);
}
