#include "lap.h"
bool wcall(Src &s, Case &c, Conf &cf, const char *what, const MatList &ops,
           const std::function<int()> &plain, const std::function<int(armas_wbuf_t *)> &w)
{
    int how = mode.work ? 1 : (int)s.draw(2);
    if (mode.inject) how = 0;
    if (how == 0 && plain) {
        int rc = plain();
        if (rc < 0) oom(c, what, rc, cf);
        if (rc < 0) c.fail("%s returned %d (error %d) for valid operands", what, rc, cf.err());
        return true;
    }
    for (Mat *m : ops) m->snapshot();
    armas_wbuf_t wb = ARMAS_WBNULL;
    int rc = w(&wb);
    if (rc < 0) c.fail("%s: workspace query returned %d (error %d)", what, rc, cf.err());
    for (Mat *m : ops)
        if (m->len && memcmp(m->base, m->snap.data(), m->len * sizeof(double))) c.fail("%s: workspace query modified an operand", what);
    size_t need = wb.bytes;
    if (wb.buf || wb.offset) c.fail("%s: workspace query set buffer or offset", what);
    int kind = s.weighted({mode.work ? 5 : 6, mode.work ? 5 : 1, 2});
    size_t n = need;
    if (kind == 1 && need > 8) {      // less than asked for, still possibly enough
        n = 1 + s.draw((uint32_t)std::min<size_t>(need - 1, 1u << 30));
        if (s.chance(1, 2)) n = std::max<size_t>(8, n & ~(size_t)7);
        if (s.chance(1, 6)) n = need - 8 * (1 + s.draw(4)) < need ? need - 8 * (1 + s.draw(4)) : n;
        if (n > need) n = need;
        if (n == 0) n = 8;
    } else if (kind == 2) n = need + 8 * s.draw(64);
    size_t off = !mode.exact && s.chance(1, 6) ? 8 * (1 + s.draw(20)) : 0;   // partly reserved buffer
    if (n == 0) {
        rc = w(ARMAS_NOWORK);
        if (rc < 0) c.fail("%s returned %d (error %d) without workspace although none was asked for", what, rc, cf.err());
        return true;
    }
    size_t guard = mode.exact ? 0 : 256;
    char *p = (char *)case_alloc(off + n + guard);
    int pat = s.pickl({0, 0x7f, 0xff});
    memset(p, pat, off + n);
    memset(p + off + n, 0x5a, guard);
    if (off) memset(p, 0x5b, off);
    wb.buf = p; wb.bytes = off + n; wb.offset = off;
    if (n == need) c.label("work-exact"); else if (n < need) c.label("work-less"); else c.label("work-more");
    c.d(" work=%zu of %zu offset %zu fill %02x", n, need, off, pat);
    rc = w(&wb);
    for (size_t i = 0; i < guard; i++) if ((unsigned char)p[off + n + i] != 0x5a) c.fail("%s wrote past its %zu byte workspace (asked for %zu)", what, n, need);
    for (size_t i = 0; i < off; i++) if ((unsigned char)p[i] != 0x5b) c.fail("%s wrote into the reserved part of its workspace", what);
    if (wb.buf != p || wb.bytes != off + n) c.fail("%s changed the workspace descriptor", what);
    if (wb.offset != off) c.fail("%s left the workspace offset at %zu instead of %zu", what, wb.offset, off);
    if (rc < 0) {
        if (n >= need) c.fail("%s returned %d (error %d) with %zu bytes of workspace, it asked for %zu", what, rc, cf.err(), n, need);
        if (cf.err() != ARMAS_EWORK) c.fail("%s failed with error %d (not EWORK) for %zu bytes of workspace of %zu", what, cf.err(), n, need);
        for (Mat *m : ops)
            if (m->len && memcmp(m->base, m->snap.data(), m->len * sizeof(double))) c.fail("%s refused a small workspace but modified an operand", what);
        c.label("work-refused");
        return false;
    }
    return true;
}
int dlap(Src &s, int big)
{
    if (mode.maxdim > 0) big = std::min(big, mode.maxdim);
    int n;
    // a few large ones for what depends on the configuration as it comes
    bool large = mode.maxdim == 0 && !mode.exact && !mode.inject && !vf_in_thread;
    switch (s.weighted({140, 112, 56, mode.thorough ? 42 : 14, large ? 1 : 0})) {
    case 0: n = s.range(1, std::min(big, 9)); break;
    case 1: n = s.range(1, std::min(big, 24)); break;
    case 2: n = s.range(1, std::min(big, 45)); break;
    case 4: n = s.range(big, std::min(4 * big, 240)); break;
    default: n = s.range(1, big);
    }
    return n;
}
extern thread_local bool vf_in_thread;
LM rndorth(Rng &g, int n)
{
    LM Q = eye(n);
    int k = std::min(n, 6);
    for (int q = 0; q < k; q++) {
        std::vector<LD> v(n);
        LD t = 0;
        for (auto &x : v) { x = g.normal(); t += x * x; }
        if (t == 0) continue;
        for (int j = 0; j < n; j++) {
            LD d = 0;
            for (int i = 0; i < n; i++) d += v[i] * Q(i, j);
            d *= 2 / t;
            for (int i = 0; i < n; i++) Q(i, j) -= d * v[i];
        }
    }
    return Q;
}
LM symwith(Rng &g, const std::vector<double> &w)
{
    int n = (int)w.size();
    LM Q = rndorth(g, n), S(n, n);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            LD t = 0;
            for (int k = 0; k < n; k++) t += Q(i, k) * w[k] * Q(j, k);
            S(i, j) = t;
        }
    return symm(S, true);
}
const char *gen_name(int k)
{
    static const char *n[] = {"random", "rankdef", "zerocol", "dupcol", "cond", "ident", "tri", "tinycol"};
    return n[k];
}
int fill_gen(Src &s, Mat &A, Case &c, bool full)
{
    int k = full ? s.pickl({G_RANDOM, G_RANDOM, G_COND, G_TRI, G_IDENT}) : s.pickl({G_RANDOM, G_RANDOM, G_RANKDEF, G_ZEROCOL, G_DUPCOL, G_COND, G_IDENT, G_TRI, G_TINYCOL});
    int m = A.r(), n = A.c(), mn = std::min(m, n);
    if (full) fill_mode(A, s.pickl({DM_UNI, DM_NORMAL}), s.seed()); else fill(s, A);
    Rng g(s.seed());
    switch (k) {
    case G_RANKDEF: {
        int r = g.below(mn);
        LM X(m, r), Y(r, n);
        for (auto &x : X.a) x = g.below(5) - 2;
        for (auto &x : Y.a) x = g.below(5) - 2;
        A.set(mul(X, Y));
        break;
    }
    case G_ZEROCOL:
        for (int j = 0; j < n; j++) if (g.below(3) == 0) for (int i = 0; i < m; i++) A.e(i, j) = 0;
        for (int i = 0; i < m; i++) if (g.below(4) == 0) for (int j = 0; j < n; j++) A.e(i, j) = 0;
        break;
    case G_DUPCOL:
        for (int j = 1; j < n; j++) if (g.below(2)) { int q = g.below(j); for (int i = 0; i < m; i++) A.e(i, j) = A.e(i, q); }
        break;
    case G_COND: {
        LM U = rndorth(g, m), V = rndorth(g, n), D(m, n);
        LD lc = full ? 6 : 14;
        for (int i = 0; i < mn; i++) D(i, i) = powl(10.0L, -lc * i / N(mn - 1));
        A.set(mul(mul(U, D), V));
        break;
    }
    case G_IDENT:
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.e(i, j) = i == j ? (double)(1 + g.below(2)) : 0;
        break;
    case G_TRI: {
        int up = g.below(2);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            if (up ? i > j : (m >= n ? i < j : i < j)) A.e(i, j) = 0;
            if (i == j) A.e(i, j) += A.e(i, j) < 0 ? -2 : 2;
        }
        break;
    }
    case G_TINYCOL:
        for (int j = 0; j < n; j++) { int e = -g.below(60); for (int i = 0; i < m; i++) A.e(i, j) = ldexp(A.e(i, j), e); }
        break;
    }
    int sc = s.pickl({0, 0, 0, 0, 0, 60, -60, 200, -200});
    if (sc) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.e(i, j) = ldexp(A.e(i, j), sc); c.label("scaled"); }
    c.d(" [%s 2^%d]", gen_name(k), sc);
    c.label(gen_name(k));
    return k;
}
void lenv(Src &s, Case &c)
{
    if (vf_in_thread) return;
    if (mode.cfg || s.chance(1, 4)) env_vary(s, c);
    int lb = s.pickl({4, 8, 64, 0, 5, 6, 12, 16, 32, 2, 1, 3});
    armas_getenv()->lb = lb;
    env_touch();
    env_saved();
    c.d("lb=%d ", lb);
}
LM colof(const LM &A, int j) { return cols(A, j, 1); }
void small_cols(Case &c, const char *what, const LM &err, const LM &ref, LD tol)
{
    if (!mode.value) return;
    for (int j = 0; j < err.c; j++) {
        LD e = 0, r = 0;
        for (int i = 0; i < err.r; i++) e = hypotl(e, err(i, j));
        for (int i = 0; i < ref.r; i++) r = hypotl(r, ref(i, j));
        if (!(e <= tol * r + 1e-290L)) c.fail("%s: column %d has error %.3Lg, column norm %.3Lg, allowed factor %.3Lg", what, j, e, r, tol);
    }
}
void small_rows(Case &c, const char *what, const LM &err, const LM &ref, LD tol)
{
    if (!mode.value) return;
    for (int i = 0; i < err.r; i++) {
        LD e = 0, r = 0;
        for (int j = 0; j < err.c; j++) e = hypotl(e, err(i, j));
        for (int j = 0; j < ref.c; j++) r = hypotl(r, ref(i, j));
        if (!(e <= tol * r + 1e-290L)) c.fail("%s: row %d has error %.3Lg, row norm %.3Lg, allowed factor %.3Lg", what, i, e, r, tol);
    }
}
LM apply_refl(const LM &v, LD tau, const LM &C)
{
    LM R = C;
    for (int j = 0; j < C.c; j++) {
        LD d = 0;
        for (int i = 0; i < C.r; i++) d += v(i, 0) * C(i, j);
        d *= tau;
        for (int i = 0; i < C.r; i++) R(i, j) -= d * v(i, 0);
    }
    return R;
}
LM refl_v(int kind, const LM &F, int k)
{
    int m = F.r, n = F.c;
    int ord = kind == K_QR || kind == K_QL ? m : n;
    LM V(ord, k);
    for (int q = 0; q < k; q++)
        for (int i = 0; i < ord; i++) {
            LD x = 0;
            switch (kind) {
            case K_QR: x = i < q ? 0 : i == q ? 1 : F(i, q); break;
            case K_LQ: x = i < q ? 0 : i == q ? 1 : F(q, i); break;
            case K_QL: x = i > m - n + q ? 0 : i == m - n + q ? 1 : F(i, q); break;
            case K_RQ: x = i > n - m + q ? 0 : i == n - m + q ? 1 : F(q, i); break;
            }
            V(i, q) = x;
        }
    return V;
}
LM refl_q(int kind, const LM &F, const LM &tau, int k)
{
    LM V = refl_v(kind, F, k);
    LM Q = eye(V.r);
    // QR, RQ: Q = H0 H1 ... ; LQ, QL: Q = Hk-1 ... H0
    if (kind == K_QR || kind == K_RQ) for (int q = k - 1; q >= 0; q--) Q = apply_refl(colof(V, q), tau(q, 0), Q);
    else for (int q = 0; q < k; q++) Q = apply_refl(colof(V, q), tau(q, 0), Q);
    return Q;
}
void ortho(Case &c, const char *what, const LM &Q, LD tol)
{
    if (!mode.value) return;
    LM E = sub(mul(tr(Q), Q), eye(Q.c));
    LD e = normMax(E);
    if (!(e <= tol)) c.fail("%s: columns are not orthonormal, max |Q'Q - I| = %.3Lg, allowed %.3Lg", what, e, tol);
}
