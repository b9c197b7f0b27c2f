// Operand validation of every entry point (C20)
#include "la.h"
#include "lap.h"
#include "piv.h"

namespace {
struct Opd { char kind; int r, c; std::string mask; const char *name; };
struct Bad { std::string what; std::function<void()> f; };
struct Op {
    std::vector<Opd> o;
    std::vector<Bad> bad;
    std::vector<Mat> m;
    std::vector<int> piv;
    int npiv = -1, piv_req = -1;
    bool use_piv = false, null_arg = false;
    std::vector<int> nullable;      // operands documented to be rejected when absent
    int absent = -1;
    std::string what;
    bool scalar = false;            // returns a value, not a status
    int scalar_bad = 0;
    bool spd = false;
    std::function<int(armas_conf_t *)> call;
    int mat(const char *nm, int r, int c, const char *mask = "rc") { o.push_back({'M', r, c, mask, nm}); return (int)o.size() - 1; }
    int vec(const char *nm, int n, const char *mask = "nv") { o.push_back({'V', n, 1, mask, nm}); return (int)o.size() - 1; }
    int tau(const char *nm, int n, const char *mask = "<") { o.push_back({'T', n, 1, mask, nm}); return (int)o.size() - 1; }
    void pivot(int req) { use_piv = true; piv_req = req; }
    armas_dense_t *operator[](int i) { return i == absent ? nullptr : &m[i].m; }
};
// size different from n, at least 2 (and never turning the operand into an empty or vector shaped one)
int other(Src &s, int n, int lo = 2)
{
    int k;
    switch (s.below(4)) {
    case 0: k = n + 1; break;
    case 1: k = n - 1; break;
    case 2: k = n + s.range(1, 6); break;
    default: k = n - s.range(1, 6);
    }
    return k >= lo && k != n ? k : n + 1;
}
int smaller(Src &s, int n, int lo = 1) { return n <= lo ? -1 : s.chance(1, 2) ? n - 1 : s.range(lo, n - 1); }

typedef void (*def_fn)(Src &, Op &, int, int, int);
struct Def { const char *name; def_fn f; int flags; };
enum { EMPTY = 1, NZ = 2 };
std::vector<Def> &defs() { static std::vector<Def> d; return d; }
struct DefReg { DefReg(const char *n, def_fn f, int fl) { defs().push_back({n, f, fl}); } };
#define OP(name, flags) static void op_##name(Src &, Op &, int, int, int); static DefReg dr_##name(#name, op_##name, flags); static void op_##name(Src &s, Op &o, int m, int n, int k)

bool neg(Src &s) { return s.chance(1, 2); }
double ab(Src &s) { return s.chance(1, 3) ? rnd_scalar(s) : 1.5; }

// ---- BLAS 1
OP(axpy, EMPTY) { int x = o.vec("x", n), y = o.vec("y", n); o.call = [&o, x, y](armas_conf_t *c) { return armas_axpy(o[y], 2, o[x], c); }; }
OP(axpby, EMPTY) { int x = o.vec("x", n), y = o.vec("y", n); o.call = [&o, x, y](armas_conf_t *c) { return armas_axpby(3, o[y], 2, o[x], c); }; }
OP(ext_axpby, 0) { int x = o.vec("x", n), y = o.vec("y", n); o.call = [&o, x, y](armas_conf_t *c) { return armas_ext_axpby(3, o[y], 2, o[x], c); }; }
OP(swap, EMPTY) { int x = o.vec("x", n), y = o.vec("y", n); o.call = [&o, x, y](armas_conf_t *c) { return armas_swap(o[y], o[x], c); }; }
OP(copy, EMPTY) { int x = o.vec("x", n, "v"), y = o.vec("y", n, "v"); o.call = [&o, x, y](armas_conf_t *c) { return armas_copy(o[y], o[x], c); }; }
OP(scale, EMPTY) { int x = o.vec("x", n, "v"); o.call = [&o, x](armas_conf_t *c) { return armas_scale(o[x], 2, c); }; }
static double g_res;
OP(adot, EMPTY) { int x = o.vec("x", n), y = o.vec("y", n); g_res = 7; o.call = [&o, x, y](armas_conf_t *c) { return armas_adot(&g_res, 2, o[x], o[y], c); };  o.bad.push_back({"result absent", [=, &o] { o.call = [=, &o](armas_conf_t *c) { return armas_adot(nullptr, 2, o[x], o[y], c); }; }}); }
OP(ext_adot, 0) { int x = o.vec("x", n), y = o.vec("y", n); g_res = 7; o.call = [&o, x, y](armas_conf_t *c) { return armas_ext_adot(&g_res, 2, o[x], o[y], c); };  o.bad.push_back({"result absent", [=, &o] { o.call = [=, &o](armas_conf_t *c) { return armas_ext_adot(nullptr, 2, o[x], o[y], c); }; }}); }
OP(dot, EMPTY) { o.scalar = true; int x = o.vec("x", n), y = o.vec("y", n); o.call = [&o, x, y](armas_conf_t *c) { g_res = armas_dot(o[x], o[y], c); return 0; }; }
OP(nrm2, EMPTY) { o.scalar = true; int x = o.vec("x", n, "v"); o.call = [&o, x](armas_conf_t *c) { g_res = armas_nrm2(o[x], c); return 0; }; }
OP(asum, EMPTY) { o.scalar = true; int x = o.vec("x", n, "v"); o.call = [&o, x](armas_conf_t *c) { g_res = armas_asum(o[x], c); return 0; }; }
OP(amax, 0) { o.scalar = true; int x = o.vec("x", n, "v"); o.call = [&o, x](armas_conf_t *c) { g_res = armas_amax(o[x], c); return 0; }; }
OP(iamax, 0) { o.scalar_bad = 1; int x = o.vec("x", n, "v"); o.call = [&o, x](armas_conf_t *c) { return armas_iamax(o[x], c); }; }
// ---- element wise
OP(mcopy, EMPTY)
{
    bool t = neg(s);
    int a = o.mat("A", m, n), b = t ? o.mat("B", n, m) : o.mat("B", m, n);
    o.what = t ? "T" : "";
    o.call = [=, &o](armas_conf_t *c) { return armas_mcopy(o[a], o[b], t ? ARMAS_TRANS : 0, c); };
}
OP(mplus, EMPTY)
{
    bool t = neg(s);
    int a = o.mat("A", m, n), b = t ? o.mat("B", n, m) : o.mat("B", m, n);
    o.what = t ? "T" : "";
    o.call = [=, &o](armas_conf_t *c) { return armas_mplus(2, o[a], 3, o[b], t ? ARMAS_TRANS : 0, c); };
}
OP(mscale_symm, 0) { int a = o.mat("A", n, n); o.call = [=, &o](armas_conf_t *c) { return armas_mscale(o[a], 2, ARMAS_SYMM, c); }; }
OP(madd_symm, 0) { int a = o.mat("A", n, n); o.call = [=, &o](armas_conf_t *c) { return armas_madd(o[a], 2, ARMAS_SYMM, c); }; }
// ---- BLAS 2
#define BL2(pfx, T) \
OP(T##mvmult, EMPTY) { bool t = neg(s), sw = s.chance(1, 5); int a = o.mat("A", m, n), x = o.vec("x", t ? m : n), y = o.vec("y", t ? n : m); double al = ab(s), be = ab(s); o.what = t ? "T" : ""; \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvmult(be, o[y], al, o[a], o[x], (t ? ARMAS_TRANS : 0) | (sw ? ARMAS_ABS : 0), c); }; } \
OP(T##mvmult_sym, EMPTY) { bool u = neg(s); int a = o.mat("A", n, n), x = o.vec("x", n), y = o.vec("y", n); double al = ab(s), be = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvmult_sym(be, o[y], al, o[a], o[x], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; } \
OP(T##mvmult_trm, EMPTY) { int f = (neg(s) ? ARMAS_UPPER : ARMAS_LOWER) | (neg(s) ? ARMAS_TRANS : 0) | (neg(s) ? ARMAS_UNIT : 0); int a = o.mat("A", n, n), x = o.vec("x", n); double al = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvmult_trm(o[x], al, o[a], f, c); }; } \
OP(T##mvsolve_trm, EMPTY) { int f = (neg(s) ? ARMAS_UPPER : ARMAS_LOWER) | (neg(s) ? ARMAS_TRANS : 0) | (neg(s) ? ARMAS_UNIT : 0); int a = o.mat("A", n, n), x = o.vec("x", n); double al = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvsolve_trm(o[x], al, o[a], f, c); }; } \
OP(T##mvupdate, EMPTY) { int a = o.mat("A", m, n), x = o.vec("x", m), y = o.vec("y", n); double al = ab(s), be = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvupdate(be, o[a], al, o[x], o[y], c); }; } \
OP(T##mvupdate_sym, EMPTY) { bool u = neg(s); int a = o.mat("A", n, n), x = o.vec("x", n); double al = ab(s), be = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvupdate_sym(be, o[a], al, o[x], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; } \
OP(T##mvupdate2_sym, EMPTY) { bool u = neg(s); int a = o.mat("A", n, n), x = o.vec("x", n), y = o.vec("y", n); double al = ab(s), be = ab(s); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mvupdate2_sym(be, o[a], al, o[x], o[y], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
BL2(armas_, )
BL2(armas_ext_, ext_)
OP(mvupdate_trm, EMPTY) { bool u = neg(s); int a = o.mat("A", m, n), x = o.vec("x", m), y = o.vec("y", n); double al = ab(s), be = ab(s);
    o.call = [=, &o](armas_conf_t *c) { return armas_mvupdate_trm(be, o[a], al, o[x], o[y], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
// ---- BLAS 3
#define BL3(pfx, T) \
OP(T##mult, EMPTY) { bool ta = neg(s), tb = neg(s); int a = ta ? o.mat("A", k, m) : o.mat("A", m, k), b = tb ? o.mat("B", n, k) : o.mat("B", k, n), c_ = o.mat("C", m, n); double al = ab(s), be = ab(s); o.what = std::string(ta ? "TA" : "") + (tb ? "TB" : ""); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mult(be, o[c_], al, o[a], o[b], (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), c); }; } \
OP(T##mult_sym, EMPTY) { bool r = neg(s), u = neg(s), tb = s.chance(1, 4) && !*#T; int p = r ? n : m; int a = o.mat("A", p, p), b = tb ? o.mat("B", n, m) : o.mat("B", m, n), c_ = o.mat("C", m, n); double al = ab(s), be = ab(s); \
    o.what = std::string(r ? "right " : "left ") + (tb ? "TB" : ""); \
    o.call = [=, &o](armas_conf_t *c) { return pfx##mult_sym(be, o[c_], al, o[a], o[b], (r ? ARMAS_RIGHT : ARMAS_LEFT) | (u ? ARMAS_UPPER : ARMAS_LOWER) | (tb ? ARMAS_TRANSB : 0), c); }; } \
OP(T##mult_trm, EMPTY) { bool r = neg(s); int f = (neg(s) ? ARMAS_UPPER : ARMAS_LOWER) | (neg(s) ? ARMAS_TRANS : 0) | (neg(s) ? ARMAS_UNIT : 0); int p = r ? n : m; int a = o.mat("A", p, p), b = o.mat("B", m, n, r ? "c" : "r"); double al = ab(s); \
    o.what = r ? "right" : "left"; o.call = [=, &o](armas_conf_t *c) { return pfx##mult_trm(o[b], al, o[a], f | (r ? ARMAS_RIGHT : ARMAS_LEFT), c); }; } \
OP(T##solve_trm, EMPTY) { bool r = neg(s); int f = (neg(s) ? ARMAS_UPPER : ARMAS_LOWER) | (neg(s) ? ARMAS_TRANS : 0) | (neg(s) ? ARMAS_UNIT : 0); int p = r ? n : m; int a = o.mat("A", p, p), b = o.mat("B", m, n, r ? "c" : "r"); double al = ab(s); \
    o.what = r ? "right" : "left"; o.call = [=, &o](armas_conf_t *c) { return pfx##solve_trm(o[b], al, o[a], f | (r ? ARMAS_RIGHT : ARMAS_LEFT), c); }; }
BL3(armas_, )
BL3(armas_ext_, ext_)
OP(update_trm, EMPTY) { bool ta = neg(s), tb = neg(s), u = neg(s); int a = ta ? o.mat("A", k, m) : o.mat("A", m, k), b = tb ? o.mat("B", n, k) : o.mat("B", k, n), c_ = o.mat("C", m, n); double al = ab(s), be = ab(s);
    o.call = [=, &o](armas_conf_t *c) { return armas_update_trm(be, o[c_], al, o[a], o[b], (u ? ARMAS_UPPER : ARMAS_LOWER) | (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), c); }; }
OP(update_sym, EMPTY) { bool t = neg(s), u = neg(s); int a = t ? o.mat("A", k, n, "c") : o.mat("A", n, k, "r"), c_ = o.mat("C", n, n); double al = ab(s), be = ab(s);
    o.call = [=, &o](armas_conf_t *c) { return armas_update_sym(be, o[c_], al, o[a], (u ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0), c); }; }
OP(update2_sym, EMPTY) { bool t = neg(s), u = neg(s); int a = t ? o.mat("A", k, n) : o.mat("A", n, k), b = t ? o.mat("B", k, n) : o.mat("B", n, k), c_ = o.mat("C", n, n); double al = ab(s), be = ab(s);
    o.call = [=, &o](armas_conf_t *c) { return armas_update2_sym(be, o[c_], al, o[a], o[b], (u ? ARMAS_UPPER : ARMAS_LOWER) | (t ? ARMAS_TRANS : 0), c); }; }
// ---- orthogonal factorizations.  tall: rows >= cols
#define QRF(nm, TALL) \
OP(nm##factor, NZ) { int p = std::max(m, n), q = std::min(m, n); int a = TALL ? o.mat("A", p, q, "") : o.mat("A", q, p, ""), t = o.tau("tau", q); \
    if (q > 1) o.bad.push_back({"A of wrong aspect", [=, &o] { if (TALL) o.o[a].r = q - 1; else o.o[a].c = q - 1; }}); \
    o.call = [=, &o](armas_conf_t *c) { return armas_##nm##factor(o[a], o[t], c); }; } \
OP(nm##mult, NZ) { int p = std::max(m, n), q = std::min(m, n); bool r = neg(s), tr = neg(s); int a = TALL ? o.mat("A", p, q, "r") : o.mat("A", q, p, "c"), t = o.tau("tau", q), c_ = r ? o.mat("C", k, p, "c") : o.mat("C", p, k, "r"); \
    o.nullable = {a, t, c_}; o.what = r ? "right" : "left"; if (r) o.o[a].mask += "", o.what += ""; \
    o.call = [=, &o](armas_conf_t *c) { return armas_##nm##mult(o[c_], o[a], o[t], (r ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0), c); }; } \
OP(nm##build, NZ) { int p = std::max(m, n), q = std::min(m, n); int a = TALL ? o.mat("A", p, q, "") : o.mat("A", q, p, ""), t = o.tau("tau", q); o.nullable = {a, t}; \
    o.call = [=, &o](armas_conf_t *c) { return armas_##nm##build(o[a], o[t], q, c); }; }
QRF(qr, true)
QRF(lq, false)
QRF(ql, true)
QRF(rq, false)
OP(qrsolve, NZ) { int p = std::max(m, n), q = std::min(m, n); bool tr = neg(s); int a = o.mat("A", p, q, "r"), t = o.tau("tau", q), b = o.mat("B", p, k, "r"); o.nullable = {a, t, b};
    o.call = [=, &o](armas_conf_t *c) { return armas_qrsolve(o[b], o[a], o[t], tr ? ARMAS_TRANS : 0, c); }; }
OP(lqsolve, NZ) { int p = std::max(m, n), q = std::min(m, n); bool tr = neg(s); int a = o.mat("A", q, p, "c"), t = o.tau("tau", q), b = o.mat("B", p, k, "r"); o.nullable = {a, t, b};
    o.call = [=, &o](armas_conf_t *c) { return armas_lqsolve(o[b], o[a], o[t], tr ? ARMAS_TRANS : 0, c); }; }
OP(qrtfactor, NZ) { int p = std::max(m, n), q = std::min(m, n); int a = o.mat("A", p, q, ""), t = o.mat("T", s.range(1, q), q, ""); (void)k;
    if (q > 1) { o.bad.push_back({"rows < cols", [=, &o] { o.o[a].r = q - 1; }}); o.bad.push_back({"T has too few columns", [=, &o] { o.o[t].c = q - 1; }}); }
    o.call = [=, &o](armas_conf_t *c) { return armas_qrtfactor(o[a], o[t], c); }; }
// ---- reductions
OP(bdreduce, NZ) { int q = std::min(m, n); int a = o.mat("A", m, n, ""), tq = o.tau("tauq", m >= n ? n : m - 1), tp = o.tau("taup", m >= n ? n - 1 : m); (void)q; (void)k;
    o.call = [=, &o](armas_conf_t *c) { return armas_bdreduce(o[a], o[tq], o[tp], c); }; }
OP(bdmult, NZ)
{
    bool r = neg(s), tr = neg(s), q = neg(s);
    int p = q ? m : n;
    int a = o.mat("A", m, n, q ? "r" : "c"), t = o.tau("tau", m >= n ? (q ? n : n - 1) : (q ? m - 1 : m)), c_ = r ? o.mat("C", k, p, "c") : o.mat("C", p, k, "r");
    o.what = std::string(q ? "Q " : "P ") + (r ? "right" : "left");
    o.nullable = {c_};
    int f = q ? ARMAS_MULTQ : ARMAS_MULTP;
    int bf = 0;
    o.call = [=, &o](armas_conf_t *c) { return armas_bdmult(o[c_], o[a], o[t], (bf ? bf : f) | (r ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0), c); };
    o.bad.push_back({"neither MULTQ nor MULTP", [=, &o] { o.call = [=, &o](armas_conf_t *c) { return armas_bdmult(o[c_], o[a], o[t], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }});
}
OP(bdbuild, NZ)
{
    bool q = neg(s);
    int a = o.mat("A", m, n, ""), t = o.tau("tau", m >= n ? (q ? n : n - 1) : (q ? m - 1 : m)); (void)k;
    o.nullable = {a, t};
    o.call = [=, &o](armas_conf_t *c) { return armas_bdbuild(o[a], o[t], std::min(m, n), q ? ARMAS_WANTQ : ARMAS_WANTP, c); };
    o.bad.push_back({"neither WANTQ nor WANTP", [=, &o] { o.call = [=, &o](armas_conf_t *c) { return armas_bdbuild(o[a], o[t], std::min(m, n), 0, c); }; }});
}
OP(hessreduce, NZ) { int a = o.mat("A", n, n), t = o.tau("tau", n - 1); (void)m; (void)k; o.call = [=, &o](armas_conf_t *c) { return armas_hessreduce(o[a], o[t], c); }; }
OP(hessmult, NZ) { bool r = neg(s); int a = o.mat("A", n, n), t = o.tau("tau", n - 1), c_ = r ? o.mat("C", m, n, "c") : o.mat("C", n, m, "r"); (void)k; o.nullable = {c_, a, t};
    o.call = [=, &o](armas_conf_t *c) { return armas_hessmult(o[c_], o[a], o[t], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
OP(trdreduce, NZ) { bool u = neg(s); int a = o.mat("A", n, n), t = o.tau("tau", n); (void)m; (void)k; o.call = [=, &o](armas_conf_t *c) { return armas_trdreduce(o[a], o[t], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(trdmult, NZ) { bool r = neg(s), u = neg(s); int a = o.mat("A", n, n), t = o.tau("tau", n), c_ = r ? o.mat("C", m, n, "c") : o.mat("C", n, m, "r"); (void)k; o.nullable = {c_, a, t};
    o.call = [=, &o](armas_conf_t *c) { return armas_trdmult(o[c_], o[a], o[t], (r ? ARMAS_RIGHT : ARMAS_LEFT) | (u ? ARMAS_UPPER : ARMAS_LOWER), c); }; }
OP(trdbuild, NZ) { bool u = neg(s); int a = o.mat("A", n, n), t = o.tau("tau", n); (void)m; (void)k; o.nullable = {a, t}; o.call = [=, &o](armas_conf_t *c) { return armas_trdbuild(o[a], o[t], n, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
// ---- linear systems
#define PIV(o) ((o).npiv < 0 ? nullptr : &pv)
OP(cholfactor, 0) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { return armas_cholfactor(o[a], ARMAS_NOPIVOT, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
#define WITHP armas_pivot_t pv; armas_pivot_make(&pv, o.npiv, o.piv.data())
OP(cholfactor_pv, NZ) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n); o.pivot(n); o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_cholfactor(o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(cholsolve, 0) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.call = [=, &o](armas_conf_t *c) { return armas_cholsolve(o[b], o[a], ARMAS_NOPIVOT, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(cholsolve_pv, NZ) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.pivot(n); o.piv_req = -3; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_cholsolve(o[b], o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(cholupdate, NZ) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n), x = o.vec("x", n); o.call = [=, &o](armas_conf_t *c) { return armas_cholupdate(o[a], o[x], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(lufactor, NZ) { int a = o.mat("A", m, n, ""); o.pivot(std::min(m, n)); o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_lufactor(o[a], &pv, c); }; }
OP(lusolve, NZ) { bool t = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.pivot(n); o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_lusolve(o[b], o[a], &pv, t ? ARMAS_TRANS : 0, c); }; }
OP(bkfactor, NZ) { bool u = neg(s); int a = o.mat("A", n, n); o.pivot(n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_bkfactor(o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(bksolve, NZ) { bool u = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.pivot(n); o.nullable = {a, b}; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_bksolve(o[b], o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(ldlfactor, NZ) { bool u = neg(s); int a = o.mat("A", n, n); o.pivot(n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_ldlfactor(o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(ldlfactor_np, NZ) { bool u = neg(s); int a = o.mat("A", n, n); o.call = [=, &o](armas_conf_t *c) { return armas_ldlfactor(o[a], ARMAS_NOPIVOT, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(ldlsolve, NZ) { bool u = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.pivot(n); o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_ldlsolve(o[b], o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(ldlsolve_np, NZ) { bool u = neg(s); int a = o.mat("A", n, n), b = o.mat("B", n, k, "r"); o.call = [=, &o](armas_conf_t *c) { return armas_ldlsolve(o[b], o[a], ARMAS_NOPIVOT, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(inverse_trm, NZ) { int f = (neg(s) ? ARMAS_UPPER : ARMAS_LOWER) | (neg(s) ? ARMAS_UNIT : 0); int a = o.mat("A", n, n); o.call = [=, &o](armas_conf_t *c) { return armas_inverse_trm(o[a], f, c); }; }
OP(luinverse, NZ) { int a = o.mat("A", n, n); o.pivot(n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_luinverse(o[a], &pv, c); }; }
OP(ldlinverse, NZ) { bool u = neg(s); int a = o.mat("A", n, n); o.pivot(n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_ldlinverse(o[a], &pv, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(cholinverse, NZ) { o.spd = true; bool u = neg(s); int a = o.mat("A", n, n); o.nullable = {a}; o.call = [=, &o](armas_conf_t *c) { return armas_cholinverse(o[a], u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(mult_diag, NZ) { bool r = neg(s); int a = o.mat("A", m, n, ""), d = o.vec("d", r ? n : m, "n"); o.call = [=, &o](armas_conf_t *c) { return armas_mult_diag(o[a], 2, o[d], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
OP(solve_diag, NZ) { bool r = neg(s); int a = o.mat("A", m, n, ""), d = o.vec("d", r ? n : m, "n"); o.call = [=, &o](armas_conf_t *c) { return armas_solve_diag(o[a], 2, o[d], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
OP(pivot_rows, NZ) { int a = o.mat("A", m, n, ""); o.pivot(std::min(m, n)); o.piv_req = -2; (void)k;
    o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_pivot(o[a], &pv, ARMAS_PIVOT_ROWS, c); };
    o.bad.push_back({"more pivots than rows", [=, &o] { o.npiv = m + 1; o.piv.assign(m + 1, 1); }}); }
OP(pivot_cols, NZ) { int a = o.mat("A", m, n, ""); o.pivot(std::min(m, n)); o.piv_req = -2; (void)k;
    o.call = [=, &o](armas_conf_t *c) { WITHP; return armas_pivot(o[a], &pv, ARMAS_PIVOT_COLS, c); };
    o.bad.push_back({"more pivots than columns", [=, &o] { o.npiv = n + 1; o.piv.assign(n + 1, 1); }}); }
// ---- eigenproblems and SVD
OP(svd, NZ)
{
    int q = std::min(m, n), wu = s.chance(2, 3) ? ARMAS_WANTU : 0, wv = s.chance(2, 3) ? ARMAS_WANTV : 0;
    bool full = neg(s);
    (void)k;
    int a = o.mat("A", m, n, ""), S = o.tau("S", q), U, V;
    U = wu ? o.mat("U", m, m >= n ? (full ? m : n) : m, "") : o.mat("U", m, m, "");
    V = wv ? o.mat("V", m >= n ? n : (full ? n : m), n, "") : o.mat("V", n, n, "");
    o.what = std::string(wu ? "U" : "") + (wv ? "V" : "");
    if (wu) { o.bad.push_back({"U has wrong number of rows", [=, &o] { o.o[U].r = m + 1; }}); o.bad.push_back({"U has wrong number of columns", [=, &o] { o.o[U].c = std::max(m, n) + 1; }}); o.nullable.push_back(U); }
    if (wv) { o.bad.push_back({"V has wrong number of columns", [=, &o] { o.o[V].c = n + 1; }}); o.bad.push_back({"V has wrong number of rows", [=, &o] { o.o[V].r = std::max(m, n) + 1; }}); o.nullable.push_back(V); }
    o.nullable.push_back(a);
    o.call = [=, &o](armas_conf_t *c) { return armas_svd(o[S], wu ? o[U] : nullptr, wv ? o[V] : nullptr, o[a], wu | wv, c); };
}
OP(bdsvd, NZ)
{
    int wu = s.chance(2, 3) ? ARMAS_WANTU : 0, wv = s.chance(2, 3) ? ARMAS_WANTV : 0;
    (void)k; (void)m;
    int D = o.vec("D", n, "n"), E = o.vec("E", n - 1, "n"), U = o.mat("U", n, n, wu ? "<c" : ""), V = o.mat("V", n, n, wv ? "<r" : "");
    if (wu) o.nullable.push_back(U);
    if (wv) o.nullable.push_back(V);
    o.call = [=, &o](armas_conf_t *c) { return armas_bdsvd(o[D], o[E], wu ? o[U] : nullptr, wv ? o[V] : nullptr, wu | wv | ARMAS_UPPER, c); };
}
OP(eigen_sym, NZ) { bool u = neg(s), v = neg(s); (void)k; (void)m; int D = o.vec("D", n, "n"), a = o.mat("A", n, n);
    o.call = [=, &o](armas_conf_t *c) { return armas_eigen_sym(o[D], o[a], (u ? ARMAS_UPPER : ARMAS_LOWER) | (v ? ARMAS_WANTV : 0), c); }; }
OP(eigen_sym_selected, NZ) { bool u = neg(s); (void)k; (void)m; int D = o.tau("D", n), a = o.mat("A", n, n); o.nullable = {a};
    o.call = [=, &o](armas_conf_t *c) { armas_eigen_parameter_t p; memset(&p, 0, sizeof p); p.ileft = p.iright = -1; return armas_eigen_sym_selected(o[D], o[a], &p, u ? ARMAS_UPPER : ARMAS_LOWER, c); }; }
OP(trdeigen, NZ) { bool v = neg(s); (void)k; (void)m; int D = o.vec("D", n, "n"), E = o.vec("E", n - 1, "n"), V = o.mat("V", n, n, v ? "rc" : ""); if (v) o.nullable = {V};
    o.call = [=, &o](armas_conf_t *c) { return armas_trdeigen(o[D], o[E], v ? o[V] : nullptr, v ? ARMAS_WANTV : 0, c); }; }
OP(trdbisect, NZ) { (void)k; (void)m; int Y = o.tau("Y", n), D = o.vec("D", n, "n"), E = o.vec("E", n - 1, "n");
    o.call = [=, &o](armas_conf_t *c) { armas_eigen_parameter_t p; memset(&p, 0, sizeof p); p.ileft = p.iright = -1; return armas_trdbisect(o[Y], o[D], o[E], &p, c); }; }
OP(dqds, NZ) { (void)k; (void)m; int D = o.vec("D", n, "n"), E = o.vec("E", n - 1, "n"); o.nullable = {D, E};
    o.call = [=, &o](armas_conf_t *c) { for (int i = 0; i < 2; i++) if (armas_dense_t *x = o[i ? E : D]) for (int j = 0; j < armas_size(x); j++) armas_set_at_unsafe(x, j, fabs(armas_get_at_unsafe(x, j)) + 0.5); o.m[D].snapshot(); o.m[E].snapshot(); return armas_dqds(o[D], o[E], c); }; }
OP(trdsec_eigen, NZ) { (void)k; (void)m; int Q = o.mat("Q", n, n), v = o.vec("v", n, "n"), Qd = o.mat("Qd", n, n); o.call = [=, &o](armas_conf_t *c) { return armas_trdsec_eigen(o[Q], o[v], o[Qd], c); }; }
OP(trdsec_solve, NZ) { (void)k; (void)m; int y = o.vec("y", n, "n"), d = o.vec("d", n, "n"), z = o.vec("z", n, "n"), dl = o.vec("delta", n, "n");
    o.call = [=, &o](armas_conf_t *c) { for (int j = 0; j < armas_size(o[d]); j++) armas_set_at_unsafe(o[d], j, j + 1.0); o.m[d].snapshot(); return armas_trdsec_solve(o[y], o[d], o[z], o[dl], 1.0, c); }; }
// ---- reflectors, butterflies
OP(houseapply, NZ) { bool r = neg(s), sc = neg(s); int p = r ? n : m, w = r ? m : n; if (p < 2) p = 2; int a = r ? o.mat("A", w, p, "c") : o.mat("A", p, w, "r"), t = o.mat("tau", 1, 1, ""), v = o.vec("v", sc ? p - 1 : p, "n"), W = o.tau("w", w); (void)k;
    o.what = std::string(r ? "right" : "left") + (sc ? " unit" : "");
    o.call = [=, &o](armas_conf_t *c) { return armas_houseapply(o[a], sc ? o[t] : nullptr, o[v], o[W], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
OP(housemult, NZ) { bool r = neg(s), un = neg(s); int p = std::max(2, n); int q = std::min(p, k < 1 ? 1 : k); int a = r ? o.mat("A", std::max(2, m), p, "c") : o.mat("A", p, std::max(2, m), "r"), t = o.tau("tau", q, un ? "n" : ""), Q = o.mat("Q", p, q, "r");
    o.call = [=, &o](armas_conf_t *c) { return armas_housemult(o[a], o[t], o[Q], (r ? ARMAS_RIGHT : ARMAS_LEFT) | (un ? ARMAS_UNIT : 0), c); }; }
OP(houseapply2x1, NZ) { bool r = neg(s); int p = std::max(2, m), q = std::max(2, n), v0 = r ? q : p; int a1 = r ? o.mat("a1", p, 1, "") : o.mat("a1", 1, q, ""), A2 = o.mat("A2", p, q), t = o.mat("tau", 1, 1, ""), v = o.vec("v", v0, "n"), W = o.tau("w", r ? p : q); (void)k;
    o.what = r ? "right" : "left";
    o.call = [=, &o](armas_conf_t *c) { return armas_houseapply2x1(o[a1], o[A2], o[t], o[v], o[W], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
OP(hhouse_apply, NZ) { bool r = neg(s); int p = std::max(2, m), q = std::max(2, n), v0 = r ? q : p; int a1 = r ? o.mat("a1", p, 1, "") : o.mat("a1", 1, q, ""), A2 = o.mat("A2", p, q), t = o.mat("tau", 1, 1, ""), v = o.vec("v", v0, "n"), W = o.tau("w", r ? p : q); (void)k;
    o.what = r ? "right" : "left";
    o.call = [=, &o](armas_conf_t *c) { return armas_hhouse_apply(o[t], o[v], o[a1], o[A2], o[W], r ? ARMAS_RIGHT : ARMAS_LEFT, c); }; }
#define REFL(nm, TALL) \
OP(nm##reflector, NZ) { int p = std::max(m, n), q = std::min(m, n); int T = o.mat("T", q, q, "<r"), a = TALL ? o.mat("A", p, q, "") : o.mat("A", q, p, ""), t = o.tau("tau", q); (void)k; \
    if (q > 1) o.bad.push_back({"T has too few columns", [=, &o] { o.o[T].c = q - 1; }}); \
    o.call = [=, &o](armas_conf_t *c) { return armas_##nm##reflector(o[T], o[a], o[t], c); }; }
REFL(qr, true)
REFL(lq, false)
REFL(ql, true)
REFL(rq, false)
OP(trdsec_solve_vec, NZ) { (void)k; (void)m; int y = o.vec("y", n, "n"), v = o.vec("v", n, "n"), Qd = o.mat("Qd", n, n), d = o.vec("d", n, "n"), z = o.vec("z", n, "n");
    o.call = [=, &o](armas_conf_t *c) { for (int j = 0; j < armas_size(o[d]); j++) armas_set_at_unsafe(o[d], j, j + 1.0); o.m[d].snapshot(); return armas_trdsec_solve_vec(o[y], o[v], o[Qd], o[d], o[z], 1.0, c); }; }
OP(mult_rbt, NZ) { bool r = neg(s); (void)k; int d = s.range(1, 2), w = r ? n : m, N = ((w + (1 << d) - 1) >> d) << d; int a = r ? o.mat("A", m, N, "") : o.mat("A", N, n, ""), R = o.mat("R", N, d, ""); bool tr = neg(s);
    o.what = r ? "right" : "left";
    o.bad.push_back({"R rows", [=, &s, &o] { o.o[R].r = other(s, N); }});
    o.call = [=, &o](armas_conf_t *c) { return armas_mult_rbt(o[a], o[R], (r ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0), c); }; }
OP(update2_rbt, NZ) { (void)k; (void)m; int d = s.range(1, 2), N = ((n + (1 << d) - 1) >> d) << d; int a = o.mat("A", n, n), U = o.mat("U", N, d, ""), V = o.mat("V", N, d, "rc");
    o.call = [=, &o](armas_conf_t *c) { return armas_update2_rbt(o[a], o[U], o[V], c); }; }
OP(mnorm, NZ) { (void)k; o.scalar = true; int a = o.mat("A", std::max(2, m), std::max(2, n), ""); int w = s.pickl({ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB});
    o.call = [=, &o](armas_conf_t *c) { g_res = armas_mnorm(o[a], w, c); return 0; };
    o.bad.push_back({"unknown norm", [=, &o] { o.call = [=, &o](armas_conf_t *c) { g_res = armas_mnorm(o[a], 77, c); return 0; }; }});
    o.bad.push_back({"unimplemented norm", [=, &o] { o.call = [=, &o](armas_conf_t *c) { g_res = armas_mnorm(o[a], ARMAS_NORM_TWO, c); return 0; }; }}); }

void gen_perturb(Src &s, Op &o)
{
    for (size_t i = 0; i < o.o.size(); i++) {
        Opd &d = o.o[i];
        Opd *p = &d;
        std::string nm = d.name;
        auto has = [&](char ch) { return d.mask.find(ch) != std::string::npos; };
        if (d.kind == 'M') {
            bool less = has('<');
            if (has('r')) o.bad.push_back({nm + " rows", [=, &s] { int v = less ? smaller(s, p->r) : other(s, p->r); if (v < 0) throw pbt::Discard(); p->r = v; }});
            if (has('c')) o.bad.push_back({nm + " columns", [=, &s] { int v = less ? smaller(s, p->c) : other(s, p->c); if (v < 0) throw pbt::Discard(); p->c = v; }});
        } else if (d.kind == 'V') {
            if (has('n')) o.bad.push_back({nm + " length", [=, &s] { p->r = other(s, p->r, 1); }});
            if (has('v')) o.bad.push_back({nm + " not a vector", [=, &s] { p->kind = 'M'; if (p->r < 2) p->r = 2; p->c = s.range(2, 4); }});
        } else {
            if (nm.compare(0, 3, "tau") == 0 && p->r > 1 && (has('<') || has('n'))) o.bad.push_back({nm + " is a row", [=] { p->kind = 'R'; }});
            if (has('<')) o.bad.push_back({nm + " too short", [=, &s] { int v = smaller(s, p->r); if (v < 0) throw pbt::Discard(); p->r = v; }});
            if (has('n')) o.bad.push_back({nm + " length", [=, &s] { p->r = other(s, p->r, 1); }});
        }
    }
    for (int i : o.nullable) o.bad.push_back({std::string(o.o[i].name) + " absent", [=, &o] { o.absent = i; }});
    if (o.use_piv && o.piv_req >= 0) o.bad.push_back({"pivot vector too short", [=, &s, &o] { int v = smaller(s, o.piv_req); if (v < 0) throw pbt::Discard(); o.npiv = v; }});
}
}

TARGET(valid, operands, 1)
{
    const Def &df = defs()[s.below((int)defs().size())];
    int how = s.weighted({6, 2, 1});        // invalid, valid, empty
    bool empty = how == 2 && (df.flags & EMPTY);
    if (how == 2 && !empty) how = 0;
    env_vary(s, c);
    Conf cf = cfg(s, c, {ARMAS_ONAIVE});
    cf.work = nullptr;
    auto dd = [&] { return s.chance(1, 6) ? s.range(8, 70) : s.range(2, 9); };
    int m = dd(), n = s.chance(1, 3) ? m : dd(), k = s.chance(1, 4) ? n : dd();
    if (empty) { int w = s.range(1, 7); if (w & 1) m = 0; if (w & 2) n = 0; if (w & 4) k = 0; }
    Op o;
    df.f(s, o, m, n, k);
    if (o.use_piv) { o.npiv = o.piv_req == -2 ? std::min(m, n) : o.piv_req == -3 ? n : o.piv_req; for (int i = 0; i < o.npiv; i++) o.piv.push_back(i + 1); }
    bool isempty = false;
    for (auto &d : o.o) if (d.r * d.c == 0) isempty = true;
    if (empty && !isempty) c.discard();
    std::string bad = empty ? "empty" : "valid";
    if (how == 0) {
        gen_perturb(s, o);
        if (o.bad.empty()) c.discard();
        Bad b = o.bad[s.below((int)o.bad.size())];
        b.f();
        bad = b.what;
    }
    std::string shp;
    uint32_t sd = s.seed();
    for (size_t i = 0; i < o.o.size(); i++) {
        Opd &d = o.o[i];
        if (d.kind == 'M') o.m.push_back(mk(s, d.r, d.c));
        else if (d.kind == 'R') o.m.push_back(mkrow(s, d.r));
        else if (d.kind == 'V') o.m.push_back(mkvec(s, d.r));
        else o.m.push_back(mkcol(s, d.r + (how && s.chance(1, 4) && strcmp(d.name, "tau") && strcmp(d.name, "tauq") ? 1 : 0)));
        Mat &M = o.m.back();
        fill_mode(M, DM_UNI, sd + (uint32_t)i);
        if (M.r() == M.c()) for (int j = 0; j < M.r(); j++) M.e(j, j) = 2.0 * M.r() + fabs(M.e(j, j));
        if (o.spd) for (int j = 0; j < M.c(); j++) for (int q = j + 1; q < M.r(); q++) if (M.r() == M.c()) M.e(j, q) = M.e(q, j);
        shp += std::string(" ") + d.name + "=" + ((int)i == o.absent ? "null" : sh(M));
    }
    if (o.use_piv) shp += " P=" + std::to_string(o.npiv);
    c.d("%s %s:%s%s", df.name, o.what.c_str(), shp.c_str(), (" (" + bad + ")").c_str());
    c.nontrivial = how == 0;
    c.label(how == 0 ? "nonconforming" : empty ? "empty" : "conforming");
    for (auto &M : o.m) M.snapshot();
    std::vector<int> p0 = o.piv;
    cf.clear();
    int rc = o.call(&cf);
    if (how == 0) {
        if (o.scalar ? cf.err() == 0 : rc >= 0) c.fail("%s: non-conforming call (%s) was not rejected, returned %d, error %d", df.name, bad.c_str(), rc, cf.err());
        if (cf.err() <= 0 || cf.err() > 13) c.fail("%s: rejected call (%s) recorded error code %d", df.name, bad.c_str(), cf.err());
        if (!o.scalar && rc < -1 && rc != -cf.err()) c.fail("%s: rejected call (%s) returned %d but recorded error code %d", df.name, bad.c_str(), rc, cf.err());
        if (o.piv != p0) c.fail("%s: rejected call (%s) modified pivots", df.name, bad.c_str());
    } else if (empty) {
        if (o.scalar) { if (cf.err()) c.fail("%s: empty operands reported as error %d", df.name, cf.err()); }
        else if (rc != 0) c.fail("%s: empty operands rejected, returned %d, error %d", df.name, rc, cf.err());
    } else {
        if ((o.scalar || rc < 0) && (cf.err() == ARMAS_ESIZE || cf.err() == ARMAS_ENEED_VECTOR || cf.err() == ARMAS_EINVAL || cf.err() == ARMAS_EIMP || cf.err() == ARMAS_EWORK))
            c.fail("%s: conforming operands were rejected, returned %d, error %d", df.name, rc, cf.err());
        return;
    }
    for (size_t i = 0; i < o.m.size(); i++) {
        Mat &M = o.m[i];
        for (size_t j = 0; j < M.len; j++)
            if (memcmp(&M.base[j], &M.snap[j], sizeof(double))) c.fail("%s: %s call (%s) modified operand %s", df.name, empty ? "empty" : "rejected", bad.c_str(), o.o[i].name);
    }
}
