#include "la.h"
using namespace pbt;

LM mul(const LM &A, const LM &B)
{
    LM C(A.r, B.c);
    for (int j = 0; j < B.c; j++)
        for (int k = 0; k < A.c; k++) {
            LD b = B(k, j);
            if (b == 0) continue;
            const LD *pa = &A.a[(size_t)k * A.r];
            LD *pc = &C.a[(size_t)j * A.r];
            for (int i = 0; i < A.r; i++) pc[i] += pa[i] * b;
        }
    return C;
}
LM tr(const LM &A)
{
    LM B(A.c, A.r);
    for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) B(j, i) = A(i, j);
    return B;
}
LM absm(const LM &A) { LM B = A; for (auto &x : B.a) x = fabsl(x); return B; }
LM eye(int n) { LM B(n, n); for (int i = 0; i < n; i++) B(i, i) = 1; return B; }
LM add(LD a, const LM &A, LD b, const LM &B)
{
    LM C(A.r, A.c);
    for (size_t i = 0; i < C.a.size(); i++) C.a[i] = a * A.a[i] + b * B.a[i];
    return C;
}
LM sub(const LM &A, const LM &B) { return add(1, A, -1, B); }
LD normF(const LM &A)
{
    LD mx = normMax(A);
    if (!(mx > 0) || !std::isfinite((double)mx)) return mx;
    LD s = 0;
    for (LD x : A.a) s += (x / mx) * (x / mx);
    return mx * sqrtl(s);
}
LD normMax(const LM &A) { LD m = 0; for (LD x : A.a) { if (!(fabsl(x) <= LDBL_MAX)) return INFINITY; m = std::max(m, fabsl(x)); } return m; }
LD norm1(const LM &A) { LD m = 0; for (int j = 0; j < A.c; j++) { LD s = 0; for (int i = 0; i < A.r; i++) s += fabsl(A(i, j)); m = std::max(m, s); } return m; }
LD normInf(const LM &A) { return norm1(tr(A)); }
LM cols(const LM &A, int j, int n) { LM B(A.r, n); for (int k = 0; k < n; k++) for (int i = 0; i < A.r; i++) B(i, k) = A(i, j + k); return B; }
LM rows(const LM &A, int i0, int n) { LM B(n, A.c); for (int k = 0; k < A.c; k++) for (int i = 0; i < n; i++) B(i, k) = A(i0 + i, k); return B; }
LM tri(const LM &A, bool upper, bool unit)
{
    LM B(A.r, A.c);
    for (int j = 0; j < A.c; j++)
        for (int i = 0; i < A.r; i++)
            if (i == j) B(i, j) = unit ? 1 : A(i, j);
            else if (upper ? i < j : i > j) B(i, j) = A(i, j);
    return B;
}
LM symm(const LM &A, bool upper)
{
    LM B(A.r, A.c);
    for (int j = 0; j < A.c; j++)
        for (int i = 0; i < A.r; i++) B(i, j) = (upper ? i <= j : i >= j) ? A(i, j) : A(j, i);
    return B;
}

LM Mat::lm() const
{
    LM A(r(), c());
    for (int j = 0; j < c(); j++) for (int i = 0; i < r(); i++) A(i, j) = e(i, j);
    return A;
}
LM Mat::lmv() const
{
    LM A(n(), 1);
    for (int j = 0; j < n(); j++) A(j, 0) = v(j);
    return A;
}
void Mat::set(const LM &A)
{
    for (int j = 0; j < c(); j++) for (int i = 0; i < r(); i++) e(i, j) = (double)A(i, j);
}

static void garbage(double *p, size_t n)
{
    uint64_t s = 0xabcdef12345ULL + n;
    for (size_t i = 0; i < n; i++) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        int ex = 30 + (int)((s >> 33) % 60);
        p[i] = ldexp(1.0 + (double)((s >> 20) & 0xffff) / 65536.0, ex) * ((s >> 60) & 1 ? 1 : -1);
    }
}
// parent allocation with `before`/`after` guard elements
static void alloc(Mat &A, int r, int c, int step, size_t before, size_t after, bool pad_in_exact)
{
    size_t body = (r > 0 && c > 0) ? (size_t)(c - 1) * step + r : 0;
    if (mode.exact) before = after = 0;
    A.len = before + body + after;
    size_t shift = 0;
    A.raw = ::malloc(A.len * sizeof(double) + shift + (A.len ? 0 : 1));
    A.base = (double *)A.raw;
    garbage(A.base, A.len);
    armas_make(&A.m, r, c, step, A.base + before);
}

Mat mk(Src &s, int r, int c)
{
    Mat A;
    int w = s.weighted({3, 3, 2});
    int pad = 0, before = 0, after = 0;
    if (w == 1) { pad = s.range(0, 5); before = s.range(0, 9); after = 4; }
    else if (w == 2) { pad = s.range(1, 40); before = s.range(1, 64); after = 40; }
    else { before = after = 2 * !mode.exact; }
    int step = std::max(1, r + pad);
    alloc(A, r, c, step, before, after + (c > 0 ? step - r : 0), false);
    return A;
}
Mat mkcol(Src &s, int n)
{
    Mat A;
    int pad = s.chance(1, 2) ? s.range(0, 7) : 0;
    if (s.chance(1, 20)) pad = s.range(8, 300);
    int before = s.range(0, 5);
    alloc(A, n, 1, std::max(1, n + pad), before, 5 + pad, false);
    return A;
}
Mat mkrow(Src &s, int n)
{
    Mat A;
    int step = s.chance(2, 3) ? s.range(1, 6) : 1;
    if (n < 1500 && s.chance(1, 20)) step = s.range(7, 80);
    int before = s.range(0, 5);
    alloc(A, 1, n, step, before, 5 + step, false);
    return A;
}
bool share(Src &s, Case &c, Mat &A, Mat &B)
{
    if (!s.chance(1, 8)) return false;
    if (B.r() > A.r() || B.c() > A.c() || !A.n() || !B.n()) return false;
    int i = s.range(0, A.r() - B.r()), j = s.range(0, A.c() - B.c());
    armas_dense_t v = A.m;
    v.elems = &A.e(i, j);
    v.rows = B.m.rows;
    v.cols = B.m.cols;
    ::free(B.raw);
    B.raw = nullptr;
    B.m = v;
    B.base = A.base;
    B.len = A.len;
    c.d(" (second operand is the view at %d,%d of the first)", i, j);
    c.label("shared");
    return true;
}
Mat mkvec(Src &s, int n) { return s.chance(1, 2) ? mkrow(s, n) : mkcol(s, n); }
Mat tight(int r, int c)
{
    Mat A;
    alloc(A, r, c, std::max(1, r), 0, 0, false);
    return A;
}

const char *dm_name(int m)
{
    static const char *nm[] = {"int", "uni", "zeros", "normal", "pos", "graded", "one", "scaled", "mixed"};
    return m >= 0 && m < DM_N ? nm[m] : "?";
}
void fill_mode(Mat &A, int dm, uint32_t seed)
{
    Rng g(seed);
    int rs = (int)(seed % 21) - 10;
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            double x = 0;
            switch (dm) {
            case DM_INT: x = g.below(7) - 3; break;
            case DM_UNI: x = g.sym(); break;
            case DM_ZEROS: x = g.below(3) ? 0 : g.sym(); break;
            case DM_NORMAL: x = g.normal(); break;
            case DM_POS: x = 1 + i + 0.001 * j + 0.0000001 * (seed & 255); break;
            case DM_GRADED: x = g.sym() * ldexp(1.0, -((i + j) % 40)); break;
            case DM_ONE: x = 1; break;
            case DM_SCALED: x = g.sym() * ldexp(1.0, 4 * rs); break;
            case DM_MIXED: x = g.sym() * ldexp(1.0, -g.below(26)); break;
            }
            A.e(i, j) = x;
        }
}
int fill(Src &s, Mat &A)
{
    int dm = s.weighted({5, 6, 2, 3, 2, 2, 1, 2, 2});
    uint32_t sd = s.seed();
    fill_mode(A, dm, sd);
    return dm;
}
double rnd_scalar(Src &s)
{
    static const double k[] = {1.0, 0.0, -1.0, 2.0, 0.5, -0.75, 1.25};
    int i = (int)s.draw(10);
    if (i < 7) return k[i];
    return Rng(s.seed()).sym() * 3;
}

static bool biteq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
void frame_const(Case &c, const Mat &A, const char *name)
{
    if (!mode.frame) return;
    for (size_t i = 0; i < A.len; i++)
        if (!biteq(A.base[i], A.snap[i])) {
            long o = (long)i - (long)(A.m.elems - A.base);
            c.fail("frame: read-only operand %s (%dx%d step %d) modified at memory offset %ld from its first element: %.17g -> %.17g", name,
                   A.r(), A.c(), A.m.step, o, A.snap[i], A.base[i]);
        }
}
void frame_except(Case &c, const Mat &A, const char *name, const Mask &result)
{
    if (!mode.frame) return;
    std::vector<char> ok(A.len, 0);
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            if (result(i, j)) ok[A.pos(i, j)] = 1;
    for (size_t i = 0; i < A.len; i++)
        if (!ok[i] && !biteq(A.base[i], A.snap[i])) {
            long o = (long)i - (long)(A.m.elems - A.base);
            c.fail("frame: memory outside the result part of %s (%dx%d step %d) modified at offset %ld (row %ld, col %ld): %.17g -> %.17g", name,
                   A.r(), A.c(), A.m.step, o, o % A.m.step, o / A.m.step, A.snap[i], A.base[i]);
        }
}
void cmp(Case &c, const char *what, double got, LD ref, LD absb, double mult)
{
    if (!mode.value) return;
    if (fabsl(absb) > 1e300L) return;
    LD tol = mult * UEPS * absb + mult * DBL_MIN;
    if (!(fabsl((LD)got - ref) <= tol))
        c.fail("%s: got %.17g, expected %.17Lg, error %.3Lg exceeds bound %.3Lg", what, got, ref, fabsl((LD)got - ref), tol);
}
void cmpm(Case &c, const char *what, const Mat &got, const LM &ref, const LM &absb, double mult)
{
    if (!mode.value) return;
    for (int j = 0; j < ref.c; j++)
        for (int i = 0; i < ref.r; i++) {
            LD tol = mult * UEPS * absb(i, j) + mult * DBL_MIN;
            LD g = got.e(i, j);
            if (!(fabsl(g - ref(i, j)) <= tol))
                c.fail("%s: element (%d,%d) is %.17Lg, expected %.17Lg, error %.3Lg exceeds bound %.3Lg", what, i, j, g, ref(i, j), fabsl(g - ref(i, j)), tol);
        }
}
void cmpv(Case &c, const char *what, const Mat &got, const LM &ref, const LM &absb, double mult)
{
    if (!mode.value) return;
    for (int i = 0; i < ref.r; i++) {
        LD tol = mult * UEPS * absb(i, 0) + mult * DBL_MIN;
        LD g = got.v(i);
        if (!(fabsl(g - ref(i, 0)) <= tol))
            c.fail("%s: element %d is %.17Lg, expected %.17Lg, error %.3Lg exceeds bound %.3Lg", what, i, g, ref(i, 0), fabsl(g - ref(i, 0)), tol);
    }
}
void small(Case &c, const char *what, LD err, LD bound)
{
    if (!mode.value) return;
    if (!(err <= bound)) c.fail("%s: %.4Lg exceeds bound %.4Lg", what, err, bound);
}
bool finite(const Mat &A)
{
    for (int j = 0; j < A.c(); j++) for (int i = 0; i < A.r(); i++) if (!std::isfinite(A.e(i, j))) return false;
    return true;
}
bool all_finite(const LM &A) { for (LD x : A.a) if (!(fabsl(x) <= LDBL_MAX)) return false; return true; }
void need_finite(Case &c, const char *what, const Mat &A)
{
    if (!mode.value) return;
    if (!finite(A)) c.fail("%s contains a non-finite value", what);
}
thread_local bool large_case = false;      // all dimensions of the case beyond the default block sizes
int dim(Src &s, int big)
{
    if (large_case) return s.range(big, 4 * big);
    int w = s.weighted({10, 6, 3, 2});
    if (mode.maxdim > 0) big = std::min(big, mode.maxdim);
    switch (w) {
    case 0: return s.range(0, std::min(big, 9));
    case 1: return s.range(1, std::min(big, 24));
    case 2: return s.range(1, std::min(big, 70));
    default: return s.range(1, big);
    }
}
extern thread_local bool vf_in_thread;
Conf conf0()
{
    Conf cf;
    large_case = false;
    *(armas_conf_t *)std::addressof(cf) = *armas_conf_default();
    cf.error = 0;
    cf.null = !vf_in_thread && !mode.strings && pbt::cur && pbt::cur->chance(1, 8);
    cf.clear();
    // what an earlier failed operation may have left
    if (!vf_in_thread && !mode.strings && pbt::cur && pbt::cur->chance(1, 8)) {
        cf.error = pbt::cur->range(1, 13);
        if (cf.null) armas_conf_default()->error = cf.error;
    }
    return cf;
}
static armas_env_t g_env0, g_env_set;
static armas_conf_t g_conf0;
static bool env_equal(const armas_env_t &a, const armas_env_t &b)
{
    return a.mb == b.mb && a.nb == b.nb && a.kb == b.kb && a.lb == b.lb && a.blas1min == b.blas1min && a.blas2min == b.blas2min &&
           a.cmem == b.cmem && a.l1mem == b.l1mem && a.fixed == b.fixed;
}
void env_saved() { g_env_set = *armas_getenv(); }
// operations use the configuration and do not change it
static void env_check()
{
    if (mode.strings || vf_in_thread) return;
    if (!env_equal(*armas_getenv(), g_env_set)) throw pbt::Failure{"", "blocking configuration was changed by an operation"};
    const armas_conf_t &d = *armas_conf_default();
    if (d.optflags != g_conf0.optflags || d.tolmult != g_conf0.tolmult || d.work != g_conf0.work || d.accel != g_conf0.accel ||
        d.maxiter != g_conf0.maxiter || d.gmres_m != g_conf0.gmres_m || d.stop != g_conf0.stop || d.smult != g_conf0.smult)
        throw pbt::Failure{"", "default configuration block was changed by an operation"};
}
static bool g_inited = false, g_env_dirty = false;
void init_once()
{
    if (g_inited) return;
    g_inited = true;
    g_env0 = *armas_getenv();
    g_conf0 = *armas_conf_default();
}
void env_reset()
{
    if (mode.strings) return;     // the library is not used in this process
    init_once();
    if (g_env_dirty) {
        *armas_getenv() = g_env0;
        armas_cbuf_release_thread_global();
        g_env_dirty = false;
    }
    g_env_set = g_env0;
}
void env_touch() { g_env_dirty = true; }
void env_vary(Src &s, Case &c)
{
    if (vf_in_thread) return;
    init_once();
    armas_env_t *e = armas_getenv();
    int w = mode.cfg ? s.weighted({2, 4, 3, 2, 6, 4}) : s.weighted({4, 3, 3, 2});
    if (w == 0) { c.label("env-default"); return; }
    g_env_dirty = true;
    if (w >= 4) {          // unusual settings (configuration independence)
        auto blk = [&]() -> int {
            switch (s.weighted({4, 3, 2, 2})) {
            case 0: return s.range(1, 40);
            case 1: return 4 * s.range(1, 24);
            case 2: return s.pickl({1, 2, 3, 5, 7, 9, 63, 65, 100, 1000});
            default: return 1 << s.range(0, 10);
            }
        };
        e->mb = blk();
        e->nb = blk();
        e->kb = blk();
        e->fixed = w == 4;
        if (w == 5 || s.chance(1, 2)) {
            e->cmem = 4096 + 8 * s.below(s.pickl({64, 512, 4096, 32768}));
            e->l1mem = s.pickl({1024, 1 << 15, 1 << 20, 1025, 2048, 4000});
        }
        c.label(w == 4 ? "env-fixed-any" : "env-ratio-any");
        e->lb = s.chance(1, 2) ? s.range(0, 40) : s.pickl({64, 0, 1, 2, 3, 100, 128, 1000});
        e->blas1min = s.pickl({1024, 2, 3, 8, 17, 100000});
        e->blas2min = s.pickl({256, 2, 3, 5, 16, 33, 100000});
        armas_cbuf_release_thread_global();
        env_saved();
        c.d("env{mb=%d nb=%d kb=%d lb=%d b1=%d b2=%d cmem=%zu l1=%zu fixed=%d} ", e->mb, e->nb, e->kb, e->lb, e->blas1min, e->blas2min, e->cmem, e->l1mem, e->fixed);
        return;
    }
    if (w == 1) {          // small fixed blocks
        e->mb = 4 * s.range(1, 8);
        e->nb = 4 * s.range(1, 8);
        e->kb = 4 * s.range(1, 10);
        e->fixed = 1;
        c.label("env-fixed");
    } else if (w == 2) {   // small cache, proportional blocks
        e->cmem = 4096 << s.range(0, 4);
        e->l1mem = 1024 << s.range(0, 3);
        c.label("env-cache");
    } else {
        e->mb = 32 * s.range(1, 6);
        e->nb = 32 * s.range(1, 6);
        e->kb = 32 * s.range(1, 8);
        e->cmem = 65536 << s.range(0, 3);
        c.label("env-ratio");
    }
    e->lb = s.pickl({64, 0, 4, 8, 12, 16, 32, 6, 20});
    if (s.chance(1, 2)) { e->blas1min = s.pickl({1024, 8, 16, 64}); e->blas2min = s.pickl({256, 8, 16, 40}); }
    armas_cbuf_release_thread_global();
    env_saved();
    c.d("env{mb=%d nb=%d kb=%d lb=%d b1=%d b2=%d cmem=%zu l1=%zu fixed=%d} ", e->mb, e->nb, e->kb, e->lb, e->blas1min, e->blas2min, e->cmem, e->l1mem, e->fixed);
}
std::string sh(const Mat &A)
{
    char b[96];
    snprintf(b, sizeof b, "%dx%d/%d", A.r(), A.c(), A.m.step);
    return b;
}
std::function<void(Src &, Case &, armas_conf_t &)> cfg_accel;
static thread_local std::vector<void *> g_allocs;
static thread_local std::vector<armas_wbuf_t *> g_wbufs;
static thread_local std::vector<std::pair<char *, size_t>> g_guards;
thread_local bool vf_in_thread;
void guards_check()
{
    for (auto &g : g_guards)
        for (size_t i = 0; i < g.second; i++)
            if (g.first[i] != 0x5a) throw pbt::Failure{"", "memory " + std::to_string(i) + " bytes behind the user supplied cache buffer was modified"};
}
double *case_alloc(size_t bytes)
{
    void *p = ::malloc(bytes ? bytes : 1);
    g_allocs.push_back(p);
    return (double *)p;
}
void oom(Case &c, const char *what, int rc, const Conf &cf)
{
#ifdef VF_ALLOC
    if (!mode.inject || !pbt::vf_failed()) return;
    if (cf.err() == ARMAS_ESINGULAR || cf.err() == ARMAS_ENEGATIVE) return;     // the matrix may be
    if (cf.err() != ARMAS_EMEMORY) c.fail("%s returned %d with error code %d, EMEMORY is %d", what, rc, cf.err(), ARMAS_EMEMORY);
    throw pbt::Injected{};
#endif
}
void oomnull(Case &c, const char *what, const armas_conf_t *cf)
{
#ifdef VF_ALLOC
    if (!mode.inject || !pbt::vf_failed()) return;
    if (cf && cf->error != ARMAS_EMEMORY) c.fail("%s failed with error code %d, EMEMORY is %d", what, cf->error, ARMAS_EMEMORY);
    throw pbt::Injected{};
#endif
}
void case_cleanup()
{
    for (void *p : g_allocs) ::free(p);
    for (auto *w : g_wbufs) delete w;
    g_allocs.clear();
    g_wbufs.clear();
    g_guards.clear();
}
// what earlier operations may have left in a buffer
static void stale(void *p, size_t n, int how)
{
    static const double v[] = {NAN, INFINITY, -INFINITY, 1e300, 0};
    double *d = (double *)p;
    for (size_t i = 0; i < n / sizeof(double); i++) d[i] = v[how];
}
Conf cfg(Src &s, Case &c, std::initializer_list<int> opts)
{
    if (mode.cfg || s.chance(1, 3)) env_vary(s, c);
    if (!mode.inject && s.chance(1, mode.cfg ? 2 : 4)) {
        armas_cbuf_t *cb = armas_cbuf_get_thread_global();
        int how = s.below(5);
        if (cb) { stale(cb->data, std::min(cb->len, (size_t)1 << 20), how); c.label("stale buffer"); }
    }
    Conf cf = conf0();
    large_case = mode.maxdim == 0 && !mode.exact && !mode.inject && !vf_in_thread && !cfg_accel && s.chance(1, mode.thorough ? 300 : 1200);
    if (large_case) c.label("large case");
    if (opts.size() && s.chance(1, 2)) cf.optflags |= s.pickl(opts);
    // algorithm options reach every operation that is built on others
    if (s.chance(1, opts.size() ? 12 : 6)) {
        cf.optflags |= s.pickl({ARMAS_ONAIVE, ARMAS_ORECURSIVE, ARMAS_ONAIVE | ARMAS_ORECURSIVE, ARMAS_OKAHAN, ARMAS_OPAIRWISE, ARMAS_OBLAS_RECURSIVE, ARMAS_OBLAS_BLOCKED, ARMAS_OBLAS_TILED});
        c.label("blas option");
        c.d("opt=%x ", cf.optflags);
    }
    int b = s.weighted({mode.cfg ? 4 : 12, 2, 2});
    if (armas_getenv()->cmem > (size_t)1 << 24) b = 0;
    if (b == 1) { cf.optflags |= ARMAS_CBUF_LOCAL; c.label("cbuf-local"); }
    else if (b == 2) {
        // user supplied buffer, anything from too small upwards
        size_t cm = armas_getenv()->cmem;
        size_t n = cm + s.pickl({64, 0, 8, 72, 4096, -64, -8}) + 8 * s.range(0, 9);
        armas_wbuf_t *w = new armas_wbuf_t();
        size_t shift = mode.exact ? 0 : 8 * s.range(0, 7);
        size_t guard = mode.exact ? 0 : 128;
        w->buf = (char *)case_alloc(n + shift + guard) + shift;
        memset(w->buf + n, 0x5a, guard);
        if (guard) g_guards.push_back({w->buf + n, guard});
        w->bytes = n;
        w->offset = 0;
        stale(w->buf, n, s.below(5));
        g_wbufs.push_back(w);
        cf.work = w;
        c.label("cbuf-user");
    }
    if (cfg_accel) cfg_accel(s, c, cf);
    if (cf.null && cf.same()) c.label("default conf");
    return cf;
}
void pollute(Mat &A, int how, const Mask &unref)
{
    if (how == POL_KEEP) return;
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++)
            if (unref(i, j)) A.e(i, j) = how == POL_NAN ? NAN : ldexp(1.0 + (i * 7 + j) % 13, 60) * ((i + j) & 1 ? -1 : 1);
}
int polkind(Src &s) { return s.pickl({POL_BIG, POL_NAN, POL_KEEP}); }
LM trioperand(Src &s, Mat &A, bool upper, bool unit)
{
    LM r = tri(A.lm(), upper, unit);
    pollute(A, polkind(s), [=](int i, int j) { return (i == j) ? unit : (upper ? i > j : i < j); });
    return r;
}
LM symoperand(Src &s, Mat &A, bool upper)
{
    LM r = symm(A.lm(), upper);
    pollute(A, polkind(s), [=](int i, int j) { return upper ? i > j : i < j; });
    return r;
}
namespace {
struct Init { Init() { pbt::before_case = []() { case_cleanup(); env_reset(); }; pbt::after_case_ok = []() { guards_check(); env_check(); }; } } init_;
}
