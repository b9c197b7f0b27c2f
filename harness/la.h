// Operands, references and comparisons shared by all checks.
#ifndef VF_LA_H
#define VF_LA_H
#include "engine.h"
#include "api.h"
#undef MAX
#undef MIN
#undef SIGN
#undef EPS
#undef ABS
#undef ONE
#undef ZERO
#undef TWO
#undef HALF
#undef SQRT
#undef HYPOT
#undef POW
#undef EXP
#undef ABSZERO
#undef ABSONE
using pbt::Case;
using pbt::Src;
using pbt::Rng;
using pbt::mode;
typedef long double LD;
static const double UEPS = DBL_EPSILON / 2;

struct LM {   // reference matrix
    int r = 0, c = 0;
    std::vector<LD> a;
    LM() {}
    LM(int r_, int c_, LD v = 0) : r(r_), c(c_), a((size_t)r_ * c_, v) {}
    LD &operator()(int i, int j) { return a[(size_t)j * r + i]; }
    LD operator()(int i, int j) const { return a[(size_t)j * r + i]; }
};
LM mul(const LM &A, const LM &B);
LM tr(const LM &A);
LM absm(const LM &A);
LM eye(int n);
LM add(LD a, const LM &A, LD b, const LM &B);
LM sub(const LM &A, const LM &B);
LD normF(const LM &A);
LD normMax(const LM &A);
LD norm1(const LM &A);
LD normInf(const LM &A);
LM cols(const LM &A, int j, int n);
LM rows(const LM &A, int i, int n);
// triangle of A as a full matrix. unit: ones on diagonal
LM tri(const LM &A, bool upper, bool unit);
LM symm(const LM &A, bool upper);   // full symmetric from a triangle

struct Mat {
    armas_dense_t m{};
    double *base = nullptr;
    size_t len = 0;
    std::vector<double> snap;
    std::string kind;
    Mat() {}
    Mat(const Mat &o) = delete;
    Mat &operator=(const Mat &o) = delete;
    Mat(Mat &&o) { *this = std::move(o); }
    Mat &operator=(Mat &&o)
    {
        std::swap(m, o.m); std::swap(base, o.base); std::swap(len, o.len); std::swap(snap, o.snap); std::swap(kind, o.kind); std::swap(raw, o.raw);
        return *this;
    }
    ~Mat() { ::free(raw); }
    void *raw = nullptr;
    int r() const { return m.rows; }
    int c() const { return m.cols; }
    int n() const { return m.rows * m.cols; }
    double &e(int i, int j) const { return m.elems[(size_t)j * m.step + i]; }
    double &v(int k) const { return m.rows == 1 ? m.elems[(size_t)k * m.step] : m.elems[k]; }
    LM lm() const;
    LM lmv() const;     // as column vector
    void set(const LM &A);
    void snapshot() { snap.assign(base, base + len); }
    armas_dense_t *operator&() { return &m; }
    size_t pos(int i, int j) const { return (size_t)(m.elems - base) + (size_t)j * m.step + i; }
};
// matrix operand r x c at a random place in a larger parent
Mat mk(Src &s, int r, int c);
// vector operand with n elements: column, row, or strided
Mat mkvec(Src &s, int n);
Mat mkcol(Src &s, int n);   // column vector
Mat mkrow(Src &s, int n);
// sometimes lets read-only operand B be a view of the storage of read-only operand A (its former contents are dropped)
bool share(Src &s, Case &c, Mat &A, Mat &B);
// tight matrix, no draws
Mat tight(int r, int c);

// data classes
enum DataMode { DM_INT = 0, DM_UNI, DM_ZEROS, DM_NORMAL, DM_POS, DM_GRADED, DM_ONE, DM_SCALED, DM_MIXED, DM_N };
int fill(Src &s, Mat &A);                     // draws a mode and a seed
void fill_mode(Mat &A, int mode, uint32_t seed);
double rnd_scalar(Src &s);                    // 0, 1, -1, 2, 0.5, random
const char *dm_name(int);

// bitwise frame checks (only judged when mode.frame)
typedef std::function<bool(int, int)> Mask;
void frame_const(Case &c, const Mat &A, const char *name);
void frame_except(Case &c, const Mat &A, const char *name, const Mask &result);   // outside elements of result unchanged
inline void frame_result(Case &c, const Mat &A, const char *name) { frame_except(c, A, name, [](int, int) { return true; }); }

// |got - ref| <= mult * eps * absb  (+ underflow allowance)
void cmp(Case &c, const char *what, double got, LD ref, LD absb, double mult);
void cmpm(Case &c, const char *what, const Mat &got, const LM &ref, const LM &absb, double mult);
void cmpv(Case &c, const char *what, const Mat &got, const LM &ref, const LM &absb, double mult);
// norm-wise:  normF(D) <= bound, value non finite fails
void small(Case &c, const char *what, LD err, LD bound);
bool finite(const Mat &A);
void need_finite(Case &c, const char *what, const Mat &A);
bool all_finite(const LM &A);

// sizes: mostly small, sometimes around block borders / unroll limits
int dim(Src &s, int big);
// configuration
typedef std::function<bool(int, int)> Mask;
// Configuration block of a call. The address operator gives a null pointer instead (the default configuration is used)
// when the case has chosen so and the block does not differ from the default.
struct Conf : armas_conf_t {
    bool null = false;
    bool same() const
    {
        const armas_conf_t *d = armas_conf_default();
        return optflags == d->optflags && tolmult == d->tolmult && work == d->work && accel == d->accel && maxiter == d->maxiter &&
               gmres_m == d->gmres_m && stop == d->stop && smult == d->smult;
    }
    armas_conf_t *operator&() { return null && same() ? nullptr : this; }
    armas_conf_t *ptr() { return this; }
    int err() const { return null && same() ? armas_conf_default()->error : error; }
    void clear() { error = 0; if (null) armas_conf_default()->error = 0; }
    void sync() { if (null && same()) { numiters = armas_conf_default()->numiters; residual = armas_conf_default()->residual; error = err(); } }
};
Conf conf0();
extern thread_local bool large_case;
void env_reset();
void env_touch();
void env_saved();   // configuration is as operations have to leave it
void env_vary(Src &s, Case &c);   // random blocking configuration (domain: usable ones)
void init_once();
// configuration of one call: algorithm option from opts, blocking, buffer source (and accelerator in C07)
Conf cfg(Src &s, Case &c, std::initializer_list<int> opts);
extern std::function<void(Src &, Case &, armas_conf_t &)> cfg_accel;   // set by the parallel checks
extern thread_local bool vf_in_thread;   // inside a concurrent caller: shared configuration is left alone
void case_cleanup();
void guards_check();
double *case_alloc(size_t bytes);     // released after the case
// content of elements that the flags declare not referenced: garbage or NaN
enum { POL_KEEP, POL_BIG, POL_NAN };
void pollute(Mat &A, int how, const Mask &unref);
int polkind(Src &s);
// triangular operand: pollutes the unreferenced part and returns the matrix it denotes
LM trioperand(Src &s, Mat &A, bool upper, bool unit);
LM symoperand(Src &s, Mat &A, bool upper);
std::string sh(const Mat &A);
// error return while requests for memory fail: has to be reported as such
// dimensions: mostly small, in a few cases all of them may be large
struct Dims {
    bool big;
    explicit Dims(Src &s, int den = 48) : big(mode.maxdim == 0 && !mode.inject && s.chance(1, den)) {}
    int operator()(Src &s, int lo, int hi, int mx) const { return big && s.chance(3, 4) ? s.range(hi, mx) : s.range(lo, hi); }
};
void oom(Case &c, const char *what, int rc, const Conf &cf);
// same for calls that only tell about failure with their result; cf null: no configuration takes part
void oomnull(Case &c, const char *what, const armas_conf_t *cf = nullptr);
#define OKRC(c, e, cf, ...) do { int _rc = (e); if (_rc < 0) oom(c, #e, _rc, cf); if (_rc != 0) (c).fail("%s returned %d (error %d) for valid operands", #e, _rc, (cf).err()); } while (0)
#endif
