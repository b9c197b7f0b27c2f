// Deterministic choice-sequence property-based testing engine.
#ifndef PBT_ENGINE_H
#define PBT_ENGINE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>

namespace pbt {

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// Data generator seeded from a drawn choice (bulk matrix contents).
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x1234567)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2.0 * unit() - 1.0; }
    int below(int n) { return n > 0 ? (int)(next() % (uint64_t)n) : 0; }
    double normal();
};

struct Failure {
    std::string key, msg;
};
struct Discard {};
struct Injected {};   // an injected fault was reported as it should be

// Source of choices: random (seeded) or replayed.
struct Src {
    std::vector<uint32_t> in;   // replayed choices
    bool replay = false;
    size_t pos = 0;
    uint64_t st = 0;
    std::vector<uint32_t> log;  // normalised choices actually taken
    uint32_t *mirror = nullptr, *mirror_n = nullptr, mirror_cap = 0;  // crash-safe copy of log

    uint32_t draw(uint32_t n);                 // [0, n), simplest 0
    int below(int n) { return n > 1 ? (int)draw((uint32_t)n) : 0; }
    int range(int lo, int hi);                 // [lo, hi], simplest lo
    bool chance(int num, int den);             // true with num/den; simplest false
    uint32_t seed() { return draw(1u << 20); } // data seed
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[draw(N)]; }
    template <class T> T pick(const std::vector<T> &a) { return a[draw((uint32_t)a.size())]; }
    template <class T> T pickl(std::initializer_list<T> a) { return *(a.begin() + draw((uint32_t)a.size())); }
    int pickl(std::initializer_list<int> a) { return *(a.begin() + draw((uint32_t)a.size())); }
    // weighted choice: index with probability w[i]/sum
    int weighted(std::initializer_list<int> w);
};

struct Case {
    std::ostringstream desc;
    bool nontrivial = false;
    std::vector<const char *> labels;
    const char *known_key = nullptr;

    void label(const char *l) { labels.push_back(l); }
    void d(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // following part of the case is inside a listed known finding's domain
    void known(const char *key) { known_key = key; }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void discard() { throw Discard(); }
};
#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

typedef void (*target_fn)(Src &, Case &);
struct Target {
    const char *group, *name;
    target_fn fn;
    int weight;     // relative number of cases
    int flags;
};
enum { TF_NONE = 0, TF_THREADED = 1, TF_NOREPRO = 2 };

std::vector<Target> &registry();
struct Reg {
    Reg(const char *g, const char *n, target_fn f, int w, int fl = 0) { registry().push_back({g, n, f, w, fl}); }
};
#define TARGET(group, name, weight) \
    static void t_##group##_##name(pbt::Src &, pbt::Case &); \
    static pbt::Reg r_##group##_##name(#group, #name, t_##group##_##name, weight); \
    static void t_##group##_##name(pbt::Src &s, pbt::Case &c)
#define TARGET_F(group, name, weight, flags) \
    static void t_##group##_##name(pbt::Src &, pbt::Case &); \
    static pbt::Reg r_##group##_##name(#group, #name, t_##group##_##name, weight, flags); \
    static void t_##group##_##name(pbt::Src &s, pbt::Case &c)

// judging mode: which oracles are active in shared operation targets
struct Mode {
    bool value = true;    // compare results with the reference
    bool frame = false;   // compare everything else bit for bit
    bool exact = false;   // exact-size heap operands (sanitizer runs)
    bool cfg = false;     // vary configuration and compare
    bool work = false;    // explore workspace sizes
    bool strings = false; // configuration comes from environment strings (own processes)
    bool inject = false;  // repeat every case with failing allocations
    bool thorough = false;
    int accel = 0;
    int maxdim = 0;       // overrides size limits when > 0
    std::string prop;
};
extern Mode mode;

// choices of the case that is running (not for concurrent callers)
extern Src *cur;
// hooks run around every case
extern std::function<void()> before_case, after_case_ok;

// allocator stand-ins (builds with VF_ALLOC)
void vf_case(long fail_at);     // restarts numbering; request fail_at fails (negative: all from -fail_at on)
void vf_off();
void vf_fillkind(int);
long vf_count(), vf_failed(), vf_live();
std::string vf_list(long since);

}  // namespace pbt
#endif
