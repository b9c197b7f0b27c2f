// Parallel execution (C07): accelerators, concurrent callers, perturbed schedules
#include "lap.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <thread>
#include <atomic>
#include <memory>
extern "C" {
#define private vf_private
#include "accel.h"
#undef private
}
using pbt::Target;

// ---- schedule perturbation: the library's synchronisation calls are wrapped at link time
static std::atomic<unsigned> g_perturb{0};        // 0: off, otherwise strength
static std::atomic<uint64_t> g_tseed{0};
static std::atomic<int> g_left{0};                // delays left in this case: every delay can be long on a busy machine
static thread_local uint64_t t_rng = 0;
static thread_local bool t_in = false;
static uint32_t prnd()
{
    if (!t_rng) t_rng = pbt::mix64(g_tseed.fetch_add(0x9e3779b97f4a7c15ULL) ^ 77) | 1;
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
    return (uint32_t)(t_rng >> 20);
}
static void disturb()
{
    unsigned p = g_perturb.load(std::memory_order_relaxed);
    if (!p) return;
    uint32_t r = prnd();
    if (r % 64 < p) {
        if (g_left.load(std::memory_order_relaxed) <= 0) return;
        g_left.fetch_sub(1, std::memory_order_relaxed);
        uint32_t q = (r >> 8) % 16;
        if (q < 10) sched_yield();
        else if (q < 15) { struct timespec t = {0, (long)((r >> 12) % 60) * 1000}; nanosleep(&t, NULL); }
        else { struct timespec t = {0, (long)((r >> 12) % 1000) * 1000}; nanosleep(&t, NULL); }
    }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { disturb(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); disturb(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    // waking without a signal is allowed
    if (g_perturb.load(std::memory_order_relaxed) > 8 && prnd() % 24 == 0) {
        __real_pthread_mutex_unlock(m);
        sched_yield();
        __real_pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    struct timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    if (t->tv_sec < n.tv_sec) {      // time already passed: give the processor away instead of spinning
        struct timespec w = {0, 30000};
        __real_pthread_mutex_unlock(m);
        nanosleep(&w, NULL);
        __real_pthread_mutex_lock(m);
        return ETIMEDOUT;
    }
    return __real_pthread_cond_timedwait(c, m, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { disturb(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { disturb(); return __real_pthread_cond_broadcast(c); }
// Threads started by the library: counted, and delayed at their start and end
static std::atomic<long> g_started{0}, g_ended{0};
struct TArg { void *(*fn)(void *); void *arg; };
static void *tramp(void *p)
{
    TArg a = *(TArg *)p;
    delete (TArg *)p;
    disturb();
    void *r = a.fn(a.arg);
    disturb();
    g_ended.fetch_add(1);
    return r;
}
// bit k set: the k'th request for a thread (modulo 16) is refused
static std::atomic<unsigned> g_refuse{0}, g_asked{0}, g_refused{0};
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    disturb();
    if (unsigned m = g_refuse.load()) {
        if ((m >> (g_asked.fetch_add(1) & 15)) & 1) { g_refused++; return EAGAIN; }
    }
    TArg *a = new TArg{fn, arg};
    g_started.fetch_add(1);
    int r = __real_pthread_create(t, at, tramp, a);
    if (r) { delete a; g_started.fetch_sub(1); }
    disturb();
    return r;
}
int __wrap_pthread_join(pthread_t t, void **v) { disturb(); return __real_pthread_join(t, v); }
}

// ---- accelerator under test
static struct armas_accel *g_ac;
static struct armas_ac_env g_acenv0;
static bool g_ac_saved = false;
static const char *const KINDS[] = {"SIMPLE", "WORKERS", "TRANSIENT"};

static void ac_env(Src &s, Case &c, int kind)
{
    struct armas_ac_env *e = armas_ac_getenv();
    if (!g_ac_saved) { g_acenv0 = *e; g_ac_saved = true; }
    *e = g_acenv0;
    e->max_cores = s.pickl({2, 3, 1, 4, 5, 6, 8, 13});
    int opt = 0;
    if (kind != 0) {
        opt |= s.pickl({0, ARMAS_OBLAS_BLOCKED, ARMAS_OBLAS_TILED, ARMAS_OBLAS_TILED});
        opt |= s.pickl({0, ARMAS_OSCHED_ROUNDROBIN, ARMAS_OSCHED_RANDOM});
        if (s.chance(1, 3)) opt |= ARMAS_OSCHED_TWO;
    }
    e->options = opt;
    if (opt & ARMAS_OBLAS_TILED) e->num_items = s.pickl({16, 4, 5, 7, 8, 10, 12, 20, 33, 64, 3, 100});
    else e->num_items = s.pickl({64, 1, 4, 10, 16, 100, 250, 400, 1000, 3000, 20000});
    e->weight = s.pickl({4, 4, 2, 10}) / 4.0;
    c.d("accel %s cores=%zu items=%zu opt=%x weight=%g; ", KINDS[kind], e->max_cores, e->num_items, opt, e->weight);
    c.label(KINDS[kind]);
    if (opt & ARMAS_OBLAS_TILED) c.label("tiled");
    if (opt & ARMAS_OSCHED_TWO) c.label("two-queues");
}
static void ac_start(Src &s, Case &c, int kind)
{
    armas_ac_handle_t h = nullptr;
    int rc = armas_ac_init(&h, KINDS[kind]);
    if (rc < 0 || !h) c.fail("armas_ac_init(%s) returned %d", KINDS[kind], rc);
    g_ac = (struct armas_accel *)h;
}
static void ac_stop() { armas_ac_release(g_ac); g_ac = nullptr; }
static thread_local bool t_use = true;
static void hook(Src &s, Case &c, armas_conf_t &cf) { if (t_use) cf.accel = g_ac; }

static const Target *find(const char *g, const char *n)
{
    for (auto &t : pbt::registry()) if (!strcmp(t.group, g) && !strcmp(t.name, n)) return &t;
    abort();
}
static const char *const B3[] = {"mult", "mult_sym", "mult_trm", "solve_trm"};
static const char *const OTHER[][2] = {
    {"blas3", "update_sym"}, {"blas3", "update2_sym"}, {"blas3", "update_trm"},
    {"blas2", "mvmult"}, {"blas2", "mvsolve_trm"}, {"blas2", "mvupdate"}, {"blas2", "mvmult_sym"}, {"blas2", "mvmult_trm"}, {"blas2", "mvupdate_trm"},
    {"blas1", "dot"}, {"blas1", "nrm2"}, {"blas1", "axpby"}, {"blas1", "asum"}, {"blas1", "iamax"},
    {"ext", "mult"}, {"ext", "mult_trm"}, {"ext", "solve_trm"}, {"ext", "mult_sym"}, {"ext", "mvmult"}, {"ext", "dot"},
    {"qr", "qrfactor"}, {"qr", "qrmult"}, {"qr", "lqfactor"}, {"qr", "qrbuild"}, {"qr", "qrsolve"}, {"qr", "rqfactor"}, {"qr", "qlmult"},
    {"lu", "lufactor"}, {"lu", "lusolve"}, {"chol", "cholfactor"}, {"chol", "cholsolve"}, {"chol", "cholpv"}, {"ldl", "bkfactor"}, {"ldl", "ldlfactor"},
    {"inv", "luinverse"}, {"inv", "cholinverse"}, {"red", "bdreduce"}, {"red", "trdreduce"}, {"red", "hessreduce"},
    {"svd", "svd"}, {"evd", "eigen_sym"}, {"evd", "selected"},
};
static unsigned strength(Src &s)
{
    unsigned p = s.pickl({0, 4, 16, 40});
    g_tseed = pbt::mix64(s.seed());
    t_rng = 0;
    g_left = 3000;
    g_perturb = p;
    return p;
}
// results of one target function: disc means the random operands were not usable
static void run_target(const Target *t, Src &s, Case &c, bool &disc)
{
    try { t->fn(s, c); } catch (pbt::Discard &) { disc = true; }
}
struct Quiet { ~Quiet() { vf_in_thread = false; g_perturb = 0; g_refuse = 0; cfg_accel = nullptr; if (g_ac_saved) *armas_ac_getenv() = g_acenv0; } };

// the system refuses some of the threads asked for; the work is done all the same
static void refuse(Src &s, Case &c)
{
    g_asked = 0; g_refused = 0;
    unsigned m = s.chance(1, 6) ? s.pickl({0xffff, 1, 2, 0xfffe, 0x5555}) : 0;
    if (m && s.chance(1, 2)) m = s.draw(0x10000);
    g_refuse = m;
    if (m) c.d("refused threads %x; ", m);
}
// one caller, operations in sequence through one accelerator
TARGET_F(par, sequence, 10, pbt::TF_THREADED)
{
    Quiet q;
    g_ac = nullptr;
    int kind = s.range(0, 2);
    ac_env(s, c, kind);
    c.d("perturb=%u; ", strength(s));
    refuse(s, c);
    if (s.chance(1, 2)) lenv(s, c);
    ac_start(s, c, kind);
    cfg_accel = hook;
    vf_in_thread = true;         // blocking configuration does not change while workers run
    int n = s.weighted({1, 4, 6, 4, 2});
    bool disc = false;
    for (int i = 0; i < n; i++) {
        const Target *t;
        if (s.chance(1, 5)) { const auto &o = OTHER[s.draw(sizeof(OTHER) / sizeof(OTHER[0]))]; t = find(o[0], o[1]); }
        else t = find("blas3", B3[s.weighted({5, 2, 2, 2})]);
        c.d("[");
        run_target(t, s, c, disc);
        c.d("] ");
        guards_check();
    }
    if (n == 0) c.label("release-unused");
    ac_stop();
    if (g_refused) c.label("thread-refused");
}
// requests for memory fail while the accelerator is set up, in its threads and in the dispatching code
TARGET_F(paroom, sequence, 10, pbt::TF_THREADED)
{
    Quiet q;
    g_ac = nullptr;
    armas_cbuf_release_thread_global();
    int kind = s.range(0, 2);
    ac_env(s, c, kind);
    c.d("perturb=%u; ", strength(s));
    refuse(s, c);
    armas_ac_handle_t h = nullptr;
    int rc = armas_ac_init(&h, KINDS[kind]);
    if (rc < 0) {
        if (h) c.fail("armas_ac_init(%s) returned %d and a handle", KINDS[kind], rc);
        oomnull(c, "armas_ac_init");
        c.fail("armas_ac_init(%s) returned %d", KINDS[kind], rc);
    }
    if (!h) c.fail("armas_ac_init(%s) returned no handle", KINDS[kind]);
    g_ac = (struct armas_accel *)h;
    cfg_accel = hook;
    vf_in_thread = true;
    int n = s.range(1, 3);
    bool disc = false;
    try {
        for (int i = 0; i < n; i++) {
            const Target *t = find("blas3", B3[s.weighted({5, 2, 2, 2})]);
            c.d("[");
            run_target(t, s, c, disc);
            c.d("] ");
            guards_check();
        }
    } catch (pbt::Injected &) { ac_stop(); throw; }
    ac_stop();
}
// several callers at the same time, each with its own operands and configuration
TARGET_F(par, concurrent, 10, pbt::TF_THREADED)
{
    Quiet q;
    g_ac = nullptr;
    int kind = s.range(-1, 2);
    if (kind >= 0) ac_env(s, c, kind);
    else c.d("no accelerator; ");
    c.d("perturb=%u; ", strength(s));
    refuse(s, c);
    if (s.chance(1, 2)) lenv(s, c);
    int nt = s.range(2, 6), nop = s.range(1, 4), mix = s.range(0, 2);
    bool same = s.chance(1, 3);
    int first = s.draw(1000);
    struct Th { Src s; Case c; std::string err, key; bool disc = false; std::vector<const Target *> ops; };
    std::vector<std::unique_ptr<Th>> th;
    for (int i = 0; i < nt; i++) {
        auto t = std::make_unique<Th>();
        t->s.st = pbt::mix64(s.seed() * 977 + i);
        for (int k = 0; k < nop; k++) {
            unsigned r = same ? first + k : s.draw(1000);
            if (kind >= 0 && (mix == 0 || (mix == 1 && (r & 1)))) t->ops.push_back(find("blas3", B3[(r / 2) % 4]));
            else { const auto &o = OTHER[r % (sizeof(OTHER) / sizeof(OTHER[0]))]; t->ops.push_back(find(o[0], o[1])); }
        }
        th.push_back(std::move(t));
    }
    if (kind >= 0) ac_start(s, c, kind);
    cfg_accel = hook;
    std::atomic<int> ready{0};
    std::vector<std::thread> run;
    for (int i = 0; i < nt; i++)
        run.emplace_back([&, i] {
            Th &t = *th[i];
            vf_in_thread = true;
            ready++;
            while (ready < nt) sched_yield();
            try {
                for (auto *o : t.ops) { t.c.d("[%s.%s ", o->group, o->name); run_target(o, t.s, t.c, t.disc); t.c.d("] "); guards_check(); }
            } catch (pbt::Failure &f) { t.err = f.msg.empty() ? "failed" : f.msg; t.key = f.key; }
            case_cleanup();
            armas_cbuf_release_thread_global();
        });
    for (auto &t : run) t.join();
    int busy = 0;
    for (auto &t : th) busy += t->c.nontrivial;
    if (busy >= 2) c.nontrivial = true;
    c.label(kind >= 0 ? "shared-accel" : "no-accel");
    c.d("%d callers: ", nt);
    for (int i = 0; i < nt; i++) if (!th[i]->err.empty() || i == 0) c.d("caller %d: %s ", i, th[i]->c.desc.str().c_str());
    if (kind >= 0) ac_stop();
    for (int i = 0; i < nt; i++) if (!th[i]->err.empty()) throw pbt::Failure{th[i]->key, "caller " + std::to_string(i) + " of " + std::to_string(nt) + ": " + th[i]->err};
}
