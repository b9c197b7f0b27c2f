// Configuration strings of the environment (C28): every case is a process of its own whose first use of the library
// happens with generated values of ARMAS_CONFIG, ARMAS_CACHE and ARMAS_AC_CONFIG.
#include "lap.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <climits>
#include <sys/wait.h>
#include <atomic>
#include <thread>
#include <set>
extern "C" {
#define private vf_private
#include "accel.h"
#undef private
}
using pbt::Target;

// ---- the system the library sees: number of processors, threads created, processor affinity
static long g_nproc = 0;
static std::atomic<int> g_threads{0};
static std::atomic<int> g_pins{0};
static cpu_set_t g_pinned;
static std::atomic<int> g_badpin{0};
extern "C" {
long __real_sysconf(int);
long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN && g_nproc ? g_nproc : __real_sysconf(n); }
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { g_threads++; return __real_pthread_create(t, a, f, p); }
int __wrap_pthread_setaffinity_np(pthread_t, size_t n, const cpu_set_t *set)
{
    g_pins++;
    if (CPU_COUNT_S(n, set) != 1) g_badpin++;
    CPU_OR(&g_pinned, &g_pinned, set);
    return 0;
}
}

// ---- strings and what they mean
struct Want {               // set of acceptable values; any: not prescribed
    bool any = false;
    std::vector<unsigned long> v;
    unsigned long atleast = 0;
    bool ok(unsigned long x) const
    {
        if (any) return true;
        if (atleast && x >= atleast) return true;
        for (auto y : v) if (x == y) return true;
        return false;
    }
    std::string str() const
    {
        std::string r;
        for (auto y : v) r += (r.empty() ? "" : " or ") + std::to_string(y);
        if (atleast) r += " or at least " + std::to_string(atleast);
        return r;
    }
};
static std::string junk(Src &s)
{
    static const char cs[] = "0123456789,-/:xXkKmMyYnNbBtTrRzZ .+eE#\t\"'%\x80\xff";
    std::string r;
    int n = s.range(0, s.pickl({4, 12, 40, 300}));
    for (int i = 0; i < n; i++) r += cs[s.draw(sizeof cs - 1)];
    return r;
}
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...)
{
    char b[200];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
// positive integer field with default
static std::string number(Src &s, unsigned long dflt, Want &w, int lo, int hi, std::initializer_list<int> special)
{
    w = Want();
    switch (s.weighted({14, 5, 2, 2, 2, 2, 2, 1})) {
    case 0: { int v = s.range(lo, hi); w.v = {(unsigned long)v}; return fmt("%d", v); }
    case 1: { int v = s.pickl(special); w.v = {(unsigned long)v}; return fmt("%d", v); }
    case 2: w.v = {dflt}; return "";
    case 3: w.v = {dflt}; return s.pickl({"0", "-1", "-5", "-2147483648", "00", "-64"});
    case 4: w.v = {dflt}; return s.pickl({"abc", "x12", "#", "-", "y", "K", ".5", "auto", "/"});
    case 5: w.v = {dflt}; return s.pickl({"99999999999999999999999", "4294967360", "4294967296", "-4294967200", "18446744073709551680", "9223372036854775808"});
    case 6: w.any = true; return s.pickl({"2147483647", "1073741824", "2097152", "2147483644", "1048577", "536870912"});
    default: w.any = true; return s.pickl({"12abc", " 12", "+12", "0x20", "1e3", "12 ", "010", "8.5", "\t7"});
    }
}
static std::string bytes(Src &s, unsigned long dflt, unsigned long least, Want &w)
{
    w = Want();
    const char *u = s.pickl({"", "K", "k", "M", "m"});
    unsigned long unit = *u == 0 ? 1 : (*u | 32) == 'k' ? 1024 : 1024 * 1024;
    switch (s.weighted({12, 3, 2, 2, 2, 2, 1})) {
    case 0: {
        unsigned long v = unit == 1 ? (unsigned long)s.range(1, 1 << s.range(4, 22)) : unit == 1024 ? s.range(1, s.pickl({8, 64, 1024})) : s.range(1, s.pickl({2, 16}));
        w.v = {std::max(v * unit, least)};
        return fmt(s.chance(1, 6) ? "0x%lx%s" : "%lu%s", v, u);
    }
    case 1: { unsigned long v = s.pickl({4096, 4095, 1024, 1023, 4097, 1, 7, 262144}); w.v = {std::max(v, least)}; return fmt("%lu", v); }
    case 2: w.v = {dflt}; return s.pickl({"", "0", "0K", "0x0"});
    case 3: w.v = {dflt}; return s.pickl({"K", "abc", "M", "-", "y"});
    // too large: must not wrap around to something small
    case 4: w.v = {dflt}; w.atleast = 1UL << 40; return s.pickl({"18014398509481985K", "17592186044417M", "99999999999999999999999", "18446744073709551615", "36028797018963970K", "18446744073709551615M", "17592186044416M"});
    case 5: w.v = {dflt}; w.atleast = 1UL << 40; return s.pickl({"-1", "-4096", "-1K", "-100000M"});
    default: w.any = true; return s.pickl({"64KB", "64 K", "010K", " 64K", "+64K", "64G", "1.5M", "8192x", "0x"});
    }
}
static std::string cpuspec(Src &s, long nproc, std::set<int> &on, bool &any)
{
    auto set = [&](long k) { if (k >= 0 && k < nproc && k < CPU_SETSIZE) on.insert((int)k); };
    long hi = nproc + 3;
    switch (s.weighted({5, 5, 4, 4, 3, 2, 2})) {
    case 0: { long v = s.range(0, hi); set(v); return fmt("%ld", v); }
    case 1: { long a = s.range(0, hi), b = a + s.range(-2, hi); if (b < 0) b = 0; for (long i = a; i <= b; i++) set(i); return fmt("%ld-%ld", a, b); }
    case 2: { long a = s.range(0, hi), b = a + s.range(0, hi), st = s.range(1, 5); for (long i = a; i <= b; i += st) set(i); return fmt("%ld-%ld/%ld", a, b, st); }
    case 3: { unsigned long m = s.draw(1u << 31) | ((unsigned long)s.draw(1u << 31) << 32); m >>= s.below(63); for (int i = 0; i < 64; i++) if (m >> i & 1) set(i); return fmt("0x%lx", m); }
    case 4: { unsigned long m = s.draw(1u << 31) | ((unsigned long)s.draw(1u << 31) << 32); m >>= s.below(63); long k = s.range(0, hi); for (int i = 0; i < 64; i++) if (m >> i & 1) set(k + i); return fmt("%ld:0x%lx", k, m); }
    case 5: return s.pickl({"0-100/0", "0-5/", "3-1", "-", "/", ":", "0-2147483647/2147483647", "0-7/-1"}) + std::string((any = true, ""));
    default: any = true; return s.pickl({"abc", "x", "-5", "4294967295", "1-", "-3:0xff", "99999999999999999999", "1:2:3", "0-3-5", "4294967290:0xff", "0xzz", "2147483647:1", "9223372036854775807:0xf", " 1"});
    }
}

struct EnvConf {
    bool has[3] = {false, false, false};
    std::string str[3];
    Want mb, nb, kb, lb, b1, b2, fixed, cmem, l1, cores, items, opt;
    std::set<int> cpus;
    bool anycpu = false;
    long nproc = 1;
};
static const char *const NAMES[3] = {"ARMAS_CONFIG", "ARMAS_CACHE", "ARMAS_AC_CONFIG"};
static void gen(Src &s, Case &c, EnvConf &f)
{
    auto dflt = [](Want &w, unsigned long v) { w = Want(); w.v = {v}; };
    dflt(f.mb, 64); dflt(f.nb, 64); dflt(f.kb, 160); dflt(f.lb, 64); dflt(f.b1, 1024); dflt(f.b2, 256); dflt(f.fixed, 0);
    dflt(f.cmem, 256 * 1024); dflt(f.l1, 32 * 1024);
    f.nproc = s.pickl({4, 1, 2, 3, 8, 16, 70});
    dflt(f.cores, f.nproc); dflt(f.items, 400 * 400); dflt(f.opt, 0);
    int w = s.weighted({12, 1, 1});
    if (w == 1) c.label("all-unset");
    if (w == 2) {                // anything goes
        c.label("arbitrary");
        for (int k = 0; k < 3; k++) { f.has[k] = true; f.str[k] = junk(s); }
        for (Want *x : {&f.mb, &f.nb, &f.kb, &f.lb, &f.b1, &f.b2, &f.fixed, &f.cmem, &f.l1, &f.cores, &f.items, &f.opt}) x->any = true;
        f.anycpu = true;
    }
    if (w == 0) {
        if (s.chance(4, 5)) {
            f.has[0] = true;
            int n = s.weighted({1, 1, 1, 2, 3, 1, 2, 8, 1});
            for (int i = 0; i < n; i++) {
                if (i) f.str[0] += ",";
                switch (i) {
                case 0: f.str[0] += number(s, 64, f.mb, 1, 40, {64, 4, 8, 1, 128, 1000, 100000}); break;
                case 1: f.str[0] += number(s, 64, f.nb, 1, 40, {64, 4, 8, 1, 128, 1000, 100000}); break;
                case 2: f.str[0] += number(s, 160, f.kb, 1, 40, {160, 4, 8, 1, 128, 1000, 100000}); break;
                case 3: f.str[0] += number(s, 64, f.lb, 1, 16, {64, 4, 8, 1, 128, 1000, 100000}); break;
                case 4: f.str[0] += number(s, 1024, f.b1, 2, 40, {1024, 2, 3, 100000}); break;
                case 5: f.str[0] += number(s, 256, f.b2, 2, 40, {256, 2, 3, 100000}); break;
                case 6: {
                    const char *y = s.pickl({"y", "n", "Y", "yes", "no", "N", "", "0", "1", "true", " y"});
                    f.str[0] += y;
                    f.fixed = Want();
                    if (strchr("1t ", *y) && *y) f.fixed.any = true;
                    else f.fixed.v = {(unsigned long)(*y == 'y' || *y == 'Y')};
                    break;
                }
                default: f.str[0] += junk(s); f.fixed = Want(); f.fixed.any = true; c.label("extra-fields");
                }
            }
            if (n > 4 && s.chance(1, 12)) { f.str[0].replace(f.str[0].rfind(',') + 1, std::string::npos, "1"); (n == 5 ? f.b1 : n == 6 ? f.b2 : f.fixed) = Want(); (n == 5 ? f.b1 : n == 6 ? f.b2 : f.fixed).any = true; c.label("vector-block-1"); }
        }
        if (s.chance(1, 2)) {
            f.has[1] = true;
            int n = s.weighted({1, 3, 6, 1});
            if (n > 0) f.str[1] += bytes(s, 256 * 1024, 4096, f.cmem);
            if (n > 1) f.str[1] += "," + bytes(s, 32 * 1024, 1024, f.l1);
            if (n > 2) f.str[1] += "," + junk(s);
        }
        if (s.chance(2, 3)) {
            f.has[2] = true;
            int n = s.weighted({1, 1, 2, 5, 6, 3, 1});
            std::string &a = f.str[2];
            if (n > 0) a += number(s, 400 * 400, f.items, 1, s.pickl({40, 400, 4000}), {160000, 16, 64, 100});
            if (n > 1) {
                Want w2;
                a += "," + number(s, f.nproc, w2, 1, 6, {1, 2, 3, 4, 7});
                if (!w2.any) {
                    // more than there are processors: all of them
                    if (w2.v[0] < (unsigned long)f.nproc) f.cores.v = w2.v; else f.cores.v = {(unsigned long)f.nproc};
                } else f.cores.any = true;
            }
            if (n > 2) {
                unsigned long o = 0;
                std::string p;
                int t = s.weighted({4, 4, 2}), r = s.weighted({4, 3, 3}), two = s.chance(1, 3);
                if (t == 0) { p += s.pickl({"B", "b"}); o |= ARMAS_OBLAS_BLOCKED; }
                if (t == 1) { p += s.pickl({"T", "t"}); o |= ARMAS_OBLAS_TILED; }
                if (t < 2 && r == 1) { p += s.pickl({"R", "r"}); o |= ARMAS_OSCHED_ROUNDROBIN; }
                if (t < 2 && r == 2) { p += s.pickl({"Z", "z"}); o |= ARMAS_OSCHED_RANDOM; }
                if (t < 2 && two) { p += "2"; o |= ARMAS_OSCHED_TWO; }
                f.opt.v = {o};
                if (s.chance(1, 12)) { p = junk(s); for (auto &ch : p) if (ch == ',') ch = '.'; f.opt.any = true; }
                a += "," + p;
            }
            for (int i = 3; i < n; i++) a += "," + cpuspec(s, f.nproc, f.cpus, f.anycpu);
        }
    }
    for (int k = 0; k < 3; k++) c.d("%s%s%s ", NAMES[k], f.has[k] ? "=" : " unset", f.has[k] ? f.str[k].c_str() : "");
    c.d("processors=%ld; ", f.nproc);
}

// ---- the process
static int g_out;
[[noreturn]] static void report(const std::string &m)
{
    if (!m.empty() && write(g_out, m.data(), std::min<size_t>(m.size(), 3500)) < 0) _exit(9);
    _exit(m.empty() ? 0 : 5);
}
static std::string compare(const EnvConf &f, const armas_env_t &e, const struct armas_ac_env &a, const char *who)
{
    struct { const char *n; const Want &w; unsigned long v; } t[] = {
        {"mb", f.mb, (unsigned long)e.mb}, {"nb", f.nb, (unsigned long)e.nb}, {"kb", f.kb, (unsigned long)e.kb}, {"lb", f.lb, (unsigned long)e.lb},
        {"blas1min", f.b1, (unsigned long)e.blas1min}, {"blas2min", f.b2, (unsigned long)e.blas2min}, {"fixed", f.fixed, (unsigned long)(e.fixed != 0)},
        {"memsize", f.cmem, e.cmem}, {"l1size", f.l1, e.l1mem}, {"maxproc", f.cores, a.max_cores}, {"min_elems", f.items, a.num_items},
        {"policy", f.opt, (unsigned long)a.options}};
    for (auto &x : t) if (!x.w.ok(x.v)) return fmt("%s: %s is %ld, expected %s", who, x.n, (long)x.v, x.w.str().c_str());
    if (!f.anycpu)
        for (int k = 0; k < CPU_SETSIZE; k++)
            if (!!CPU_ISSET(k, &a.cpus) != (f.cpus.count(k) > 0)) return fmt("%s: processor %d is %s the configured set", who, k, CPU_ISSET(k, &a.cpus) ? "in" : "missing from");
    if (a.max_cores < 1 || (long)a.max_cores > f.nproc) return fmt("%s: maxproc is %zu with %ld processors", who, a.max_cores, f.nproc);
    if (a.num_items < 1) return fmt("%s: min_elems is %zu", who, a.num_items);
    return "";
}
static void unchanged(const EnvConf &f)
{
    for (int k = 0; k < 3; k++) {
        const char *v = getenv(NAMES[k]);
        if (f.has[k] ? !v || f.str[k] != v : v != nullptr) report(fmt("%s of the process was changed to %.120s", NAMES[k], v ? v : "(unset)"));
    }
}
static armas_ac_handle_t g_h;
static void hook(Src &, Case &, armas_conf_t &cf) { cf.accel = g_h; }
static const Target *find(const char *g, const char *n)
{
    for (auto &t : pbt::registry()) if (!strcmp(t.group, g) && !strcmp(t.name, n)) return &t;
    abort();
}
static const char *const USE[][2] = {
    {"blas3", "mult"}, {"blas3", "mult"}, {"blas3", "mult_sym"}, {"blas3", "mult_trm"}, {"blas3", "solve_trm"}, {"blas3", "update_sym"}, {"blas3", "update2_sym"}, {"blas3", "update_trm"},
    {"blas1", "dot"}, {"blas1", "asum"}, {"blas1", "nrm2"}, {"blas1", "iamax"},
    {"blas2", "mvmult"}, {"blas2", "mvsolve_trm"}, {"blas2", "mvmult_trm"}, {"blas2", "mvupdate"}, {"blas2", "mvupdate2_sym"}, {"blas2", "mvupdate_trm"}, {"blas2", "mvmult_sym"},
    {"ext", "mult"}, {"ext", "mult_trm"}, {"ext", "solve_trm"}, {"ext", "mult_sym"},
    {"qr", "qrfactor"}, {"qr", "qrmult"}, {"qr", "lqfactor"}, {"qr", "qlbuild"}, {"qr", "rqmult"}, {"qr", "qrtfactor"},
    {"lu", "lufactor"}, {"chol", "cholfactor"}, {"chol", "cholpv"}, {"ldl", "bkfactor"}, {"ldl", "ldlfactor"}, {"inv", "luinverse"},
    {"red", "bdreduce"}, {"red", "trdreduce"}, {"red", "hessreduce"}, {"svd", "svd"}, {"evd", "eigen_sym"},
};
static void run_target(const Target *t, uint64_t seed, std::string prefix)
{
    Src s;
    Case c;
    s.st = seed;
    try { t->fn(s, c); guards_check(); }
    catch (pbt::Discard &) {}
    catch (pbt::Failure &e) { report(prefix + t->group + "." + t->name + ": " + e.msg + " {" + c.desc.str().substr(0, 900) + "}"); }
    case_cleanup();
}
[[noreturn]] static void process(const EnvConf &f, int mt, int order, int nop, uint64_t seed, int kind, int naccel)
{
    alarm(mode.exact ? 120 : 60);
    for (int k = 0; k < 3; k++) {
        if (f.has[k]) setenv(NAMES[k], f.str[k].c_str(), 1);
        else unsetenv(NAMES[k]);
    }
    g_nproc = f.nproc;
    // first use, by one or more threads
    if (mt > 1) {
        std::vector<std::thread> th;
        std::vector<std::string> msg(mt);
        std::atomic<int> ready{0};
        for (int i = 0; i < mt; i++)
            th.emplace_back([&, i] {
                armas_env_t e;
                struct armas_ac_env a;
                ready++;
                for (int k = 0; ready < mt; k++) if (k > 200) sched_yield();
                if ((order + i) & 1) { a = *armas_ac_getenv(); e = *armas_getenv(); }
                else { armas_conf_default(); e = *armas_getenv(); a = *armas_ac_getenv(); }
                msg[i] = compare(f, e, a, fmt("thread %d of %d", i, mt).c_str());
            });
        for (auto &t : th) t.join();
        for (auto &m : msg) if (!m.empty()) report(m);
    } else {
        std::string m;
        if (order & 1) { struct armas_ac_env a = *armas_ac_getenv(); m = compare(f, *armas_getenv(), a, "configuration"); }
        else { armas_env_t e = *armas_getenv(); m = compare(f, e, *armas_ac_getenv(), "configuration"); }
        if (!m.empty()) report(m);
    }
    unchanged(f);
    // it works
    vf_in_thread = true;        // targets leave the configuration alone
    for (int i = 0; i < nop; i++) {
        uint64_t h = pbt::mix64(seed + i);
        const auto &u = USE[h % (sizeof(USE) / sizeof(USE[0]))];
        run_target(find(u[0], u[1]), pbt::mix64(h), "");
    }
    // accelerators
    static const char *const KIND[] = {"SIMPLE", "WORKERS", "TRANSIENT"};
    if (naccel > 0) {
        int rc = armas_ac_init(&g_h, KIND[kind]);
        if (rc < 0 || !g_h) report(fmt("armas_ac_init(%s) returned %d", KIND[kind], rc));
        cfg_accel = hook;
        g_threads = 0;
        for (int i = 0; i < naccel; i++) {
            uint64_t h = pbt::mix64(seed + 1000 + i);
            g_threads = kind == 1 ? g_threads.load() : 0;
            run_target(find("blas3", kind != 1 && h % 4 == 0 ? "mult_sym" : "mult"), pbt::mix64(h), std::string(KIND[kind]) + " accelerator: ");
        }
        if (kind == 1) {
            // persistent workers: no more than maxproc, on the configured processors only
            struct armas_ac_env *a = armas_ac_getenv();
            if (g_threads > (int)a->max_cores) report(fmt("%d worker threads were created, maxproc is %zu", g_threads.load(), a->max_cores));
            if (g_badpin) report("worker thread was not bound to a single processor");
            for (int k = 0; k < CPU_SETSIZE; k++)
                if (CPU_ISSET(k, &g_pinned) && !CPU_ISSET(k, &a->cpus)) report(fmt("worker thread was bound to processor %d that is not configured", k));
            if (g_threads > 0 && CPU_COUNT(&a->cpus) > 0 && g_pins == 0) report(fmt("no worker thread was bound to the %d configured processors", CPU_COUNT(&a->cpus)));
            if (CPU_COUNT(&a->cpus) >= g_threads && g_pins < g_threads) report(fmt("%d of %d worker threads were bound, %d processors configured", g_pins.load(), g_threads.load(), CPU_COUNT(&a->cpus)));
        }
        cfg_accel = nullptr;
        armas_ac_release(g_h);
    }
    unchanged(f);
    report("");
}

static void env_case(Src &s, Case &c, int nop, int naccel, bool mt)
{
    EnvConf f;
    gen(s, c, f);
    int threads = mt ? s.range(2, 6) : 1;
    int order = s.below(2);
    uint64_t seed = s.seed();
    int kind = s.below(3);
    if (nop) nop = s.range(1, nop);
    if (naccel) naccel = s.range(1, naccel);
    c.d("threads %d order %d operations %d accelerator %d x%d seed %lu", threads, order, nop, kind, naccel, (unsigned long)seed);
    int fd[2];
    if (pipe(fd) != 0) c.discard();
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); c.discard(); }
    if (pid == 0) {
        close(fd[0]);
        g_out = fd[1];
        process(f, threads, order, nop, seed, kind, naccel);
    }
    close(fd[1]);
    std::string m;
    char b[1024];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) m.append(b, n);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) c.fail("no end: process ran for more than 60 seconds");
    if (WIFSIGNALED(st)) c.fail("process was ended by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) != 0) c.fail("%s", m.empty() ? fmt("process ended with status %d", WEXITSTATUS(st)).c_str() : m.c_str());
    c.nontrivial = f.has[0] || f.has[1] || f.has[2];
    for (int k = 0; k < 3; k++) if (f.has[k]) c.label(NAMES[k]);
}
TARGET(env, fields, 10) { env_case(s, c, 0, 0, false); }
TARGET(env, firstuse, 5) { env_case(s, c, 0, 0, true); c.label("concurrent"); }
TARGET(env, operations, 6) { env_case(s, c, 8, 0, s.chance(1, 4)); }
TARGET(env, accelerators, 2) { env_case(s, c, 1, 3, s.chance(1, 4)); }
