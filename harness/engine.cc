#include "engine.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

Mode mode;
std::function<void()> before_case, after_case_ok;
Src *cur;

std::vector<Target> &registry()
{
    static std::vector<Target> r;
    return r;
}

double Rng::normal()
{
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
}

uint32_t Src::draw(uint32_t n)
{
    uint32_t v = 0;
    if (n > 1) {
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            if (v >= n) v = n - 1;
        } else {
            st += 0x9e3779b97f4a7c15ULL;
            uint64_t z = st;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            z ^= z >> 31;
            v = (uint32_t)(((z >> 32) * (uint64_t)n) >> 32);
        }
    }
    pos++;
    log.push_back(v);
    if (mirror && *mirror_n < mirror_cap) mirror[(*mirror_n)++] = v;
    return v;
}
int Src::range(int lo, int hi) { return hi <= lo ? (draw(1), lo) : lo + (int)draw((uint32_t)(hi - lo + 1)); }
bool Src::chance(int num, int den) { return (int)draw(den) >= den - num; }
int Src::weighted(std::initializer_list<int> w)
{
    int sum = 0;
    for (int x : w) sum += x;
    int v = (int)draw(sum), i = 0;
    for (int x : w) {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return 0;
}

static thread_local char *g_dm;
void Case::d(const char *fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    desc << b;
    if (g_dm) { size_t l = strlen(g_dm); snprintf(g_dm + l, 8192 - l, "%s", b); }
}
void Case::fail(const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    // development aid: list all failures instead of stopping at the first
    static const char *collect = getenv("VF_COLLECT");
    if (collect) {
        if (FILE *f = fopen(collect, "a")) { fprintf(f, "%s || %s\n", b, desc.str().c_str()); fclose(f); }
        throw Discard();
    }
    throw Failure{known_key ? known_key : "", b};
}

// ---------------------------------------------------------------------------------------------
struct Opts {
    std::string prop, tier = "quick", outdir, replay, known;
    uint64_t seed = 1;
    double scale = 1.0;
    int workers = 8;
    double cap = 300;
    std::vector<std::string> groups;
    bool list = false, verbose = false;
    long total = 0;
    double case_s = 30;
};
static Opts O;
static std::set<std::string> g_known;

enum { ST_IDLE, ST_RUN, ST_PASS, ST_FAIL, ST_DISCARD, ST_KNOWN };
struct Slot {
    std::atomic<int> state;
    std::atomic<long> task;       // running (target,index) packed
    std::atomic<double> started;  // wall
    char msg[4096];
    char key[128];
    uint32_t nhist;               // chunks of cases run so far, in order
    uint32_t hist[1 << 16];
};
struct Shared {
    std::atomic<long> next;
    std::atomic<int> stop;
    Slot slots[64];
};
static Shared *G;

struct OneOut {      // result area for child runs
    int state;
    char key[128], msg[4096], desc[8192];
    uint32_t nlog;
    uint32_t log[1 << 16];
};
static OneOut *R;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

static uint64_t hstr(const char *s)
{
    uint64_t h = 1469598103934665603ULL;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
    return h;
}
static uint64_t case_seed(const Target &t, long index)
{
    return mix64(mix64(O.seed) ^ hstr(t.name) ^ mix64(hstr(t.group) + (uint64_t)index * 0x9e37));
}

static int run_plain(const Target &t, Src &s, Case &c, std::string &msg, std::string &key)
{
    try {
        if (before_case) before_case();
#ifdef VF_ALLOC
        vf_fillkind(s.draw(5));     // what fresh memory contains
#endif
        cur = &s;
        t.fn(s, c);
        if (after_case_ok) after_case_ok();
        return ST_PASS;
    } catch (Injected &) {
        return ST_PASS;
    } catch (Failure &f) {
        msg = f.msg;
        key = f.key;
        if (!key.empty() && g_known.count(key)) return ST_KNOWN;
        return ST_FAIL;
    } catch (Discard &) {
        return ST_DISCARD;
    }
}

#ifdef VF_ALLOC
// as above, and every block the library allocated has to be released; with mode.inject the case is repeated with
// failing requests
static int run_one(const Target &t, Src &s, Case &c, std::string &msg, std::string &key)
{
    uint32_t h = 1;
    auto again = [&](long at, std::string &m) {
        Src s2;
        Case c2;
        std::string k2;
        s2.replay = true;
        s2.in = s.log;
        vf_case(at);
        int r = run_plain(t, s2, c2, m, k2);
        if (r == ST_FAIL && !k2.empty()) key = k2;
        return r;
    };
    auto leak = [&](long before, long at) {
        if (vf_live() <= before) return false;
        std::string m;
        for (int k = 0; k < 2; k++) {
            long b = vf_live();
            again(at, m);
            if (vf_live() <= b) return false;
        }
        char b[300];
        std::string l = vf_list(0);
        snprintf(b, sizeof b, "%ld blocks allocated by the library are not released%s%s: %s", vf_live() - before, at ? " when a request for memory fails, number " : "",
                 at ? std::to_string(at).c_str() : "", l.c_str());
        msg = b;
        return true;
    };
    long b0 = vf_live();
    vf_case(0);
    int r = run_plain(t, s, c, msg, key);
    long n = vf_count();
    if (r == ST_PASS && leak(b0, 0)) return ST_FAIL;
    if (r != ST_PASS || !mode.inject) return r;
    if (n == 0) { c.nontrivial = false; c.label("no-allocation"); return r; }
    std::vector<long> at;
    if (n <= 8) for (long k = 1; k <= n; k++) at.push_back(k);
    else {
        for (uint32_t v : s.log) h = (uint32_t)mix64(h ^ v);
        at = {1, 2, n, n - 1};
        for (int k = 0; k < 4; k++) { h = (uint32_t)mix64(h); at.push_back(1 + h % n); }
    }
    c.d(" {%ld requests for memory}", n);
    for (long k : at) {
        std::string m;
        long b = vf_live();
        int q = again(k, m);
        bool hit = vf_failed() > 0;
        vf_off();
        char f[100];
        snprintf(f, sizeof f, "request %ld of %ld for memory fails: ", k, n);
        if (q == ST_KNOWN) { r = ST_KNOWN; continue; }
        if (q == ST_FAIL) { msg = (hit ? f : "") + m; return ST_FAIL; }
        if (leak(b, k)) return ST_FAIL;
        vf_off();
    }
    std::string m;
    int q = again(0, m);
    if (q == ST_FAIL) { msg = "after failed requests for memory: " + m; return ST_FAIL; }
    return r;
}
#else
static int run_one(const Target &t, Src &s, Case &c, std::string &msg, std::string &key) { return run_plain(t, s, c, msg, key); }
#endif

struct Stats {
    long evals = 0, disc = 0, nontriv = 0, known = 0;
    std::map<std::string, long> labels;
};

static std::vector<const Target *> T;
static std::vector<long> N;   // cases per target
static std::vector<std::pair<int, long>> tasks;  // (target, first index), chunked
static long CHUNK = 8;

static void worker(int w)
{
    char path[600];
    Slot &sl = G->slots[w];
    std::vector<Stats> st(T.size());
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hs;
    double t_end = now() + O.cap;
    bool capped = false;
    while (!G->stop.load()) {
        long k = G->next.fetch_add(1);
        if (k >= (long)tasks.size()) break;
        if (now() > t_end) { capped = true; break; }
        int ti = tasks[k].first;
        const Target &t = *T[ti];
        sl.hist[sl.nhist++ % (sizeof sl.hist / sizeof sl.hist[0])] = (uint32_t)k;
        for (long ix = tasks[k].second; ix < std::min(N[ti], tasks[k].second + CHUNK) && !G->stop.load(); ix++) {
            Src s;
            Case c;
            s.st = case_seed(t, ix);
            sl.task = ((long)ti << 32) | ix;
            sl.started = now();
            sl.state = ST_RUN;
            std::string msg, key;
            int r = run_one(t, s, c, msg, key);
            Stats &S = st[ti];
            S.evals++;
            for (auto l : c.labels) S.labels[l]++;
            if (r == ST_DISCARD) S.disc++;
            if (r == ST_KNOWN) S.known++;
            if (c.nontrivial && r != ST_DISCARD) {
                uint64_t h = hstr(t.name) ^ hstr(t.group);
                for (uint32_t v : s.log) h = mix64(h ^ v);
                if (hs.insert(h).second) S.nontriv++;
                if (ix < 2) samples.push_back(std::string(t.group) + "." + t.name + "#" + std::to_string(ix) + ": " + c.desc.str());
            }
            if (r == ST_FAIL) {
                snprintf(sl.msg, sizeof sl.msg, "%s", msg.c_str());
                snprintf(sl.key, sizeof sl.key, "%s", key.c_str());
                sl.state = ST_FAIL;
                G->stop = 1;
                break;
            }
            sl.state = ST_IDLE;
        }
    }
    snprintf(path, sizeof path, "%s/w%d.stats", O.outdir.c_str(), w);
    FILE *f = fopen(path, "w");
    if (f) {
        fprintf(f, "C %d\n", capped);
        for (size_t i = 0; i < T.size(); i++) {
            fprintf(f, "T %zu %ld %ld %ld %ld\n", i, st[i].evals, st[i].disc, st[i].nontriv, st[i].known);
            for (auto &l : st[i].labels) fprintf(f, "L %zu %ld %s\n", i, l.second, l.first.c_str());
        }
        for (auto &h : hs) fprintf(f, "H %016lx\n", (unsigned long)h);
        for (auto &x : samples) {
            std::string y = x.substr(0, 600);
            for (auto &ch : y) if (ch == '\n') ch = ' ';
            fprintf(f, "S %s\n", y.c_str());
        }
        fclose(f);
    }
    fflush(NULL);
    _exit(sl.state == ST_FAIL ? 3 : 0);
}

static std::string slurp(const std::string &p, size_t max = 6000)
{
    std::string r;
    FILE *f = fopen(p.c_str(), "r");
    if (!f) return r;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max) r.append(b, n);
    fclose(f);
    return r;
}
static std::string san_summary(const std::string &txt)
{
    // first interesting lines of a sanitizer report
    std::string out;
    size_t p = txt.find("ERROR: ");
    if (p == std::string::npos) p = txt.find("runtime error");
    if (p == std::string::npos) p = txt.find("WARNING: ");
    if (p == std::string::npos) return txt.substr(0, 500);
    size_t b = txt.rfind('\n', p);
    out = txt.substr(b == std::string::npos ? 0 : b + 1, 1600);
    return out;
}

typedef std::vector<std::pair<const Target *, uint64_t>> Hist;
static int run_hist(const Hist &h, size_t &at, Case &c, std::string &msg, std::string &key, OneOut *o)
{
    for (at = 0; at < h.size(); at++) {
        Src s;
        Case cc;
        std::string m, k;
        if (o) { o->nlog = (uint32_t)at; o->desc[0] = 0; }
        s.st = h[at].second;
        int r = run_one(*h[at].first, s, cc, m, k);
        if (r == ST_FAIL || at + 1 == h.size()) {
            c.desc.str(cc.desc.str());
            msg = m; key = k;
            return r;
        }
    }
    return ST_PASS;
}
// Runs a case in a child. state: ST_*; crash -> ST_FAIL with msg. With a history: all its cases, one after the other
// in one process; nlog is then the number of the case that ended it.
// processor time used by a process and its threads, in clock ticks
static long cpu_ticks(pid_t p)
{
    std::string s = slurp("/proc/" + std::to_string(p) + "/stat", 4000);
    size_t i = s.rfind(')');
    unsigned long u = 0, k = 0;
    if (i == std::string::npos || sscanf(s.c_str() + i + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k) != 2) return -1;
    return (long)(u + k);
}
// A case that has run for longer than the limit: threads that wait for each other use no processor time; threads that
// only got too little of a busy machine go on, and have until three times the limit
struct Patience {
    double since = 0;       // start of the window
    long ticks = -1;
    bool over(pid_t p, double t, double started, double limit)
    {
        double e = t - started;
        if (e < limit) { since = 0; return false; }
        if (e > 3 * limit) return true;
        if (since < started) { since = t; ticks = cpu_ticks(p); return false; }
        if (t - since < 3) return false;
        long k = cpu_ticks(p);
        if (k - ticks < 3) return true;
        since = t; ticks = k;
        return false;
    }
};
static int child_run(const Target &t, const std::vector<uint32_t> *choices, uint64_t seed, double limit, OneOut *o, const Hist *h = nullptr)
{
    o->state = ST_RUN;
    o->nlog = 0;
    o->msg[0] = o->key[0] = o->desc[0] = 0;
    std::string errp = O.outdir + "/child.err";
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) dup2(nul, 1);
        Src s;
        Case c;
        g_dm = o->desc;
        if (h) {
            std::string msg, key;
            size_t at;
            int r = run_hist(*h, at, c, msg, key, o);
            snprintf(o->desc, sizeof o->desc, "%s", c.desc.str().c_str());
            snprintf(o->msg, sizeof o->msg, "%s", msg.c_str());
            snprintf(o->key, sizeof o->key, "%s", key.c_str());
            o->state = r;
            _exit(0);
        }
        s.mirror = o->log; s.mirror_n = &o->nlog; s.mirror_cap = sizeof(o->log) / sizeof(o->log[0]);
        if (choices) { s.replay = true; s.in = *choices; } else s.st = seed;
        std::string msg, key;
        int r = run_one(t, s, c, msg, key);
        snprintf(o->msg, sizeof o->msg, "%s", msg.c_str());
        snprintf(o->key, sizeof o->key, "%s", key.c_str());
        o->state = r;
        _exit(0);
    }
    double t0 = now();
    int stt = 0;
    bool timed = false, threaded = (t.flags & TF_THREADED) && limit >= 10;
    Patience pat;
    for (useconds_t w = 200;;) {
        pid_t q = waitpid(pid, &stt, WNOHANG);
        if (q == pid) break;
        if (threaded ? pat.over(pid, now(), t0, limit) : now() - t0 > limit) {
            timed = true;
            kill(pid, SIGKILL);
            waitpid(pid, &stt, 0);
            break;
        }
        usleep(w);
        if (w < 20000) w *= 2;
    }
    if (timed) {
        o->state = ST_FAIL;
        snprintf(o->msg, sizeof o->msg, "HANG: no result after %.0f s", now() - t0);
        return -1;
    }
    if (o->state == ST_RUN || !WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
        std::string e = san_summary(slurp(errp, 60000));
        o->state = ST_FAIL;
        if (WIFSIGNALED(stt))
            snprintf(o->msg, sizeof o->msg, "CRASH: signal %d; %s", WTERMSIG(stt), e.c_str());
        else
            snprintf(o->msg, sizeof o->msg, "ABORT: exit status %d; %s", WEXITSTATUS(stt), e.c_str());
    }
    return o->state;
}

static double run_limit = 20;

static bool still_fails(const Target &t, std::vector<uint32_t> &cand)
{
    for (int k = (t.flags & TF_THREADED) ? 4 : 1; k > 0; k--) {
        child_run(t, &cand, 0, run_limit, R);
        if (R->state == ST_FAIL) {
            if (R->nlog > 0)
                cand.assign(R->log, R->log + R->nlog);  // normalised
            return true;
        }
    }
    return false;
}

static std::vector<uint32_t> shrink(const Target &t, std::vector<uint32_t> best, double budget, long &tries)
{
    double t0 = now();
    auto left = [&]() { return now() - t0 < budget && tries < 4000; };
    auto attempt = [&](std::vector<uint32_t> cand) {
        if (cand == best || !left()) return false;
        tries++;
        if (still_fails(t, cand)) {
            // accept only if simpler
            if (cand.size() < best.size() || (cand.size() == best.size() && cand < best)) {
                best = cand;
                return true;
            }
        }
        return false;
    };
    bool changed = true;
    while (changed && left()) {
        changed = false;
        for (size_t k : {16, 8, 4, 2, 1})
            for (size_t i = best.size(); i-- > 0 && left();) {
                if (i + k > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) changed = true;
            }
        for (size_t i = 0; i < best.size() && left(); i++) {
            if (!best[i]) continue;
            auto c = best;
            c[i] = 0;
            if (attempt(c)) { changed = true; continue; }
            uint32_t lo = 0, hi = best[i];
            while (hi - lo > 1 && left() && i < best.size()) {
                uint32_t mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (attempt(c)) { changed = true; hi = i < best.size() ? best[i] : 0; } else lo = mid;
            }
        }
    }
    return best;
}

// A case failed that passes when it is run alone: look for the earlier cases of the same worker that it needs.
static bool history(const Slot &sl, const Target &t, long ix, Hist &best, double limit, long &tries)
{
    const size_t cap = sizeof sl.hist / sizeof sl.hist[0];
    size_t have = std::min<size_t>(sl.nhist, cap);
    Hist all;      // latest last; the chunk of the case itself up to the case
    std::vector<size_t> from;
    for (size_t q = have; q-- > 0;) {
        auto tk = tasks[sl.hist[(sl.nhist - 1 - q) % cap]];
        from.push_back(all.size());
        for (long i = tk.second; i < std::min(N[tk.first], tk.second + CHUNK); i++) {
            all.push_back({T[tk.first], case_seed(*T[tk.first], i)});
            if (T[tk.first] == &t && i == ix) break;
        }
    }
    if (all.empty() || all.back().first != &t || all.back().second != case_seed(t, ix)) return false;
    double t0 = now();
    auto fails = [&](Hist &h) {
        child_run(t, nullptr, 0, limit, R, &h);
        tries++;
        if (R->state != ST_FAIL || !strncmp(R->msg, "HANG", 4)) return false;
        if (R->nlog + 1 < h.size()) h.resize(R->nlog + 1);
        return true;
    };
    bool found = false;
    for (size_t q = 1; !found; q *= 4) {
        size_t b = q >= from.size() ? 0 : from[from.size() - q];
        best.assign(all.begin() + b, all.end());
        found = fails(best) && fails(best);
        if (b == 0 || now() - t0 > 2 * limit) break;
    }
    if (!found) return false;
    double t1 = now();
    for (size_t n = (best.size() + 1) / 2; n >= 1 && now() - t1 < 40;) {
        bool any = false;
        for (size_t e = best.size() - 1; e > 0 && now() - t1 < 40;) {     // cases [b,e) before the last one
            size_t b = e > n ? e - n : 0;
            Hist h(best.begin(), best.begin() + b);
            h.insert(h.end(), best.begin() + e, best.end());
            if (fails(h)) { best = h; any = true; if (best.size() <= b) b = best.size() - 1; }
            e = b;
        }
        if (n == 1 && !any) break;
        if (n > 1) n = n / 2;
    }
    return fails(best);
}

static void jstr(FILE *f, const std::string &s)
{
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

static void write_replay(const std::string &path, const Target &t, const std::vector<uint32_t> &ch, const std::string &msg, const std::string &desc, const Hist *h = nullptr)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "# replay of %s.%s (property %s, variant " VARIANT ")\n", t.group, t.name, O.prop.c_str());
    std::istringstream a(desc), b(msg);
    std::string l;
    while (std::getline(a, l)) fprintf(f, "# case: %s\n", l.c_str());
    while (std::getline(b, l)) fprintf(f, "# failure: %s\n", l.c_str());
    fprintf(f, "tier %s\n", O.tier.c_str());
    if (h) {
        for (auto &x : *h) fprintf(f, "history %s.%s %016lx\n", x.first->group, x.first->name, (unsigned long)x.second);
        fclose(f);
        return;
    }
    fprintf(f, "target %s.%s\nchoices", t.group, t.name);
    for (uint32_t v : ch) fprintf(f, " %u", v);
    fprintf(f, "\n");
    fclose(f);
}

static int do_replay()
{
    std::string txt = slurp(O.replay, 1 << 22), tn;
    std::vector<uint32_t> ch;
    std::istringstream in(txt);
    std::string line;
    Hist h;
    while (std::getline(in, line)) {
        if (line.compare(0, 5, "tier ") == 0) mode.thorough = line == "tier thorough";
        if (line.compare(0, 8, "history ") == 0) {
            char nm[200];
            unsigned long sd;
            if (sscanf(line.c_str(), "history %199s %lx", nm, &sd) == 2)
                for (auto &t : registry()) if (std::string(t.group) + "." + t.name == nm) h.push_back({&t, sd});
        }
        if (line.compare(0, 7, "target ") == 0) tn = line.substr(7);
        if (line.compare(0, 7, "choices") == 0) {
            std::istringstream ss(line.substr(7));
            uint32_t v;
            while (ss >> v) ch.push_back(v);
        }
    }
    if (!h.empty()) {
        Case c;
        std::string msg, key;
        size_t at = 0;
        int r = run_hist(h, at, c, msg, key, nullptr);
        printf("case %zu of %zu: %s\n", at + 1, h.size(), c.desc.str().c_str());
        printf("%s %s %s\n", r == ST_FAIL ? "FAIL" : r == ST_KNOWN ? "KNOWN" : r == ST_DISCARD ? "DISCARD" : "PASS", key.c_str(), msg.c_str());
        return r == ST_FAIL ? 1 : 0;
    }
    for (auto &t : registry()) {
        if (tn != std::string(t.group) + "." + t.name) continue;
        Src s;
        Case c;
        s.replay = true;
        s.in = ch;
        std::string msg, key;
        int r = run_one(t, s, c, msg, key);
        printf("case: %s\n", c.desc.str().c_str());
        printf("%s %s %s\n", r == ST_FAIL ? "FAIL" : r == ST_KNOWN ? "KNOWN" : r == ST_DISCARD ? "DISCARD" : "PASS", key.c_str(), msg.c_str());
        return r == ST_FAIL ? 1 : 0;
    }
    printf("unknown target %s\n", tn.c_str());
    return 2;
}

static int main_(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") O.prop = val();
        else if (a == "--tier") O.tier = val();
        else if (a == "--seed") O.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") O.outdir = val();
        else if (a == "--replay") O.replay = val();
        else if (a == "--known") O.known = val();
        else if (a == "--workers") O.workers = atoi(val().c_str());
        else if (a == "--cap") O.cap = atof(val().c_str());
        else if (a == "--total") O.total = atol(val().c_str());
        else if (a == "--case-s") O.case_s = atof(val().c_str());
        else if (a == "--chunk") CHUNK = atol(val().c_str());
        else if (a == "--group") O.groups.push_back(val());
        else if (a == "--mode") {
            std::string m = val();
            mode.value = m.find('v') != std::string::npos;
            mode.frame = m.find('f') != std::string::npos;
            mode.exact = m.find('x') != std::string::npos;
            mode.cfg = m.find('c') != std::string::npos;
            mode.work = m.find('w') != std::string::npos;
            mode.strings = m.find('e') != std::string::npos;
            mode.inject = m.find('i') != std::string::npos;
        } else if (a == "--maxdim") mode.maxdim = atoi(val().c_str());
        else if (a == "--list") O.list = true;
        else if (a == "-v") O.verbose = true;
    }
    mode.prop = O.prop;
    mode.thorough = O.tier == "thorough";
    std::istringstream kk(O.known);
    std::string k1;
    while (std::getline(kk, k1, ',')) if (!k1.empty()) g_known.insert(k1);
    std::sort(registry().begin(), registry().end(), [](const Target &a, const Target &b) {
        int r = strcmp(a.group, b.group);
        return r ? r < 0 : strcmp(a.name, b.name) < 0;
    });
    if (O.list) {
        for (auto &t : registry()) printf("%s.%s %d\n", t.group, t.name, t.weight);
        return 0;
    }
    if (!O.replay.empty()) return do_replay();
    if (O.outdir.empty()) { fprintf(stderr, "need --out\n"); return 2; }
    mkdir(O.outdir.c_str(), 0755);
    if (O.workers > 64) O.workers = 64;

    for (auto &t : registry()) {
        bool want = O.groups.empty();
        for (auto &g : O.groups)
            if (g == t.group || g == std::string(t.group) + "." + t.name) want = true;
        if (want && t.weight > 0) T.push_back(&t);
    }
    if (T.empty()) { fprintf(stderr, "no targets\n"); return 2; }
    long wsum = 0;
    for (auto t : T) wsum += t->weight;
    for (auto t : T) N.push_back(std::max<long>(1, (long)((double)O.total * t->weight / wsum)));
    // interleave targets by progress so that any prefix covers all of them
    std::vector<std::pair<double, std::pair<int, long>>> order;
    for (size_t i = 0; i < T.size(); i++)
        for (long k = 0; k < N[i]; k += CHUNK) order.push_back({(double)k / N[i], {(int)i, k}});
    std::stable_sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &o : order) tasks.push_back(o.second);

    G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (OneOut *)mmap(0, sizeof(OneOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    int W = O.workers;
    std::vector<pid_t> pids(64, -1);
    std::vector<std::string> notes;
    auto spawn = [&](int w) {
        G->slots[w].state = ST_IDLE;
        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            std::string e = O.outdir + "/w" + std::to_string(w) + ".err";
            int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            int nul = open("/dev/null", O_WRONLY);
            if (nul >= 0) dup2(nul, 1);
            worker(w);
        }
        pids[w] = pid;
    };
    int rc = 0;
    std::string viol;
    long tries = 0;
    int w0 = 0, unrep = 0;
    // a failure that cannot be repeated ends the workers too: go on with the cases left
    for (;; w0 += W) {
    for (int w = w0; w < w0 + W; w++) spawn(w);
    int live = W;
    struct Bad { int ti; long ix; std::string msg; bool hang; int w; bool verdict = false; };
    std::vector<Bad> bads;
    bool stopped = false;
    double t_stop = 0;
    std::vector<Patience> pat(pids.size());
    while (live > 0) {
        int stt;
        pid_t p = waitpid(-1, &stt, WNOHANG);
        if (p > 0) {
            for (int w = w0; w < w0 + W; w++) {
                if (pids[w] != p) continue;
                pids[w] = -1;
                live--;
                Slot &sl = G->slots[w];
                long tk = sl.task;
                if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3)
                    bads.push_back({(int)(tk >> 32), tk & 0xffffffffL, sl.msg, false, w, true});
                else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) {
                    // ended by the hang limit (already recorded) or from outside, e.g. when memory ran out
                    notes.push_back("worker killed during " + std::string(T[tk >> 32]->group) + "." + T[tk >> 32]->name + "#" + std::to_string(tk & 0xffffffffL));
                } else if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0) && sl.state == ST_RUN) {
                    std::string e = san_summary(slurp(O.outdir + "/w" + std::to_string(w) + ".err", 60000));
                    char b[64];
                    if (WIFSIGNALED(stt)) snprintf(b, sizeof b, "CRASH: signal %d; ", WTERMSIG(stt));
                    else snprintf(b, sizeof b, "ABORT: exit status %d; ", WEXITSTATUS(stt));
                    bads.push_back({(int)(tk >> 32), tk & 0xffffffffL, b + e, false, w});
                    G->stop = 1;
                } else if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
                    notes.push_back("worker ended outside a case, status " + std::to_string(stt));
                }
            }
            continue;
        }
        double n = now();
        if (G->stop.load() && !stopped) { stopped = true; t_stop = n; }
        for (int w = w0; w < w0 + W; w++) {
            if (pids[w] < 0) continue;
            Slot &sl = G->slots[w];
            long tk = sl.task;
            bool thr = T[tk >> 32]->flags & TF_THREADED;
            double st0 = sl.started;
            if (sl.state == ST_RUN && (thr ? pat[w].over(pids[w], n, st0, O.case_s) : n - st0 > O.case_s)) {
                kill(pids[w], SIGKILL);
                bads.push_back({(int)(tk >> 32), tk & 0xffffffffL, "HANG: case did not finish in time", true, w});
                G->stop = 1;
            } else if (stopped && n - t_stop > (thr ? 3 : 1) * O.case_s + 5) kill(pids[w], SIGKILL);
        }
        usleep(2000);
    }
    if (!bads.empty()) {
        std::sort(bads.begin(), bads.end(), [](const Bad &a, const Bad &b) {
            if (a.hang != b.hang) return !a.hang;
            return a.ix != b.ix ? a.ix < b.ix : a.ti < b.ti; });
        for (auto &bd : bads) {
            const Target &t = *T[bd.ti];
            double lim = bd.hang ? O.case_s : std::max(20.0, std::min(O.case_s, 60.0));
            bool threaded = t.flags & TF_THREADED;
            int want = threaded ? 1 : 3, got = 0, runs = 0, maxruns = threaded ? 30 : (bd.hang ? 2 : 6);
            if (bd.hang) want = 1;
            uint64_t sd = case_seed(t, bd.ix);
            std::vector<uint32_t> lg;
            std::string msg = bd.msg, desc;
            while (runs < maxruns && got < want) {
                child_run(t, nullptr, sd, lim, R);
                runs++;
                if (R->state == ST_FAIL) { got++; msg = R->msg; desc = R->desc; if (R->nlog) lg.assign(R->log, R->log + R->nlog); }
                else if (!got && R->nlog) { lg.assign(R->log, R->log + R->nlog); desc = R->desc; }
                else if (!threaded && runs >= 5 && !got) break;
            }
            Hist h;
            if (!got && !threaded && !bd.hang && history(G->slots[bd.w], t, bd.ix, h, 90, tries)) {
                const Target &tl = *h.back().first;
                mkdir((O.outdir + "/..").c_str(), 0755);
                char path[700];
                snprintf(path, sizeof path, "%s/replay-%s.%s.txt", O.outdir.c_str(), tl.group, tl.name);
                msg = "after " + std::to_string(h.size() - 1) + " other cases in the same process: " + R->msg;
                write_replay(path, tl, lg, msg, R->desc, &h);
                viol = path;
                printf("FAIL %s.%s: %s\n  case: %s\n", tl.group, tl.name, msg.c_str(), R->desc);
                printf("REPLAYFILE %s\n", path);
                rc = 1;
                break;
            }
            if (!got && !threaded) {
                notes.push_back(std::string("not reproduced: ") + t.group + "." + t.name + "#" + std::to_string(bd.ix) + " " + bd.msg.substr(0, 300));
                fprintf(stderr, "NOTE %s\n", notes.back().c_str());
                // the oracle's verdict on real results; once it may be the machine, thrice it is the code
                if (bd.hang || !bd.verdict || ++unrep < 3) continue;
                msg += " (the third wrong result in this run that is not repeated with the same inputs: depends on something else)";
            }
            // choice list: crashes do not hand back their log; rebuild from the draws using the seed
            mkdir((O.outdir + "/..").c_str(), 0755);
            char path[700];
            snprintf(path, sizeof path, "%s/replay-%s.%s.txt", O.outdir.c_str(), t.group, t.name);
            if (!got && threaded) msg += " (schedule dependent: not repeated in " + std::to_string(runs) + " reruns of the same inputs)";
            if (got && !lg.empty() && !getenv("VF_NOSHRINK")) {
                run_limit = bd.hang ? 5 : 20;
                if (!threaded || got) {
                    double budget = bd.hang ? 30 : 45;
                    lg = shrink(t, lg, budget, tries);
                    child_run(t, &lg, 0, bd.hang ? lim : 20, R);
                    if (R->state == ST_FAIL) { msg = R->msg; if (R->desc[0]) desc = R->desc; }
                }
            }
            write_replay(path, t, lg, msg, desc);
            viol = path;
            printf("FAIL %s.%s: %s\n  case: %s\n", t.group, t.name, msg.c_str(), desc.c_str());
            printf("REPLAYFILE %s\n", path);
            rc = 1;
            break;
        }
    }
    if (rc || !stopped || w0 + 2 * W > (int)std::min<size_t>(pids.size(), 4 * (size_t)W)) break;
    G->stop = 0;
    }
    // gather statistics
    std::vector<Stats> st(T.size());
    std::unordered_set<std::string> hset;
    std::vector<std::string> samples;
    bool capped = false;
    for (int w = 0; w < w0 + W; w++) {
        FILE *f = fopen((O.outdir + "/w" + std::to_string(w) + ".stats").c_str(), "r");
        if (!f) continue;
        char *line = 0;
        size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            size_t i;
            long a, b, c, d;
            int off;
            if (line[0] == 'C') { int q; sscanf(line, "C %d", &q); capped |= q; }
            else if (line[0] == 'T' && sscanf(line, "T %zu %ld %ld %ld %ld", &i, &a, &b, &c, &d) == 5) {
                st[i].evals += a; st[i].disc += b; st[i].nontriv += c; st[i].known += d;
            } else if (line[0] == 'L' && sscanf(line, "L %zu %ld %n", &i, &a, &off) >= 2) {
                std::string l = line + off;
                while (!l.empty() && l.back() == '\n') l.pop_back();
                st[i].labels[l] += a;
            } else if (line[0] == 'H') hset.insert(line + 2);
            else if (line[0] == 'S') { std::string x = line + 2; while (!x.empty() && x.back() == '\n') x.pop_back(); samples.push_back(x); }
        }
        free(line);
        fclose(f);
    }
    std::sort(samples.begin(), samples.end());

    // report
    FILE *f = fopen((O.outdir + "/report.json").c_str(), "w");
    if (f) {
        long ev = 0, nt = (long)hset.size(), dc = 0, kn = 0;
        for (auto &s : st) { ev += s.evals; dc += s.disc; kn += s.known; }
        fprintf(f, "{\"variant\":\"" VARIANT "\",\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"discarded\":%ld,\"known_hits\":%ld,\"time_capped\":%s,\"wall_s\":%.2f,\"shrink_runs\":%ld,\"violation\":%s,\n\"targets\":{",
                ev, nt, dc, kn, capped ? "true" : "false", now() - t0, tries, rc ? "true" : "false");
        for (size_t i = 0; i < T.size(); i++) {
            fprintf(f, "%s\n", i ? "," : "");
            jstr(f, std::string(T[i]->group) + "." + T[i]->name);
            fprintf(f, ":{\"evaluations\":%ld,\"nontrivial\":%ld,\"discarded\":%ld,\"labels\":{", st[i].evals, st[i].nontriv, st[i].disc);
            bool first = true;
            for (auto &l : st[i].labels) { if (!first) fputc(',', f); first = false; jstr(f, l.first); fprintf(f, ":%ld", l.second); }
            fprintf(f, "}}");
        }
        fprintf(f, "},\n\"samples\":[");
        for (size_t i = 0; i < samples.size() && i < 40; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
        fprintf(f, "],\n\"notes\":[");
        for (size_t i = 0; i < notes.size(); i++) { if (i) fputc(',', f); jstr(f, notes[i]); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return rc;
}
}  // namespace pbt

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
