// Serialisation: JSON and MatrixMarket round trips (C21) and reader robustness (C22)
#include "la.h"
#include <set>
#include <unistd.h>
#if defined(VARIANT_ASAN) || defined(VARIANT_FUZZ)
#define WITH_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif
extern "C" void armas_ios_wbuf(armas_iostream_t *ios, struct armas_wbuf *wb);

// allocations minus releases of this thread, counted while enabled
static thread_local bool cnt_on;
static thread_local long cnt_live;
#ifdef WITH_ASAN
static void on_malloc(const volatile void *p, size_t) { if (cnt_on && p) cnt_live++; }
static void on_free(const volatile void *p) { if (cnt_on && p) cnt_live--; }
static int hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
struct Counted {
    Counted() { cnt_on = true; }
    ~Counted() { cnt_on = false; }
};

// ------------------------------------------------------------------ streams
struct MemStream {
    std::string s;
    size_t pos = 0, limit = (size_t)-1;
    bool past = false;      // read attempt at end
};
static int ms_get(void *p)
{
    MemStream *m = (MemStream *)p;
    if (m->pos >= m->s.size()) { m->past = true; return -1; }
    return (unsigned char)m->s[m->pos++];
}
static void ms_unget(void *p, int) { MemStream *m = (MemStream *)p; if (m->pos) m->pos--; }
static int ms_put(void *p, int ch)
{
    MemStream *m = (MemStream *)p;
    if (m->s.size() >= m->limit) return -1;
    m->s.push_back((char)ch);
    return ch & 0xff;
}
static armas_iostream_vtable_t ms_vt = {ms_get, ms_unget, ms_put, nullptr};

// FILE that accepts `room` bytes and then fails
struct CkW { std::string s; size_t room; };
static ssize_t ck_write(void *p, const char *b, size_t n)
{
    CkW *w = (CkW *)p;
    if (w->s.size() + n > w->room) return 0;
    w->s.append(b, n);
    return (ssize_t)n;
}
static FILE *ck_open(CkW *w, bool unbuf)
{
    cookie_io_functions_t io = {nullptr, ck_write, nullptr, nullptr};
    FILE *f = fopencookie(w, "w", io);
    if (unbuf) setvbuf(f, nullptr, _IONBF, 0);
    return f;
}
static FILE *rd_open(const std::string &s)
{
    static char empty[1];
    if (s.empty()) { FILE *f = fmemopen(empty, 1, "r"); fgetc(f); return f; }
    return fmemopen((void *)s.data(), s.size(), "r");
}

// ------------------------------------------------------------------ independent text scanner
struct Scan {
    const std::string &s;
    size_t p = 0;
    bool bad = false;
    explicit Scan(const std::string &x) : s(x) {}
    void ws() { while (p < s.size() && strchr(" \t\r\n", s[p])) p++; }
    bool lit(char ch) { ws(); if (p < s.size() && s[p] == ch) { p++; return true; } return false; }
    void need(char ch) { if (!lit(ch)) bad = true; }
    std::string str()
    {
        std::string r;
        need('"');
        while (!bad && p < s.size() && s[p] != '"') {
            if ((unsigned char)s[p] < 0x20) bad = true;
            if (s[p] == '\\') {
                p++;
                if (p >= s.size()) { bad = true; break; }
                switch (s[p]) {
                case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case 'u': { if (p + 4 >= s.size()) { bad = true; break; }
                    char h[5] = {s[p + 1], s[p + 2], s[p + 3], s[p + 4], 0}; char *e; long v = strtol(h, &e, 16);
                    if (*e || v > 0x7f) bad = true; r += (char)v; p += 4; break; }
                case '"': case '\\': case '/': r += s[p]; break;
                default: bad = true;
                }
            } else r += s[p];
            p++;
        }
        need('"');
        return r;
    }
    // strict JSON number
    double num()
    {
        ws();
        size_t a = p;
        auto digs = [&] { size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; return p > q; };
        if (p < s.size() && s[p] == '-') p++;
        if (p < s.size() && s[p] == '0') p++; else if (!digs()) bad = true;
        if (p < s.size() && s[p] == '.') { p++; if (!digs()) bad = true; }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
            p++;
            if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
            if (!digs()) bad = true;
        }
        return bad ? 0 : strtod(s.substr(a, p - a).c_str(), nullptr);
    }
};

// ------------------------------------------------------------------ values
static double io_value(Src &s, Rng &g)
{
    switch (s.weighted({4, 2, 2, 3, 1, 1})) {
    case 0: return (double)(int)(g.below(41) - 20);
    case 1: return g.sym();
    case 2: return g.sym() * pow(10, g.below(21) - 10);
    case 3: return ldexp(g.sym(), g.below(2040) - 1020);
    case 4: return g.below(2) ? -0.0 : 0.0;
    default: return (g.below(2) ? -1 : 1) * (g.below(2) ? DBL_MAX * 0.99 : DBL_MIN * 1.01);
    }
}
static void io_fill(Src &s, Mat &A)
{
    Rng g(s.seed());
    int one = s.below(3);
    for (int j = 0; j < A.c(); j++)
        for (int i = 0; i < A.r(); i++) {
            Src t;      // value class varies inside the matrix without consuming choices
            t.st = g.next();
            A.e(i, j) = one == 0 ? (double)(g.below(19) - 9) : io_value(t, g);
        }
    A.snapshot();
}
static int iodim(Src &s) { return s.chance(1, 12) ? 0 : s.range(1, s.chance(1, 8) ? 40 : 7); }
static bool close_rel(double a, double b, double rel) { return fabs(a - b) <= rel * fabs(b) + 5e-324; }
static std::string rnd_ws(Src &s, bool mm = false)
{
    std::string r;
    for (int n = s.weighted({6, 3, 1, 1}); n > 0; n--) r += mm ? s.pickl({' ', '\t'}) : s.pickl({' ', '\n', '\t', '\r'});
    return r;
}
// number token of an independent writer; value is what the text denotes
static std::string num_text(Src &s, double v)
{
    char t[64];
    if (v == (int)v && fabs(v) < 1e6 && !(v == 0 && std::signbit(v))) {
        switch (s.below(4)) {
        case 0: snprintf(t, sizeof t, "%d", (int)v); return t;
        case 1: snprintf(t, sizeof t, "%d.0", (int)v); return t;
        case 2: snprintf(t, sizeof t, "%d%s0", (int)v, s.chance(1, 2) ? "e" : "E+"); return t;
        }
    }
    switch (s.below(4)) {
    case 0: snprintf(t, sizeof t, "%.17g", v); break;
    case 1: snprintf(t, sizeof t, "%.17e", v); break;
    case 2: snprintf(t, sizeof t, "%.3g", v); break;
    default: snprintf(t, sizeof t, "%.8E", v);
    }
    return t;
}

// matrix handed to a reader: allocated by it or given uninitialised
struct Got {
    armas_dense_t *A = nullptr;
    armas_dense_t own;
    bool given;
    explicit Got(bool g) : given(g) { memset(&own, 0x5a, sizeof own); if (given) A = &own; }
    void drop(bool ok)
    {
        if (!given) { if (A) armas_free(A); }
        else if (ok && A) armas_release(A);
        A = nullptr;
    }
};
static void valid_dense(Case &c, const armas_dense_t *A)
{
    if (A->rows < 0 || A->cols < 0) c.fail("matrix with dimensions %d x %d returned", A->rows, A->cols);
    long n = (long)A->rows * A->cols;
    if (n == 0) return;
    if (!A->elems) c.fail("%d x %d matrix without elements returned", A->rows, A->cols);
    if (A->step < A->rows) c.fail("%d x %d matrix with stride %d returned", A->rows, A->cols, A->step);
    volatile double sum = 0;
    long st = n > 200000 ? n / 1000 : 1;
    for (long k = 0; k < n; k += st) sum = sum + A->elems[(k / A->rows) * A->step + k % A->rows];
    volatile double *last = &A->elems[(size_t)(A->cols - 1) * A->step + A->rows - 1];
    double keep = *last;
    *last = 1.0;
    *last = keep;
}

// ------------------------------------------------------------------ C21: JSON
TARGET(io, json_roundtrip, 10)
{
    int ndoc = s.range(1, 3);
    std::vector<Mat> M;
    std::vector<int> fl;
    std::vector<bool> isnull;
    std::string text;
    std::vector<size_t> ends;
    for (int d = 0; d < ndoc; d++) {
        int m = iodim(s), n = iodim(s);
        isnull.push_back(s.chance(1, 15));
        M.push_back(mk(s, m, n));
        io_fill(s, M.back());
        fl.push_back(s.chance(1, 4) ? s.pickl({ARMAS_LOWER, ARMAS_SYMM, ARMAS_UPPER | ARMAS_UNIT, 1 << 20}) : 0);
        c.d("%s%dx%d flags=%d", d ? "; " : "", m, n, fl.back());
        if (isnull.back()) c.label("null-matrix");
        if (m == 0 || n == 0) c.label("empty-matrix");
    }
    for (int d = 0; d < ndoc; d++) {
        int rc;
        const armas_dense_t *A = isnull[d] ? nullptr : &M[d].m;
        std::string one;
        int how = s.below(3);
        if (how == 0) {
            MemStream o;
            armas_iostream_t ios;
            armas_ios_init(&ios, &ms_vt, &o);
            rc = armas_json_write(&ios, A, fl[d]);
            one = o.s;
        } else if (how == 1) {
            char *b = nullptr;
            size_t n = 0;
            FILE *f = open_memstream(&b, &n);
            rc = armas_json_dump(f, A, fl[d]);
            fclose(f);
            one.assign(b, n);
            ::free(b);
        } else {
            // fixed buffer with exactly the room needed
            MemStream o;
            armas_iostream_t ios;
            armas_ios_init(&ios, &ms_vt, &o);
            armas_json_write(&ios, A, fl[d]);
            struct armas_wbuf wb;
            memset(&wb, 0, sizeof wb);
            std::vector<char> mem(o.s.size());
            wb.buf = mem.data();
            wb.bytes = mem.size();
            armas_ios_wbuf(&ios, &wb);
            rc = armas_json_write(&ios, A, fl[d]);
            one.assign(mem.data(), wb.offset);
        }
        if (rc != 0) c.fail("writing matrix %d returned %d", d, rc);
        // the text itself, read by an independent scanner
        Scan z(one);
        if (isnull[d]) {
            if (one != "null") c.fail("absent matrix written as '%s'", one.c_str());
        } else {
            int rows = -1, cols = -1;
            z.need('{');
            std::vector<double> data;
            bool have = false;
            for (int k = 0; k < 5 && !z.bad; k++) {
                std::string key = z.str();
                z.need(':');
                if (key == "rows") rows = (int)z.num();
                else if (key == "cols") cols = (int)z.num();
                else if (key == "flags") { if ((int)z.num() != fl[d]) c.fail("flags written wrong in '%.60s'", one.c_str()); }
                else if (key == "data") {
                    have = true;
                    z.need('[');
                    if (!z.lit(']')) {
                        do data.push_back(z.num()); while (!z.bad && z.lit(','));
                        z.need(']');
                    }
                } else z.bad = true;
                if (!z.lit(',')) break;
            }
            z.need('}');
            z.ws();
            if (z.bad || z.p != one.size() || !have) c.fail("text written is not the JSON document of a matrix: '%.200s'", one.c_str());
            if (rows != M[d].r() || cols != M[d].c() || (long)data.size() != (long)rows * cols) c.fail("document describes %dx%d with %d elements for a %dx%d matrix", rows, cols, (int)data.size(), M[d].r(), M[d].c());
            for (int j = 0, k = 0; j < cols; j++)
                for (int i = 0; i < rows; i++, k++)
                    if (!close_rel(data[k], M[d].e(i, j), 6e-14)) c.fail("element (%d,%d) = %.17g written as %.17g", i, j, M[d].e(i, j), data[k]);
        }
        text += one;
        if (d + 1 < ndoc) { std::string w = rnd_ws(s); text += w; }
        ends.push_back(text.size());
    }
    // reading back, all documents from one stream
    int how = s.below(3);
    armas_iostream_t ios;
    MemStream in;
    FILE *f = nullptr;
    in.s = text;
    std::vector<char> exact(text.begin(), text.end());
    if (how == 0) armas_ios_init(&ios, &ms_vt, &in);
    else if (how == 1) { f = rd_open(text); armas_ios_file(&ios, f); }
    else armas_ios_string(&ios, exact.data(), (int)exact.size());
    for (int d = 0; d < ndoc; d++) {
        Got g(s.chance(1, 2));
        int rc = how == 1 && s.chance(1, 2) ? armas_json_load(&g.A, f) : armas_json_read(&g.A, &ios);
        if (rc != 0) c.fail("reading document %d of '%.200s' returned %d", d, text.c_str(), rc);
        if (isnull[d]) { if (g.A) c.fail("null document gave a matrix"); continue; }
        if (!g.A) c.fail("reading document %d gave no matrix", d);
        if (g.given && g.A != &g.own) c.fail("matrix given by caller was replaced");
        valid_dense(c, g.A);
        if (g.A->rows != M[d].r() || g.A->cols != M[d].c()) c.fail("document of %dx%d read as %dx%d", M[d].r(), M[d].c(), g.A->rows, g.A->cols);
        for (int j = 0; j < M[d].c(); j++)
            for (int i = 0; i < M[d].r(); i++)
                if (!close_rel(g.A->elems[i + (size_t)j * g.A->step], M[d].e(i, j), 6e-14))
                    c.fail("document %d element (%d,%d) = %.17g read back as %.17g", d, i, j, M[d].e(i, j), g.A->elems[i + (size_t)j * g.A->step]);
        g.drop(true);
        if (how == 0 && in.pos > ends[d]) c.fail("reading document %d consumed %zu characters of the next one", d, in.pos - ends[d]);
        c.nontrivial |= M[d].n() > 1;
    }
    // nothing left
    int ch = armas_ios_getchar(&ios);
    if (ch >= 0) c.fail("character 0x%x left in stream after last document", ch);
    armas_ios_close(&ios);
    if (f) fclose(f);
    if (how == 2 && memcmp(exact.data(), text.data(), text.size())) c.fail("reading modified the string");
    for (auto &m : M) frame_const(c, m, "A");
}

// document of an independent writer -> text and the matrix it denotes
struct JDoc { std::string text; int m, n; std::vector<double> v; bool coord; };
static JDoc json_doc(Src &s, Case &c)
{
    JDoc d;
    d.m = s.range(1, 6);
    d.n = s.range(1, 6);
    if (s.chance(1, 15)) d.m = 0;
    d.v.assign((size_t)d.m * d.n, 0.0);
    d.coord = d.m > 0 && s.chance(1, 3);
    auto sp = [&](std::string &t) { t += rnd_ws(s); };
    std::string keys[4];
    char b[64];
    snprintf(b, sizeof b, "%d", d.m);
    std::string rows = b;
    snprintf(b, sizeof b, "%d", d.n);
    std::string cols = b;
    std::vector<std::pair<std::string, std::string>> mem = {{"rows", rows}, {"cols", cols}};
    if (s.chance(1, 3)) mem.push_back({"flags", s.chance(1, 2) ? "0" : "4"});
    if (s.chance(1, 3)) mem.push_back({"nnz", "3"});
    for (size_t k = mem.size(); k > 1; k--) std::swap(mem[k - 1], mem[s.below((int)k)]);
    std::string t;
    sp(t); t += '{';
    for (auto &x : mem) { sp(t); t += '"' + x.first + '"'; sp(t); t += ':'; sp(t); t += x.second; sp(t); t += ','; }
    sp(t); t += "\"data\""; sp(t); t += ':'; sp(t); t += '[';
    Rng g(s.seed());
    if (!d.coord) {
        for (int k = 0; k < d.m * d.n; k++) {
            std::string x = num_text(s, io_value(s, g));
            d.v[k] = strtod(x.c_str(), nullptr);
            if (k) t += ',';
            sp(t); t += x; sp(t);
        }
    } else {
        c.label("coordinate-data");
        int ne = s.range(1, 8);
        for (int k = 0; k < ne; k++) {
            int i = s.below(d.m), j = s.below(d.n);
            if (s.chance(1, 6)) { i = s.pickl({d.m, d.m + 3, -1, 1000000}); c.label("coordinate-outside"); }
            if (s.chance(1, 6)) { j = s.pickl({d.n, d.n + 2, -1, 2000000000}); c.label("coordinate-outside"); }
            std::string x = num_text(s, io_value(s, g));
            if (i >= 0 && i < d.m && j >= 0 && j < d.n) d.v[(size_t)j * d.m + i] = strtod(x.c_str(), nullptr);
            if (k) t += ',';
            sp(t); t += '['; sp(t); t += std::to_string(i); sp(t); t += ','; sp(t); t += std::to_string(j); sp(t); t += ','; sp(t); t += x; sp(t); t += ']'; sp(t);
        }
    }
    sp(t); t += ']'; sp(t); t += '}';
    d.text = t;
    return d;
}
TARGET(io, json_text, 8)
{
    JDoc d = json_doc(s, c);
    c.d("'%.300s'", d.text.c_str());
    int how = s.below(3);
    std::string tail = s.chance(1, 2) ? "" : s.pickl({" ", "x", "\"", "{"});
    MemStream in;
    in.s = d.text + tail;
    armas_iostream_t ios;
    FILE *f = nullptr;
    std::vector<char> exact(in.s.begin(), in.s.end());
    if (how == 0) armas_ios_init(&ios, &ms_vt, &in);
    else if (how == 1) { f = rd_open(in.s); armas_ios_file(&ios, f); }
    else armas_ios_string(&ios, exact.data(), (int)exact.size());
    Got g(s.chance(1, 2));
    int rc = armas_json_read(&g.A, &ios);
    if (rc != 0 || !g.A) c.fail("valid document rejected with %d", rc);
    if (g.A->rows != d.m || g.A->cols != d.n) c.fail("document of %dx%d read as %dx%d", d.m, d.n, g.A->rows, g.A->cols);
    valid_dense(c, g.A);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) {
            double x = g.A->elems[i + (size_t)j * g.A->step], y = d.v[(size_t)j * d.m + i];
            if (memcmp(&x, &y, 8) != 0 && !(x == 0 && y == 0)) c.fail("element (%d,%d): text denotes %.17g, read %.17g", i, j, y, x);
        }
    // stream continues right after the document
    std::string rest;
    for (int ch; (ch = armas_ios_getchar(&ios)) >= 0;) rest += (char)ch;
    if (rest != tail) c.fail("stream is not positioned after the document: rest '%s' expected '%s'", rest.c_str(), tail.c_str());
    g.drop(true);
    armas_ios_close(&ios);
    if (f) fclose(f);
    c.nontrivial = d.m > 0;
}

TARGET(io, json_fault, 3)
{
    Mat A = mk(s, s.range(0, 4), s.range(0, 4));
    io_fill(s, A);
    int fl = s.chance(1, 3) ? 4 : 0;
    MemStream full;
    armas_iostream_t ios;
    armas_ios_init(&ios, &ms_vt, &full);
    if (armas_json_write(&ios, &A, fl) != 0) c.fail("write to memory failed");
    size_t n = full.s.size();
    size_t k = s.draw((uint32_t)n);
    c.d("%s document of %zu characters, failure at %zu", sh(A).c_str(), n, k);
    bool file = s.chance(1, 3);
    int rc;
    std::string part;
    if (!file) {
        MemStream lim;
        lim.limit = k;
        armas_ios_init(&ios, &ms_vt, &lim);
        rc = armas_json_write(&ios, &A, fl);
        part = lim.s;
    } else {
        CkW w{"", k};
        FILE *f = ck_open(&w, true);
        rc = armas_json_dump(f, &A, fl);
        part = w.s;
        fclose(f);
    }
    if (rc >= 0) c.fail("write error at character %zu of %zu not reported (returned %d)", k, n, rc);
    if (part != full.s.substr(0, k)) c.fail("characters before the write error differ");
    // truncated document
    MemStream in;
    in.s = full.s.substr(0, k);
    armas_ios_init(&ios, &ms_vt, &in);
    Got g(s.chance(1, 2));
    rc = armas_json_read(&g.A, &ios);
    if (rc >= 0) c.fail("document truncated at %zu of %zu accepted: '%s'", k, n, in.s.c_str());
    if (!g.given && g.A) c.fail("failed read returned a matrix");
    c.nontrivial = A.n() > 0;
}

TARGET(io, json_tokens, 4)
{
    int nt = s.range(1, 12);
    struct T { int tok; std::string str; double num; };
    std::vector<T> ts;
    MemStream o;
    armas_iostream_t ios;
    armas_ios_init(&ios, &ms_vt, &o);
    auto put = [&](int rc) { if (rc < 0) c.fail("write token failed"); };
    for (int k = 0; k < nt; k++) {
        T t{0, "", 0};
        switch (s.below(7)) {
        case 0: t.tok = s.pickl({'{', '}', '[', ']', ':', ','}); put(armas_json_write_simple_token(t.tok, &ios)); break;
        case 1: t.tok = s.pickl({(int)ARMAS_JSON_TRUE, (int)ARMAS_JSON_FALSE, (int)ARMAS_JSON_NULL}); put(armas_json_write_simple_token(t.tok, &ios)); break;
        case 2: case 3: {
            t.tok = ARMAS_JSON_STRING;
            for (int n = s.range(0, 20); n > 0; n--) t.str += (char)(s.chance(1, 3) ? s.range(1, 255) : (s.chance(1, 3) ? s.pickl({'\\', '"', '/', '\n', '\t', '\r', '\b', '\f'}) : s.range('a', 'z')));
            put(armas_json_write_token(ARMAS_JSON_STRING, t.str.c_str(), s.chance(1, 2) ? t.str.size() : t.str.size() + 1, &ios));
            break;
        }
        case 4: {
            t.tok = ARMAS_JSON_NUMBER;
            if (s.chance(1, 2)) { int v = s.range(-100000, 100000); if (s.chance(1, 8)) v = INT32_MIN; t.num = v; put(armas_json_write_token(ARMAS_JSON_INT, &v, sizeof v, &ios)); }
            else { long v = (long)s.draw(1u << 31) * (s.chance(1, 2) ? 1000003 : -1000003); t.num = (double)v; put(armas_json_write_token(ARMAS_JSON_INT, &v, sizeof v, &ios)); }
            break;
        }
        default: {
            t.tok = ARMAS_JSON_NUMBER;
            Rng g(s.seed());
            double v = io_value(s, g);
            if (s.chance(1, 4)) { float x = (float)(fabs(v) < 1e30 && (v == 0 || fabs(v) > 1e-30) ? v : 1.25); t.num = x; put(armas_json_write_token(ARMAS_JSON_NUMBER, &x, sizeof x, &ios)); t.str = "f"; }
            else { t.num = v; put(armas_json_write_token(ARMAS_JSON_NUMBER, &v, sizeof v, &ios)); }
        }
        }
        ts.push_back(t);
        // numbers end at white space or structure only
        std::string w = rnd_ws(s);
        if (w.empty() && t.tok == ARMAS_JSON_NUMBER) w = " ";
        o.s += w;
    }
    c.d("%d tokens: '%.200s'", nt, o.s.c_str());
    std::vector<char> guard(256, 0x7e);
    size_t len = s.pickl({64, 32, 200});
    for (int k = 0; k < nt; k++) {
        char *buf = guard.data() + 20;
        int tok = armas_json_read_token(buf, len, &ios);
        for (size_t i = 0; i < guard.size(); i++)
            if ((i < 20 || i >= 20 + len) && guard[i] != 0x7e) c.fail("token %d: byte %ld outside of the buffer written", k, (long)i - 20);
        if (tok != ts[k].tok) c.fail("token %d: wrote %d read %d", k, ts[k].tok, tok);
        if (tok == ARMAS_JSON_STRING && ts[k].str != buf) c.fail("token %d: string of %zu bytes came back as %zu bytes '%s'", k, ts[k].str.size(), strlen(buf), buf);
        if (tok == ARMAS_JSON_NUMBER && !close_rel(strtod(buf, nullptr), ts[k].num, ts[k].str == "f" ? 1e-7 : 6e-14)) c.fail("token %d: wrote %.17g read %s", k, ts[k].num, buf);
        memset(guard.data(), 0x7e, guard.size());
    }
    int tok = armas_json_read_token(guard.data(), 64, &ios);
    if (tok != ARMAS_JSON_EOF) c.fail("token %d read after the last one", tok);
    // unicode escapes and buffer limits
    int cp = s.chance(1, 2) ? s.range(1, 0x7f) : (s.chance(1, 2) ? s.range(0x80, 0x7ff) : s.range(0x800, 0xd7ff));
    char e[16];
    snprintf(e, sizeof e, s.chance(1, 2) ? "\\u%04x" : "\\u%04X", cp);
    std::string utf;
    if (cp < 0x80) utf = (char)cp;
    else if (cp < 0x800) { utf += (char)(0xc0 | cp >> 6); utf += (char)(0x80 | (cp & 63)); }
    else { utf += (char)(0xe0 | cp >> 12); utf += (char)(0x80 | ((cp >> 6) & 63)); utf += (char)(0x80 | (cp & 63)); }
    std::string pre((size_t)s.below(6), 'k');
    MemStream in;
    in.s = "\"" + pre + e + "z\"";
    armas_ios_init(&ios, &ms_vt, &in);
    size_t want = pre.size() + utf.size() + 1, bl = s.range(1, 16);
    memset(guard.data(), 0x7e, guard.size());
    tok = armas_json_read_token(guard.data() + 20, bl, &ios);
    for (size_t i = 0; i < guard.size(); i++)
        if ((i < 20 || i >= 20 + bl) && guard[i] != 0x7e) c.fail("string %s, buffer of %zu: byte %ld outside of the buffer written", in.s.c_str(), bl, (long)i - 20);
    if (tok == ARMAS_JSON_STRING) {
        if (pre + utf + "z" != std::string(guard.data() + 20)) c.fail("string %s read as '%s'", in.s.c_str(), guard.data() + 20);
    } else if (tok != ARMAS_JSON_E2BIG) c.fail("string %s gives token %d", in.s.c_str(), tok);
    else if (bl > want + 4) c.fail("string %s of %zu bytes does not fit a buffer of %zu", in.s.c_str(), want, bl);
    c.nontrivial = nt > 1;
}

// ------------------------------------------------------------------ C21: MatrixMarket
static std::string mm_dump(Case &c, const armas_dense_t *A, int fl)
{
    char *b = nullptr;
    size_t n = 0;
    FILE *f = open_memstream(&b, &n);
    int rc = armas_mmdump(f, A, fl);
    fclose(f);
    std::string r(b, n);
    ::free(b);
    if (rc < 0) c.fail("armas_mmdump returned %d", rc);
    if (rc != (int)r.size()) c.fail("armas_mmdump returned %d for %zu bytes", rc, r.size());
    return r;
}
struct Lines {
    std::vector<std::string> l;
    explicit Lines(const std::string &s) { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); l.push_back(s.substr(p, e - p)); p = e + 1; } }
};
static std::vector<std::string> words(const std::string &s) { std::istringstream i(s); std::vector<std::string> w; std::string x; while (i >> x) w.push_back(x); return w; }
static std::string lower(std::string s) { for (auto &ch : s) ch = (char)tolower((unsigned char)ch); return s; }

TARGET(io, mm_roundtrip, 8)
{
    int nd = s.range(1, 3);
    std::vector<Mat> M;
    std::vector<bool> sy;
    std::string text;
    for (int d = 0; d < nd; d++) {
        int m = iodim(s), n = iodim(s);
        sy.push_back(s.chance(1, 3));
        if (sy[d]) n = m;
        M.push_back(mk(s, m, n));
        io_fill(s, M[d]);
        c.d("%s%dx%d%s", d ? "; " : "", m, n, sy[d] ? " symmetric" : "");
        int fl = sy[d] ? ARMAS_SYMM : 0;
        std::string t = mm_dump(c, &M[d].m, fl);
        // independent reading
        Lines L(t);
        auto w = words(lower(L.l.empty() ? "" : L.l[0]));
        if (w.size() != 5 || w[0] != "%%matrixmarket" || w[1] != "matrix" || w[2] != "array" || w[3] != "real" || w[4] != (sy[d] ? "symmetric" : "general")) c.fail("banner '%s'", L.l.empty() ? "" : L.l[0].c_str());
        size_t ne = sy[d] ? (size_t)m * (m + 1) / 2 : (size_t)m * n;
        auto z = words(L.l.size() > 1 ? L.l[1] : "");
        if (z.size() != 2 || atoi(z[0].c_str()) != m || atoi(z[1].c_str()) != n) c.fail("size line '%s' of %dx%d", L.l.size() > 1 ? L.l[1].c_str() : "", m, n);
        if (L.l.size() != 2 + ne) c.fail("%zu element lines for %zu elements", L.l.size() - 2, ne);
        size_t k = 2;
        for (int j = 0; j < n; j++)
            for (int i = sy[d] ? j : 0; i < m; i++, k++)
                if (!close_rel(strtod(L.l[k].c_str(), nullptr), M[d].e(i, j), 6e-14)) c.fail("element (%d,%d) = %.17g written as %s", i, j, M[d].e(i, j), L.l[k].c_str());
        text += t;
        if (ne > 1) c.nontrivial = true;
    }
    FILE *f = rd_open(text);
    for (int d = 0; d < nd; d++) {
        armas_dense_t A;
        memset(&A, 0x5a, sizeof A);
        int fl = 0x5a5a;
        int rc = armas_mmload(&A, &fl, f);
        if (rc < 0) c.fail("loading matrix %d of the file returned %d", d, rc);
        if (fl != (sy[d] ? ARMAS_SYMM : 0)) c.fail("matrix %d: flags %x after loading a %s matrix", d, fl, sy[d] ? "symmetric" : "general");
        if (A.rows != M[d].r() || A.cols != M[d].c()) c.fail("matrix %d of %dx%d loaded as %dx%d", d, M[d].r(), M[d].c(), A.rows, A.cols);
        valid_dense(c, &A);
        for (int j = 0; j < A.cols; j++)
            for (int i = sy[d] ? j : 0; i < A.rows; i++)
                if (!close_rel(A.elems[i + (size_t)j * A.step], M[d].e(i, j), 6e-14)) c.fail("matrix %d element (%d,%d) = %.17g loaded as %.17g", d, i, j, M[d].e(i, j), A.elems[i + (size_t)j * A.step]);
        armas_release(&A);
    }
    fclose(f);
    for (auto &m : M) frame_const(c, m, "A");
}

// file of an independent writer
struct MDoc { std::string text; int m, n; std::vector<double> v; std::vector<char> def; bool sym, coord; std::vector<std::pair<int, int>> ij; std::vector<double> val; };
static MDoc mm_doc(Src &s, Case &c, bool sparse, int outside = 0)
{
    MDoc d;
    d.m = s.range(1, 6);
    d.n = s.range(1, 6);
    d.sym = s.chance(1, 3);
    if (d.sym) d.n = d.m;
    d.coord = sparse || s.chance(1, 3);
    d.v.assign((size_t)d.m * d.n, 0.0);
    d.def.assign((size_t)d.m * d.n, 1);
    std::string nl = s.chance(1, 6) ? "\r\n" : "\n";
    bool mixed = s.chance(1, 2);
    auto sep = [&]() { return s.chance(1, 5) ? std::string("  ") : std::string(" "); };
    std::string t = mixed ? "%%MatrixMarket" : "%%matrixmarket";
    t += sep() + "matrix" + sep() + (d.coord ? (mixed ? "Coordinate" : "coordinate") : "array") + sep() + (mixed ? "REAL" : "real") + sep() + (d.sym ? "symmetric" : "general") + nl;
    auto noise = [&]() {
        for (int n = s.weighted({8, 2, 1}); n > 0; n--) { if (s.chance(2, 3)) { t += "% comment 1 2 3" + nl; c.label("comments"); } else { t += rnd_ws(s, true) + nl; c.label("blank-lines"); } }
    };
    noise();
    int ne = d.coord ? s.range(0, 9) : (d.sym ? d.m * (d.m + 1) / 2 : d.m * d.n);
    t += rnd_ws(s, true) + std::to_string(d.m) + sep() + std::to_string(d.n);
    if (d.coord) t += sep() + std::to_string(ne);
    t += nl;
    Rng g(s.seed());
    for (int k = 0, i = 0, j = 0; k < ne; k++) {
        noise();
        std::string x = num_text(s, io_value(s, g));
        double v = strtod(x.c_str(), nullptr);
        if (d.coord) {
            i = s.below(d.m);
            j = d.sym ? s.below(i + 1) : s.below(d.n);
            t += rnd_ws(s, true) + std::to_string(i + 1) + sep() + std::to_string(j + 1) + sep() + x + rnd_ws(s, true) + nl;
            d.v[(size_t)j * d.m + i] = v;
        } else {
            t += rnd_ws(s, true) + x + rnd_ws(s, true) + nl;
            d.v[(size_t)j * d.m + i] = v;
        }
        d.ij.push_back({i, j});
        d.val.push_back(v);
        if (!d.coord && ++i == d.m) { j++; i = d.sym ? j : 0; }
    }
    if (d.sym) for (int j = 0; j < d.n; j++) for (int i = 0; i < j; i++) d.def[(size_t)j * d.m + i] = 0;
    if (ne && s.chance(1, 4) && t.size() > nl.size()) t.resize(t.size() - nl.size());      // no line end at end of file
    if (d.coord) c.label("coordinate-data");
    d.text = t;
    return d;
}
TARGET(io, mm_text, 6)
{
    MDoc d = mm_doc(s, c, false);
    c.d("'%.300s'", d.text.c_str());
    FILE *f = rd_open(d.text);
    armas_dense_t A;
    memset(&A, 0x5a, sizeof A);
    int fl = 0x5a5a, rc = armas_mmload(&A, &fl, f);
    fclose(f);
    if (rc < 0) c.fail("valid file rejected with %d", rc);
    if (fl != (d.sym ? ARMAS_SYMM : 0)) c.fail("flags %x after loading a %s matrix", fl, d.sym ? "symmetric" : "general");
    if (A.rows != d.m || A.cols != d.n) c.fail("file of %dx%d loaded as %dx%d", d.m, d.n, A.rows, A.cols);
    valid_dense(c, &A);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) {
            double x = A.elems[i + (size_t)j * A.step], y = d.v[(size_t)j * d.m + i];
            if (d.def[(size_t)j * d.m + i] && memcmp(&x, &y, 8) != 0 && !(x == 0 && y == 0)) c.fail("element (%d,%d): text denotes %.17g, loaded %.17g", i, j, y, x);
        }
    armas_release(&A);
    c.nontrivial = d.val.size() > 1;
}

// random sparse matrix, entries at distinct places; coo in drawn order
struct SpRef { int m, n; std::vector<std::pair<int, int>> ij; std::vector<double> v; };
static armas_sparse_t *sp_random(Src &s, Case &c, SpRef &r, int kind)
{
    r.m = iodim(s);
    r.n = iodim(s);
    int cap = r.m * r.n;
    int ne = cap ? s.range(0, std::min(cap, 30)) : 0;
    std::vector<int> pos(cap);
    for (int k = 0; k < cap; k++) pos[k] = k;
    Rng g(s.seed());
    for (int k = 0; k < ne; k++) std::swap(pos[k], pos[k + g.below(cap - k)]);
    armas_sparse_t *A = armassp_new(r.m, r.n, s.chance(1, 3) ? ne / 2 : ne, ARMASSP_COO);
    if (!A) c.fail("armassp_new(%d,%d,%d,COO) failed", r.m, r.n, ne);
    for (int k = 0; k < ne; k++) {
        double v = io_value(s, g);
        r.ij.push_back({pos[k] % r.m, pos[k] / r.m});
        r.v.push_back(v);
        if (armassp_append(A, r.ij[k].first, r.ij[k].second, v) != 0) c.fail("append of element %d to %dx%d failed", k, r.m, r.n);
    }
    if (kind != ARMASSP_COO) {
        armas_sparse_t *B = armassp_convert(A, (armassp_type_enum)kind);
        if (!B) c.fail("conversion of %dx%d with %d elements to kind %d failed", r.m, r.n, ne, kind);
        armassp_free(A);
        A = B;
    }
    return A;
}
static void sp_same(Case &c, const armas_sparse_t *A, const SpRef &r, double rel, const char *what)
{
    if (A->kind != ARMASSP_COO) c.fail("%s: loaded matrix is of kind %d", what, A->kind);
    if (A->rows != r.m || A->cols != r.n || A->nnz != (int)r.v.size()) c.fail("%s: %dx%d with %zu elements came back as %dx%d with %d", what, r.m, r.n, r.v.size(), A->rows, A->cols, A->nnz);
    std::vector<int> p(r.v.size()), q(r.v.size());
    for (size_t k = 0; k < p.size(); k++) p[k] = q[k] = (int)k;
    std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return r.ij[a] < r.ij[b]; });
    std::stable_sort(q.begin(), q.end(), [&](int a, int b) { auto *e = A->elems.ep; return std::make_pair(e[a].i, e[a].j) < std::make_pair(e[b].i, e[b].j); });
    for (size_t k = 0; k < p.size(); k++) {
        auto &e = A->elems.ep[q[k]];
        if (e.i != r.ij[p[k]].first || e.j != r.ij[p[k]].second) c.fail("%s: element (%d,%d) came back as (%d,%d)", what, r.ij[p[k]].first, r.ij[p[k]].second, e.i, e.j);
        if (!close_rel(e.val, r.v[p[k]], rel)) c.fail("%s: element (%d,%d) = %.17g came back as %.17g", what, e.i, e.j, r.v[p[k]], e.val);
    }
}
TARGET(io, sparse_roundtrip, 6)
{
    int nd = s.range(1, 2);
    std::vector<SpRef> R(nd);
    std::string text;
    std::vector<bool> sy;
    for (int d = 0; d < nd; d++) {
        int kind = s.below(3);
        armas_sparse_t *A = sp_random(s, c, R[d], kind);
        sy.push_back(s.chance(1, 4));
        c.d("%s%dx%d nnz=%zu kind=%d%s", d ? "; " : "", R[d].m, R[d].n, R[d].v.size(), kind, sy[d] ? " symmetric" : "");
        char *b = nullptr;
        size_t n = 0;
        FILE *f = open_memstream(&b, &n);
        int rc = armassp_mmdump(f, A, sy[d] ? ARMAS_MM_SYMMETRIC : 0);
        fclose(f);
        std::string t(b, n);
        ::free(b);
        if (rc != (int)n) c.fail("armassp_mmdump returned %d for %zu bytes", rc, n);
        Lines L(t);
        auto w = words(lower(L.l.empty() ? "" : L.l[0]));
        if (w.size() != 5 || w[0] != "%%matrixmarket" || w[1] != "matrix" || w[2] != "coordinate" || w[3] != "real" || w[4] != (sy[d] ? "symmetric" : "general")) c.fail("banner '%s'", L.l.empty() ? "" : L.l[0].c_str());
        auto z = words(L.l.size() > 1 ? L.l[1] : "");
        if (z.size() != 3 || atoi(z[0].c_str()) != R[d].m || atoi(z[1].c_str()) != R[d].n || atoi(z[2].c_str()) != (int)R[d].v.size()) c.fail("size line '%s'", L.l.size() > 1 ? L.l[1].c_str() : "");
        if (L.l.size() != 2 + R[d].v.size()) c.fail("%zu element lines for %zu elements", L.l.size() - 2, R[d].v.size());
        std::map<std::pair<int, int>, double> m;
        for (size_t k = 2; k < L.l.size(); k++) { auto x = words(L.l[k]); if (x.size() != 3) c.fail("element line '%s'", L.l[k].c_str()); m[{atoi(x[0].c_str()) - 1, atoi(x[1].c_str()) - 1}] = strtod(x[2].c_str(), nullptr); }
        for (size_t k = 0; k < R[d].v.size(); k++) {
            auto it = m.find(R[d].ij[k]);
            if (it == m.end()) c.fail("element (%d,%d) is not at its one based position in the file", R[d].ij[k].first, R[d].ij[k].second);
            if (!close_rel(it->second, R[d].v[k], 6e-14)) c.fail("element (%d,%d) = %.17g written as %.17g", R[d].ij[k].first, R[d].ij[k].second, R[d].v[k], it->second);
        }
        text += t;
        armassp_free(A);
        if (R[d].v.size() > 1) c.nontrivial = true;
    }
    FILE *f = rd_open(text);
    for (int d = 0; d < nd; d++) {
        int tc = 0;
        armas_sparse_t *B = armassp_mmload(&tc, f);
        if (!B) c.fail("loading matrix %d of the file failed", d);
        if (((tc & ARMAS_MM_SYMMETRIC) != 0) != sy[d]) c.fail("typecode %x of a %s matrix", tc, sy[d] ? "symmetric" : "general");
        sp_same(c, B, R[d], 6e-14, "written and loaded");
        armassp_free(B);
    }
    fclose(f);
}
// text for people: elements of the matrix in their order, to the precision of the format; large ones abbreviated
TARGET(io, print, 3)
{
    char *b = nullptr;
    size_t nb = 0;
    if (s.chance(1, 2)) {
        int m = s.chance(1, 3) ? s.range(1, 40) : s.range(1, 18), n = s.chance(1, 3) ? s.range(1, 30) : s.range(1, 9);
        armas_dense_t P, A;
        int ro = s.range(0, 3), co = s.range(0, 2);
        armas_init(&P, m + ro + s.range(0, 2), n + co);
        Rng g(s.seed());
        for (int j = 0; j < P.cols; j++) for (int i = 0; i < P.rows; i++) armas_set_unsafe(&P, i, j, (g.unit() - 0.5) * ldexp(1, (int)g.below(40) - 20));
        armas_submatrix(&A, &P, ro, co, m, n);
        const char *fmt = s.pick<const char *>({"%.15e", "%8.1e", "%g", "%12.4f", nullptr});
        bool pr = s.chance(1, 5);
        if (pr) fmt = nullptr;
        c.d("print %dx%d step %d format %s", m, n, A.step, fmt ? fmt : "default");
        FILE *f = open_memstream(&b, &nb);
        if (pr) armas_print(&A, f); else armas_printf(f, fmt, &A);
        fclose(f);
        std::string t(b, nb);
        ::free(b);
        Lines L(t);
        std::vector<std::vector<std::string>> num;
        for (auto &l : L.l) {
            std::string x = l;
            for (auto &ch : x) if (strchr("[],", ch)) ch = ' ';
            std::vector<std::string> w;
            for (auto &y : words(x)) if (y.find_first_not_of('.') != std::string::npos) w.push_back(y);
            if (!w.empty()) num.push_back(w);
        }
        auto same = [&](const std::string &got, int i, int j) {
            char e[400];
            snprintf(e, sizeof e, fmt ? fmt : "%8.1e", armas_get_unsafe(&A, i, j));
            auto w = words(e);
            if (w[0] != got) c.fail("element (%d,%d) = %.17g printed as '%s', expected '%s'", i, j, armas_get_unsafe(&A, i, j), got.c_str(), w[0].c_str());
        };
        if (num.empty() || num.size() > (size_t)m) c.fail("%zu lines for %d rows", num.size(), m);
        if (m <= 18 && num.size() != (size_t)m) c.fail("%zu lines for %d rows", num.size(), m);
        for (size_t k = 0; k < num.size(); k++) {
            // abbreviated output has the first rows and the last rows
            bool tail = num.size() < (size_t)m && k >= num.size() / 2;
            int i = tail ? m - (int)(num.size() - k) : (int)k;
            auto &w = num[k];
            if (w.size() > (size_t)n || (n <= 9 && w.size() != (size_t)n)) c.fail("%zu elements printed on line of %d columns", w.size(), n);
            for (size_t q = 0; q < w.size(); q++) same(w[q], i, w.size() < (size_t)n && q >= w.size() / 2 ? n - (int)(w.size() - q) : (int)q);
        }
        armas_release(&P);
        c.label("dense");
        c.nontrivial = m > 1 && n > 1;
        return;
    }
    SpRef r;
    int kind = s.below(3);
    armas_sparse_t *A = sp_random(s, c, r, kind);
    bool idx = s.chance(1, 3) && kind != ARMASSP_COO;
    c.d("%s %dx%d nnz=%zu kind=%d", idx ? "iprintf" : "pprintf", r.m, r.n, r.v.size(), kind);
    c.label(idx ? "indexes" : "pattern");
    FILE *f = open_memstream(&b, &nb);
    if (idx) armassp_iprintf(f, A); else armassp_pprintf(f, A);
    fclose(f);
    std::string t(b, nb);
    ::free(b);
    Lines L(t);
    std::set<std::pair<int, int>> at(r.ij.begin(), r.ij.end()), got;
    if (idx) {
        int np = kind == ARMASSP_CSC ? r.n : r.m;
        if ((int)L.l.size() != np) c.fail("%zu lines for %d %s", L.l.size(), np, kind == ARMASSP_CSC ? "columns" : "rows");
        for (int k = 0; k < np; k++) {
            std::string x = L.l[k].substr(std::min(L.l[k].size(), L.l[k].find('[') + 1));
            for (auto &ch : x) if (strchr("[],", ch)) ch = ' ';
            for (auto &w : words(x)) { int v = atoi(w.c_str()); got.insert(kind == ARMASSP_CSC ? std::make_pair(v, k) : std::make_pair(k, v)); }
        }
    } else if (r.m > 0 && r.n > 0) {
        if ((int)L.l.size() != r.m) c.fail("%zu lines for %d rows", L.l.size(), r.m);
        for (int i = 0; i < r.m; i++) {
            if ((int)L.l[i].size() != r.n) c.fail("line of %zu characters for %d columns", L.l[i].size(), r.n);
            for (int j = 0; j < r.n; j++) if (L.l[i][j] == 'x') got.insert({i, j});
        }
    } else got = at;
    if (got != at) c.fail("structure printed has %zu elements, matrix %zu (or other places)", got.size(), at.size());
    armassp_free(A);
    c.nontrivial = r.v.size() > 1;
}
TARGET(io, sparse_text, 4)
{
    MDoc d = mm_doc(s, c, true);
    c.d("'%.300s'", d.text.c_str());
    FILE *f = rd_open(d.text);
    int tc = 0;
    armas_sparse_t *B = armassp_mmload(&tc, f);
    fclose(f);
    if (!B) c.fail("valid file rejected");
    if (((tc & ARMAS_MM_SYMMETRIC) != 0) != d.sym) c.fail("typecode %x of a %s matrix", tc, d.sym ? "symmetric" : "general");
    SpRef r{d.m, d.n, d.ij, d.val};
    sp_same(c, B, r, 0, "file");
    armassp_free(B);
    c.nontrivial = d.val.size() > 1;
}
TARGET(io, mm_fault, 3)
{
    bool sp = s.chance(1, 2);
    Mat A = mk(s, s.range(1, 4), s.range(1, 4));
    io_fill(s, A);
    SpRef r;
    armas_sparse_t *S = nullptr;
    if (sp) S = sp_random(s, c, r, s.below(3));
    auto dump = [&](FILE *f) { return sp ? armassp_mmdump(f, S, 0) : armas_mmdump(f, &A, 0); };
    CkW all{"", (size_t)-1 / 2};
    FILE *f = ck_open(&all, true);
    int rc = dump(f);
    fclose(f);
    if (rc != (int)all.s.size()) c.fail("returned %d for %zu bytes", rc, all.s.size());
    size_t k = s.draw((uint32_t)all.s.size());
    c.d("%s file of %zu bytes, failure at %zu", sp ? "sparse" : "dense", all.s.size(), k);
    CkW w{"", k};
    f = ck_open(&w, true);
    rc = dump(f);
    fclose(f);
    if (rc >= 0) c.fail("write error at byte %zu of %zu not reported (returned %d)", k, all.s.size(), rc);
    // files that end before the last element line are incomplete
    size_t ls = all.s.rfind('\n', all.s.size() - 2) + 1;
    if (k <= ls && (!sp || !r.v.empty())) {
        FILE *g = rd_open(all.s.substr(0, k));
        if (sp) {
            int tc = 0;
            armas_sparse_t *B = armassp_mmload(&tc, g);
            if (B) c.fail("file truncated at %zu of %zu accepted", k, all.s.size());
        } else {
            armas_dense_t B;
            memset(&B, 0x5a, sizeof B);
            int fl = 0;
            if (armas_mmload(&B, &fl, g) >= 0) c.fail("file truncated at %zu of %zu accepted", k, all.s.size());
        }
        fclose(g);
    }
    if (S) armassp_free(S);
    c.nontrivial = true;
}

// ------------------------------------------------------------------ C22: arbitrary content
static std::string mutate(Src &s, Case &c, std::string t)
{
    static const char *dict[] = {"-1", "0", "2147483647", "2147483648", "-2147483649", "4294967296", "65536", "46341", "99999999999999999999", "1e400", "-", ".", "e", "1e", "nan", "inf",
        "\"", "[", "]", "{", "}", ",", ":", "\\u00e9", "\\", "null", "true", "%", "%%MatrixMarket", "\n", "\r", " ", "symmetric", "general", "array", "coordinate", "complex", "pattern", "\"rows\":", "\"data\":[", "1 1 1", "0 0 0", "0x10", "1.5"};
    int n = s.weighted({1, 6, 3, 2, 1});
    for (int k = 0; k < n; k++) {
        size_t p = t.empty() ? 0 : s.draw((uint32_t)t.size());
        switch (s.below(8)) {
        case 0: if (!t.empty()) t[p] = (char)s.range(0, 255); break;
        case 1: t.insert(p, s.pick(dict)); break;
        case 2: { // replace a number
            size_t a = t.find_first_of("0123456789", p), e = a;
            if (a == std::string::npos) break;
            while (e < t.size() && strchr("0123456789.eE+-", t[e])) e++;
            t.replace(a, e - a, s.pick(dict));
            break;
        }
        case 3: if (!t.empty()) t.erase(p, 1 + s.below(8)); break;
        case 4: t.resize(p); break;
        case 5: if (!t.empty()) { std::string x = t.substr(p, 1 + s.below(20)); t.insert(s.draw((uint32_t)t.size()), x); } break;
        case 6: t.insert(p, std::string(s.pickl({1, 70, 600, 3}), (char)s.pickl({' ', '1', 'a', '"', '%'}))); break;
        default: { // header numbers
            size_t a = t.find_first_of("0123456789"), e = a;
            if (a == std::string::npos) break;
            while (e < t.size() && isdigit((unsigned char)t[e])) e++;
            t.replace(a, e - a, s.pick(dict));
        }
        }
    }
    return t;
}
static std::string rnd_bytes(Src &s)
{
    std::string t;
    for (int n = s.range(0, 40); n > 0; n--) t += (char)(s.chance(1, 3) ? s.range(0, 255) : s.pickl({'{', '}', '[', ']', '"', ',', ':', '1', '-', 'e', '.', ' ', '\n', '%', 't', 'n', '\\', 'u'}));
    return t;
}
struct Outcome {
    int rc = 0, m = -1, n = -1, extra = 0;
    std::vector<double> v;
    bool operator==(const Outcome &o) const { return (rc < 0) == (o.rc < 0) && m == o.m && n == o.n && extra == o.extra && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * 8)); }
};
static void __attribute__((noinline)) dirty_stack(int v)
{
    volatile char x[6000];
    for (size_t i = 0; i < sizeof x; i++) x[i] = (char)v;
    volatile char sink = x[77];
    (void)sink;
}
template <class F> static Outcome counted(Case &c, const char *what, F f)
{
    Outcome o;
    cnt_live = 0;
    f(o);
    if (cnt_live != 0) c.fail("%s: %ld allocations not released (returned %d)", what, cnt_live, o.rc);
    return o;
}
static void take(Case &c, Outcome &o, const armas_dense_t *A)
{
    valid_dense(c, A);
    o.m = A->rows;
    o.n = A->cols;
    if (o.m > 0 && (long)o.m * o.n <= 20000)
        for (int j = 0; j < o.n; j++)
            for (int i = 0; i < o.m; i++) o.v.push_back(A->elems[i + (size_t)j * A->step]);
}
static void json_any(Src &s, Case &c, const std::string &t)
{
    Outcome first;
    for (int how = 0; how < 4; how++) {
        MemStream in;
        in.s = t;
        std::vector<char> exact(t.begin(), t.end());
        FILE *f = how == 1 ? rd_open(t) : nullptr;
        if (f) { fgetc(f); rewind(f); }     // buffer allocated
        bool given = how & 1;
        dirty_stack(how * 0x55);
        Outcome o = counted(c, "armas_json_read", [&](Outcome &r) {
            armas_iostream_t ios;
            Got g(given);
            Counted cn;
            if (how == 1) armas_ios_file(&ios, f);
            else if (how == 2) armas_ios_string(&ios, exact.data(), (int)exact.size());
            else armas_ios_init(&ios, &ms_vt, &in);
            r.rc = armas_json_read(&g.A, &ios);
            armas_ios_close(&ios);
            cnt_on = false;
            if (r.rc >= 0 && g.A) take(c, r, g.A);
            if (r.rc < 0 && !given && g.A) c.fail("failing read returned a matrix");
            cnt_on = true;
            g.drop(r.rc >= 0);
        });
        if (f) fclose(f);
        if (how == 0) first = o;
        else if (!(o == first)) c.fail("result depends on the kind of stream or previous memory content: (%d,%d,%d) and (%d,%d,%d)", first.rc, first.m, first.n, o.rc, o.m, o.n);
    }
    c.label(first.rc >= 0 ? "accepted" : "rejected");
}
static void mm_any(Src &s, Case &c, const std::string &t)
{
    Outcome first;
    for (int how = 0; how < 2; how++) {
        FILE *f = rd_open(t);
        fgetc(f);
        rewind(f);
        dirty_stack(how * 0x55);
        Outcome o = counted(c, "armas_mmload", [&](Outcome &r) {
            armas_dense_t A;
            memset(&A, 0x5a, sizeof A);
            r.extra = 0x5a5a;
            Counted cn;
            r.rc = armas_mmload(&A, &r.extra, f);
            cnt_on = false;
            if (r.rc >= 0) take(c, r, &A);
            else r.extra = 0;
            cnt_on = true;
            if (r.rc >= 0) armas_release(&A);
        });
        fclose(f);
        if (how == 0) first = o;
        else if (!(o == first)) c.fail("result depends on previous memory content");
    }
    c.label(first.rc >= 0 ? "accepted" : "rejected");
}
static void sp_any(Src &s, Case &c, const std::string &t)
{
    Outcome first;
    for (int how = 0; how < 2; how++) {
        FILE *f = rd_open(t);
        fgetc(f);
        rewind(f);
        dirty_stack(how * 0x55);
        Outcome o = counted(c, "armassp_mmload", [&](Outcome &r) {
            Counted cn;
            armas_sparse_t *A = armassp_mmload(&r.extra, f);
            cnt_on = false;
            r.rc = A ? 0 : -1;
            if (!A) r.extra = 0;
            if (A) {
                r.m = A->rows;
                r.n = A->cols;
                if (A->kind != ARMASSP_COO || A->rows < 0 || A->cols < 0 || A->nnz < 0 || A->nnz > A->size) c.fail("loaded sparse matrix is not well-formed: kind %d %dx%d nnz %d size %d", A->kind, A->rows, A->cols, A->nnz, A->size);
                for (int k = 0; k < A->nnz; k++) {
                    if (A->elems.ep[k].i < 0 || A->elems.ep[k].i >= A->rows || A->elems.ep[k].j < 0 || A->elems.ep[k].j >= A->cols) c.fail("element %d at (%d,%d) of a %dx%d matrix accepted", k, A->elems.ep[k].i, A->elems.ep[k].j, A->rows, A->cols);
                    r.v.push_back(A->elems.ep[k].i);
                    r.v.push_back(A->elems.ep[k].j);
                    r.v.push_back(A->elems.ep[k].val);
                }
            }
            cnt_on = true;
            if (A) armassp_free(A);
        });
        fclose(f);
        if (how == 0) first = o;
        else if (!(o == first)) c.fail("result depends on previous memory content");
    }
    c.label(first.rc >= 0 ? "accepted" : "rejected");
}
static std::string show(const std::string &t)
{
    std::string r;
    for (unsigned char ch : t.substr(0, 400)) { char b[8]; if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += (char)ch; }
    return r;
}
TARGET(iofuzz, json, 10)
{
    std::string t = s.chance(1, 10) ? rnd_bytes(s) : json_doc(s, c).text;
    t = mutate(s, c, t);
    c.d("'%s'", show(t).c_str());
    json_any(s, c, t);
    c.nontrivial = !t.empty();
}
TARGET(iofuzz, mm, 8)
{
    std::string t = s.chance(1, 15) ? rnd_bytes(s) : mm_doc(s, c, false).text;
    t = mutate(s, c, t);
    c.d("'%s'", show(t).c_str());
    mm_any(s, c, t);
    c.nontrivial = !t.empty();
}
TARGET(iofuzz, sparse, 8)
{
    std::string t = s.chance(1, 15) ? rnd_bytes(s) : mm_doc(s, c, true).text;
    t = mutate(s, c, t);
    c.d("'%s'", show(t).c_str());
    sp_any(s, c, t);
    c.nontrivial = !t.empty();
}
// token reader with every buffer length
TARGET(iofuzz, tokens, 4)
{
    std::string t = s.chance(1, 4) ? rnd_bytes(s) : mutate(s, c, json_doc(s, c).text);
    size_t len = s.range(0, 70);
    c.d("buffer %zu: '%s'", len, show(t).c_str());
    std::vector<char> exact(t.begin(), t.end());
    armas_iostream_t ios;
    armas_ios_string(&ios, exact.data(), (int)exact.size());
    char *buf = (char *)::malloc(len ? len : 1);
    for (size_t k = 0;; k++) {
        int tok = armas_json_read_token(buf, len, &ios);
        if (tok == ARMAS_JSON_EOF || tok == ARMAS_JSON_E2BIG || tok == ARMAS_JSON_EINVAL) break;
        if (k > t.size()) c.fail("more tokens than characters");
        if (tok == ARMAS_JSON_STRING || tok == ARMAS_JSON_NUMBER) {
            if (!memchr(buf, 0, len)) c.fail("token %zu is not terminated within the buffer", k);
            if (tok == ARMAS_JSON_NUMBER) {
                // strict prefix of the grammar: only leading zeros are tolerated
                std::string x(buf);
                size_t z = x[0] == '-';
                while (z + 1 < x.size() && x[z] == '0' && isdigit((unsigned char)x[z + 1])) x.erase(z, 1);
                Scan sc(x);
                sc.num();
                if (sc.bad || sc.p != x.size()) c.fail("'%s' accepted as a number", buf);
            }
        } else if (tok != ARMAS_JSON_TRUE && tok != ARMAS_JSON_FALSE && tok != ARMAS_JSON_NULL && !(tok > 0 && tok < 128 && strchr("{}[]:,", tok))) c.fail("token code %d", tok);
    }
    ::free(buf);
    armas_ios_close(&ios);
    c.nontrivial = !t.empty();
}
// headers that must be rejected
TARGET(iofuzz, badheader, 5)
{
    static const char *badint[] = {"-1", "-5", "2147483648", "4294967297", "18446744073709551618", "-9223372036854775808", "1.5", "nan", "abc", "\"3\"", "null", "[1]", ""};
    std::string b = s.pick(badint);
    int what = s.below(3);
    std::string t;
    if (what == 0) {
        if (b == "18446744073709551618") b = "1e30";
        bool r = s.chance(1, 2);
        t = "{\"rows\":" + (r ? b : "2") + ",\"cols\":" + (r ? "2" : b) + ",\"data\":[1,2,3,4]}";
        c.d("%s", t.c_str());
        MemStream in;
        in.s = t;
        armas_iostream_t ios;
        armas_ios_init(&ios, &ms_vt, &in);
        Got g(s.chance(1, 2));
        int rc = armas_json_read(&g.A, &ios);
        if (rc >= 0) c.fail("document with dimension '%s' accepted as %dx%d", b.c_str(), g.A ? g.A->rows : -1, g.A ? g.A->cols : -1);
    } else {
        bool coord = what == 2 || s.chance(1, 2);
        if (b == "1.5") b = "x1";       // number parsing stops at the point
        int at = s.below(coord ? 3 : 2);
        std::string dims[3] = {"2", "2", "4"};
        dims[at] = b;
        if (b.empty() && at != (coord ? 2 : 1)) dims[coord ? 2 : 1] = "";
        t = std::string("%%MatrixMarket matrix ") + (coord ? "coordinate" : "array") + " real general\n" + dims[0] + " " + dims[1] + (coord ? " " + dims[2] : "") + "\n";
        for (int k = 0; k < 4; k++) t += coord ? std::to_string(k % 2 + 1) + " " + std::to_string(k / 2 + 1) + " 1.5\n" : "1.5\n";
        c.d("%s", show(t).c_str());
        FILE *f = rd_open(t);
        if (what == 2) {
            int tc;
            armas_sparse_t *A = armassp_mmload(&tc, f);
            if (A) c.fail("sparse file with size line '%s %s %s' accepted as %dx%d nnz %d", dims[0].c_str(), dims[1].c_str(), dims[2].c_str(), A->rows, A->cols, A->nnz);
        } else {
            armas_dense_t A;
            memset(&A, 0x5a, sizeof A);
            int fl;
            int rc = armas_mmload(&A, &fl, f);
            if (rc >= 0) c.fail("file with size line '%s %s' accepted as %dx%d", dims[0].c_str(), dims[1].c_str(), A.rows, A.cols);
        }
        fclose(f);
    }
    c.nontrivial = true;
}

// ------------------------------------------------------------------ readers when memory runs out (C29)
#ifdef VF_ALLOC
namespace pbt { long vf_failed(); }
static bool ran_out() { return mode.inject && pbt::vf_failed() > 0; }
#else
static bool ran_out() { return false; }
#endif
TARGET(memio, json, 6)
{
    JDoc d = json_doc(s, c);
    c.d("'%.300s'", d.text.c_str());
    int how = s.below(3);
    MemStream in;
    in.s = d.text;
    armas_iostream_t ios;
    FILE *f = nullptr;
    std::vector<char> exact(in.s.begin(), in.s.end());
    if (how == 0) armas_ios_init(&ios, &ms_vt, &in);
    else if (how == 1) { f = rd_open(in.s); armas_ios_file(&ios, f); }
    else armas_ios_string(&ios, exact.data(), (int)exact.size());
    Got g(s.chance(1, 2));
    int rc = armas_json_read(&g.A, &ios);
    armas_ios_close(&ios);
    if (f) fclose(f);
    c.nontrivial = true;
    if (rc != 0) {
        if (!ran_out()) c.fail("valid document rejected with %d", rc);
        if (!g.given && g.A) c.fail("reading returned %d and a matrix", rc);
        return;
    }
    if (!g.A) c.fail("no matrix");
    if (g.A->rows != d.m || g.A->cols != d.n) c.fail("document of %dx%d read as %dx%d", d.m, d.n, g.A->rows, g.A->cols);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) {
            double x = g.A->elems[i + (size_t)j * g.A->step], y = d.v[(size_t)j * d.m + i];
            if (memcmp(&x, &y, 8) != 0 && !(x == 0 && y == 0)) c.fail("element (%d,%d): text denotes %.17g, read %.17g", i, j, y, x);
        }
    g.drop(true);
}
TARGET(memio, mm, 5)
{
    MDoc d = mm_doc(s, c, false);
    c.d("'%.300s'", d.text.c_str());
    FILE *f = rd_open(d.text);
    armas_dense_t A;
    memset(&A, 0x5a, sizeof A);
    int fl = 0x5a5a, rc = armas_mmload(&A, &fl, f);
    fclose(f);
    c.nontrivial = true;
    if (rc < 0) {
        if (!ran_out()) c.fail("valid file rejected with %d", rc);
        return;
    }
    if (A.rows != d.m || A.cols != d.n) c.fail("file of %dx%d loaded as %dx%d", d.m, d.n, A.rows, A.cols);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) {
            double x = A.elems[i + (size_t)j * A.step], y = d.v[(size_t)j * d.m + i];
            if (d.def[(size_t)j * d.m + i] && memcmp(&x, &y, 8) != 0 && !(x == 0 && y == 0)) c.fail("element (%d,%d): text denotes %.17g, loaded %.17g", i, j, y, x);
        }
    armas_release(&A);
}
TARGET(memio, sparse, 5)
{
    MDoc d = mm_doc(s, c, true);
    c.d("'%.300s'", d.text.c_str());
    FILE *f = rd_open(d.text);
    int tc = 0;
    armas_sparse_t *B = armassp_mmload(&tc, f);
    fclose(f);
    c.nontrivial = true;
    if (!B) {
        if (!ran_out()) c.fail("valid file rejected");
        return;
    }
    SpRef r{d.m, d.n, d.ij, d.val};
    sp_same(c, B, r, 0, "file");
    armassp_free(B);
}
