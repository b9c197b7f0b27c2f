// pivot vectors with guard elements
#ifndef VF_PIV_H
#define VF_PIV_H
#include "lap.h"
struct Piv {
    armas_pivot_t p{};
    int n;
    std::vector<int> buf, snap;
    Piv(int n_) : n(n_), buf(mode.exact ? std::max(1, n_) : n_ + 8, 0x5a5a5a5a)
    {
        armas_pivot_make(&p, n, buf.data() + (mode.exact ? 0 : 4));
        for (int i = 0; i < n; i++) data()[i] = 0;
    }
    Piv(const Piv &) = delete;
    int *data() { return buf.data() + (mode.exact ? 0 : 4); }
    int &operator[](int i) { return data()[i]; }
    armas_pivot_t *operator&() { return &p; }
    void snapshot() { snap = buf; }
    // contents left over from an earlier use (the vector is output only)
    void stale(Src &s)
    {
        int k = s.range(0, 2);
        if (k == 0) return;
        Rng g(s.seed());
        for (int i = 0; i < n; i++) data()[i] = k == 1 ? 1 + g.below(n) : -(int)(1 + g.below(n));
    }
    void guards(Case &c)
    {
        if (!mode.exact) for (int i = 0; i < 4; i++) if (buf[i] != 0x5a5a5a5a || buf[4 + n + i] != 0x5a5a5a5a) c.fail("pivot vector written outside of its %d elements", n);
        if (p.indexes != data()) c.fail("pivot vector descriptor changed");
    }
    void same(Case &c) { if (buf != snap) c.fail("read-only pivot vector changed"); }
};
inline void swaprows(LM &A, int i, int j) { for (int q = 0; q < A.c; q++) std::swap(A(i, q), A(j, q)); }
inline void swapcols(LM &A, int i, int j) { for (int q = 0; q < A.r; q++) std::swap(A(q, i), A(q, j)); }
#endif
