// Helpers for factorization checks
#ifndef VF_LAP_H
#define VF_LAP_H
#include "la.h"
struct MRef { Mat *p; MRef(Mat &m) : p(std::addressof(m)) {} };
struct MatList : std::vector<Mat *> {
    MatList(std::initializer_list<MRef> l) { for (auto &x : l) push_back(x.p); }
};
// Runs an operation either through its plain interface or through its _w interface with a work buffer of the
// queried size (or another legal one). False: buffer was too small and correctly refused, operands untouched.
bool wcall(Src &s, Case &c, Conf &cf, const char *what, const MatList &ops,
           const std::function<int()> &plain, const std::function<int(armas_wbuf_t *)> &w);
// LAPACK dimension (cost ~ n^3)
int dlap(Src &s, int big = 90);
// general m x n matrices: random, rank deficient, with zero / repeated columns, graded, ill conditioned, extreme scales
enum { G_RANDOM, G_RANKDEF, G_ZEROCOL, G_DUPCOL, G_COND, G_IDENT, G_TRI, G_TINYCOL, G_N };
int fill_gen(Src &s, Mat &A, Case &c, bool fullrank = false);
const char *gen_name(int);
// random orthogonal n x n
LM rndorth(Rng &g, int n);
// symmetric with given eigenvalues
LM symwith(Rng &g, const std::vector<double> &w);
// blocking environment for LAPACK algorithms (block size lb small, so that blocked code runs on small operands)
void lenv(Src &s, Case &c);
LM colof(const LM &A, int j);
// column-wise (or row-wise) error bound: |err_j|_2 <= tol * ref_j
void small_cols(Case &c, const char *what, const LM &err, const LM &ref, LD tol);
void small_rows(Case &c, const char *what, const LM &err, const LM &ref, LD tol);
// explicit orthogonal matrix from stored reflectors
enum { K_QR, K_LQ, K_QL, K_RQ };
LM refl_q(int kind, const LM &F, const LM &tau, int k);
LM refl_v(int kind, const LM &F, int k);      // reflector vectors as columns (order x k)
LM apply_refl(const LM &v, LD tau, const LM &C);   // (I - tau v v') C
void ortho(Case &c, const char *what, const LM &Q, LD tol);   // columns orthonormal
inline LD N(int a) { return (LD)(a < 1 ? 1 : a); }
#endif
