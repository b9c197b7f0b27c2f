// armas headers usable from C++ (C idioms: implicit void* conversion from malloc)
#ifndef VF_API_H
#define VF_API_H
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <algorithm>
namespace vf_any {
struct AnyPtr { void *p; template <class T> operator T *() const { return (T *)p; } };
}
#ifdef VF_ALLOC
// inline functions of the headers use the same stand-ins as the library
extern "C" {
void *vf_malloc(size_t);
void *vf_calloc(size_t, size_t);
void *vf_realloc(void *, size_t);
void vf_free(void *);
}
#define malloc(x) (vf_any::AnyPtr{vf_malloc(x)})
#define calloc(x, y) (vf_any::AnyPtr{vf_calloc(x, y)})
#define realloc(x, y) (vf_any::AnyPtr{vf_realloc(x, y)})
#define free(x) vf_free(x)
#else
#define malloc(x) (vf_any::AnyPtr{::malloc(x)})
#define calloc(x, y) (vf_any::AnyPtr{::calloc(x, y)})
#define realloc(x, y) (vf_any::AnyPtr{::realloc(x, y)})
#endif
extern "C" {
#include "dtype.h"
#include "dlpack.h"
#include "matrix.h"
#include "armas.h"
#include "float64/names_sparse.h"
#include "sparse.h"
}
#undef malloc
#undef calloc
#undef realloc
#undef free
#endif
