// Analysis stand-in for the third-party (xtensor-blas) Euclidean norm: same
// value, without the overflow-avoiding rescaling loop.
#ifndef CXXBLAS_LEVEL1_NRM2_TCC
#define CXXBLAS_LEVEL1_NRM2_TCC 1
#include <cmath>
#include <complex>
#include "xflens/cxxblas/cxxblas.h"
namespace cxxblas
{
template <typename IndexType, typename X, typename T>
void nrm2_generic(IndexType n, const X *x, IndexType incX, T &norm)
{
    T s = 0;
    for (IndexType i = 0, k = 0; i < n; ++i, k += incX) s += std::norm(x[k]);
    norm = std::sqrt(s);
}
template <typename IndexType, typename X, typename T>
void nrm2(IndexType n, const X *x, IndexType incX, T &norm)
{
    if (incX < 0) x -= incX * (n - 1);
    nrm2_generic(n, x, incX, norm);
}
} // namespace cxxblas
#endif
