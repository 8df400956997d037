#include "kv_common.hpp"
#include <cmath>
#include <iomanip>
#include <iostream>
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>
#include <kep3/core_astro/constants.hpp>
#include <kep3/detail/s11n.hpp>
#include <kep3/detail/visibility.hpp>
#define private public
#include <kep3/lambert_problem.hpp>
#undef private
using kep3::lambert_problem;
// in: lambda, x, T
KV_ENTRY void kv_lambert_dtdx(const double *in, double *out)
{
    alignas(lambert_problem) unsigned char buf[sizeof(lambert_problem)];
    auto *p = reinterpret_cast<lambert_problem *>(buf);
    p->m_lambda = in[0];
    p->dTdx(out[0], out[1], out[2], in[1], in[2]);
}
// in: lambda, x
KV_ENTRY void kv_lambert_x2tof(const double *in, double *out, unsigned n)
{
    alignas(lambert_problem) unsigned char buf[sizeof(lambert_problem)];
    auto *p = reinterpret_cast<lambert_problem *>(buf);
    p->m_lambda = in[0];
    p->x2tof(out[0], in[1], n);
    p->dTdx(out[1], out[2], out[3], in[1], out[0]);
}
// in: z
KV_ENTRY void kv_lambert_hyp(const double *in, double *out)
{
    out[0] = lambert_problem::hypergeometricF(in[0], 1e-11);
}
// in: lambda, T, x
KV_ENTRY void kv_lambert_householder(const double *in, double *out, unsigned n)
{
    alignas(lambert_problem) unsigned char buf[sizeof(lambert_problem)];
    auto *p = reinterpret_cast<lambert_problem *>(buf);
    p->m_lambda = in[0];
    double x = in[2];
    (void)p->householder(in[1], x, n, 1e-5, 15);
    out[0] = x;
}
