#include "kv_common.hpp"
#include <kep3/core_astro/kepler_equations.hpp>
// in[0] is the unknown; out = equation, first and second derivative
KV_ENTRY void kv_kepE(const double *in, double *out)
{
    out[0] = kep3::kepE(in[0], in[1], in[2]);
    out[1] = kep3::d_kepE(in[0], in[2]);
    out[2] = kep3::dd_kepE(in[0], in[2]);
}
KV_ENTRY void kv_kepH(const double *in, double *out)
{
    out[0] = kep3::kepH(in[0], in[1], in[2]);
    out[1] = kep3::d_kepH(in[0], in[2]);
    out[2] = kep3::dd_kepH(in[0], in[2]);
}
KV_ENTRY void kv_kepDE(const double *in, double *out)
{
    out[0] = kep3::kepDE(in[0], in[1], in[2], in[3], in[4], in[5]);
    out[1] = kep3::d_kepDE(in[0], in[2], in[3], in[4], in[5]);
    out[2] = kep3::dd_kepDE(in[0], in[2], in[3], in[4], in[5]);
}
KV_ENTRY void kv_kepDH(const double *in, double *out)
{
    out[0] = kep3::kepDH(in[0], in[1], in[2], in[3], in[4], in[5]);
    out[1] = kep3::d_kepDH(in[0], in[2], in[3], in[4], in[5]);
    out[2] = kep3::dd_kepDH(in[0], in[2], in[3], in[4], in[5]);
}
KV_ENTRY void kv_kepDS(const double *in, double *out)
{
    out[0] = kep3::kepDS(in[0], in[1], in[2], in[3], in[4], in[5]);
    out[1] = kep3::d_kepDS(in[0], in[2], in[3], in[4], in[5]);
    out[2] = kep3::dd_kepDS(in[0], in[2], in[3], in[4], in[5]);
}
