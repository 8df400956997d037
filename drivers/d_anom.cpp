#include "kv_common.hpp"
#include <kep3/core_astro/convert_anomalies.hpp>
#define KV_A(f) \
    KV_ENTRY void kv_##f(const double *in, double *out) { out[0] = kep3::f(in[0], in[1]); }
#define KV_AA(f, g) \
    KV_ENTRY void kv_##f##_##g(const double *in, double *out) { out[0] = kep3::g(kep3::f(in[0], in[1]), in[1]); }
#define KV_AAA(f, g, h) \
    KV_ENTRY void kv_cmp_##h(const double *in, double *out) \
    { \
        out[0] = kep3::g(kep3::f(in[0], in[1]), in[1]); \
        out[1] = kep3::h(in[0], in[1]); \
    }
KV_A(m2e)
KV_A(e2m)
KV_A(e2f)
KV_A(f2e)
KV_A(m2f)
KV_A(f2m)
KV_A(zeta2f)
KV_A(f2zeta)
KV_A(n2h)
KV_A(h2n)
KV_A(h2f)
KV_A(f2h)
KV_A(n2f)
KV_A(f2n)
KV_AA(m2e, e2m)
KV_AA(e2m, m2e)
KV_AA(e2f, f2e)
KV_AA(f2e, e2f)
KV_AA(m2f, f2m)
KV_AA(f2m, m2f)
KV_AA(zeta2f, f2zeta)
KV_AA(f2zeta, zeta2f)
KV_AA(n2h, h2n)
KV_AA(h2n, n2h)
KV_AA(h2f, f2h)
KV_AA(f2h, h2f)
KV_AA(n2f, f2n)
KV_AA(f2n, n2f)
KV_AAA(m2e, e2f, m2f)
KV_AAA(f2e, e2m, f2m)
KV_AAA(n2h, h2f, n2f)
KV_AAA(f2h, h2n, f2n)
