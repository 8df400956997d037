#include "kv_common.hpp"
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
static inline std::array<double, 6> kv_six(const double *in)
{
    return {in[0], in[1], in[2], in[3], in[4], in[5]};
}
static inline void kv_put6(const std::array<double, 6> &a, double *out)
{
    for (int i = 0; i < 6; ++i) out[i] = a[i];
}
KV_ENTRY void kv_ic2par(const double *in, double *out, int) { kv_put6(kep3::ic2par(kv_get_state(in), in[6]), out); }
KV_ENTRY void kv_par2ic(const double *in, double *out, int) { kv_put_state(kep3::par2ic(kv_six(in), in[6]), out); }
KV_ENTRY void kv_ic2eq(const double *in, double *out, int r)
{
    kv_put6(kep3::ic2eq(kv_get_state(in), in[6], r != 0), out);
}
KV_ENTRY void kv_eq2ic(const double *in, double *out, int r)
{
    kv_put_state(kep3::eq2ic(kv_six(in), in[6], r != 0), out);
}
KV_ENTRY void kv_eq2par(const double *in, double *out, int r) { kv_put6(kep3::eq2par(kv_six(in), r != 0), out); }
KV_ENTRY void kv_par2eq(const double *in, double *out, int r) { kv_put6(kep3::par2eq(kv_six(in), r != 0), out); }
