#include "kv_common.hpp"
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
KV_ENTRY void kv_propagate_lagrangian(const double *in, double *out, int stm)
{
    kv_put_opt(kep3::propagate_lagrangian(kv_get_state(in), in[6], in[7], stm != 0), out);
}
KV_ENTRY void kv_propagate_lagrangian_u(const double *in, double *out, int stm)
{
    kv_put_opt(kep3::propagate_lagrangian_u(kv_get_state(in), in[6], in[7], stm != 0), out);
}
KV_ENTRY void kv_propagate_keplerian(const double *in, double *out, int stm)
{
    kv_put_opt(kep3::propagate_keplerian(kv_get_state(in), in[6], in[7], stm != 0), out);
}
KV_ENTRY void kv_propagate_stm_reynolds(const double *in, double *out, int stm)
{
    kv_put_opt(kep3::propagate_stm_reynolds(kv_get_state(in), in[6], in[7], stm != 0), out);
}
KV_ENTRY int kv_propagate_lagrangian_v(const double *in, double *out, int stm, unsigned n)
{
    std::vector<double> t(in + 7, in + 7 + n);
    auto r = kep3::propagate_lagrangian_v(kv_get_state(in), t, in[6], stm != 0);
    for (unsigned i = 0; i < r.size(); ++i) kv_put_opt(r[i], out + 43 * i);
    return static_cast<int>(r.size());
}
KV_ENTRY void kv_propagate_lagrangian_both(const double *in, double *out, int)
{
    kv_put_opt(kep3::propagate_lagrangian(kv_get_state(in), in[6], in[7], false), out + 43);
    kv_put_opt(kep3::propagate_lagrangian(kv_get_state(in), in[6], in[7], true), out);
}
// in: state, mu, n times; out: number of results, the results, then the scalar call on each time
KV_ENTRY void kv_propagate_lagrangian_each(const double *in, double *out, int stm, unsigned n)
{
    const std::vector<double> t(in + 7, in + 7 + n);
    const auto r = kep3::propagate_lagrangian_v(kv_get_state(in), t, in[6], stm != 0);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < n && i < r.size(); ++i) kv_put_opt(r[i], out + 1 + 43 * i);
    for (unsigned i = 0; i < n; ++i) {
        kv_put_opt(kep3::propagate_lagrangian(kv_get_state(in), in[7 + i], in[6], stm != 0), out + 1 + 43 * (n + i));
    }
}
