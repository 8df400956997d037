#include "kv_common.hpp"
#include <string>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/planet.hpp>
// A user-defined planet with a distinct value for every physical parameter.
struct kv_fbpl {
    double mu_self = 0, safe = 0, rad = 0, mu_c = 0;
    [[nodiscard]] static std::array<std::array<double, 3>, 2> eph(double)
    {
        return {{{1., 0., 0.}, {0., 1., 0.}}};
    }
    [[nodiscard]] double get_mu_self() const
    {
        return mu_self;
    }
    [[nodiscard]] double get_safe_radius() const
    {
        return safe;
    }
    [[nodiscard]] double get_radius() const
    {
        return rad;
    }
    [[nodiscard]] double get_mu_central_body() const
    {
        return mu_c;
    }
};
static inline std::array<double, 3> v3(const double *in)
{
    return {in[0], in[1], in[2]};
}
// in: v_in, v_out, mu, safe radius, radius, mu of the central body
KV_ENTRY void kv_fb_con(const double *in, double *out)
{
    auto r = kep3::fb_con(v3(in), v3(in + 3), in[6], in[7]);
    out[0] = r.first;
    out[1] = r.second;
}
KV_ENTRY void kv_fb_dv(const double *in, double *out)
{
    out[0] = kep3::fb_dv(v3(in), v3(in + 3), in[6], in[7]);
}
KV_ENTRY void kv_fb_con_pl(const double *in, double *out)
{
    kv_fbpl u;
    u.mu_self = in[6];
    u.safe = in[7];
    u.rad = in[8];
    u.mu_c = in[9];
    auto r = kep3::fb_con(v3(in), v3(in + 3), kep3::planet(u));
    out[0] = r.first;
    out[1] = r.second;
}
KV_ENTRY void kv_fb_dv_pl(const double *in, double *out)
{
    kv_fbpl u;
    u.mu_self = in[6];
    u.safe = in[7];
    u.rad = in[8];
    u.mu_c = in[9];
    out[0] = kep3::fb_dv(v3(in), v3(in + 3), kep3::planet(u));
}
// in: v_in, v_planet, rp, beta, mu
KV_ENTRY void kv_fb_vout(const double *in, double *out)
{
    auto r = kep3::fb_vout(v3(in), v3(in + 3), in[6], in[7], in[8]);
    for (int i = 0; i < 3; ++i) out[i] = r[i];
}
