#include "kv_common.hpp"
#include <string>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
using kep3::elements_type;
using kep3::planet;
static constexpr elements_type kv_types[] = {elements_type::KEP_F, elements_type::KEP_M, elements_type::MEQ,
                                             elements_type::MEQ_R};
static inline elements_type kv_type(int t)
{
    return t >= 0 && t < 4 ? kv_types[t] : static_cast<elements_type>(97);
}
static inline void kv_put6(const std::array<double, 6> &a, double *out)
{
    for (int i = 0; i < 6; ++i) out[i] = a[i];
}
static inline std::array<double, 6> kv_six(const double *in)
{
    return {in[0], in[1], in[2], in[3], in[4], in[5]};
}
// User-defined planets: states c + t*d.
struct kv_bare {
    std::array<double, 6> c{}, d{};
    [[nodiscard]] kv_state eph(double t) const
    {
        kv_state s{};
        for (int i = 0; i < 6; ++i) s[i / 3][i % 3] = c[i] + t * d[i];
        return s;
    }
};
struct kv_mu : kv_bare {
    double mu = 0;
    [[nodiscard]] double get_mu_central_body() const
    {
        return mu;
    }
};
struct kv_full : kv_bare {
    std::array<double, 6> k{};
    [[nodiscard]] double get_mu_central_body() const
    {
        return k[0];
    }
    [[nodiscard]] double get_mu_self() const
    {
        return k[1];
    }
    [[nodiscard]] double get_radius() const
    {
        return k[2];
    }
    [[nodiscard]] double get_safe_radius() const
    {
        return k[3];
    }
    [[nodiscard]] std::string get_name() const
    {
        return "kv name";
    }
    [[nodiscard]] std::string get_extra_info() const
    {
        return "kv info";
    }
    [[nodiscard]] std::vector<double> eph_v(const std::vector<double> &t) const
    {
        std::vector<double> r;
        for (auto x : t) r.push_back(k[4] * x);
        return r;
    }
    [[nodiscard]] double period(double t) const
    {
        return k[4] + t * k[5];
    }
    [[nodiscard]] std::array<double, 6> elements(double t, elements_type e) const
    {
        return {k[0] * t, k[1], k[2] * static_cast<double>(static_cast<int>(e) + 1), k[3], k[4], k[5] + t};
    }
};
static inline void kv_fill(kv_bare &u, const double *in)
{
    u.c = kv_six(in);
    u.d = kv_six(in + 6);
}
// Every query of a planet.  in: c d (12), k (6), time; out: see the analyses.
static inline void kv_getters(const planet &p, double *out)
{
    out[0] = p.get_mu_central_body();
    out[1] = p.get_mu_self();
    out[2] = p.get_radius();
    out[3] = p.get_safe_radius();
}
static inline planet kv_planet(const double *in, int kind)
{
    if (kind == 0) {
        kv_bare u;
        kv_fill(u, in);
        return planet(u);
    }
    if (kind == 1) {
        kv_mu u;
        kv_fill(u, in);
        u.mu = in[12];
        return planet(u);
    }
    kv_full u;
    kv_fill(u, in);
    u.k = kv_six(in + 12);
    return planet(u);
}
KV_ENTRY void kv_pl_get(const double *in, double *out, int kind)
{
    kv_getters(kv_planet(in, kind), out);
}
KV_ENTRY void kv_pl_name(const double *in, double *out, int kind, int which)
{
    const auto p = kv_planet(in, kind);
    const auto s = which ? p.get_extra_info() : p.get_name();
    out[0] = static_cast<double>(s.size());
    for (unsigned i = 0; i < s.size(); ++i) out[1 + i] = static_cast<double>(s[i]);
}
KV_ENTRY void kv_pl_eph(const double *in, double *out, int kind)
{
    kv_put_state(kv_planet(in, kind).eph(in[18]), out);
}
KV_ENTRY void kv_pl_ephv(const double *in, double *out, int kind, unsigned n)
{
    const std::vector<double> t(in + 18, in + 18 + n);
    const auto r = kv_planet(in, kind).eph_v(t);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < r.size(); ++i) out[1 + i] = r[i];
}
KV_ENTRY void kv_pl_ephv_each(const double *in, double *out, int kind, unsigned n)
{
    const std::vector<double> t(in + 18, in + 18 + n);
    const auto p = kv_planet(in, kind);
    const auto r = p.eph_v(t);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < r.size() && i < 6 * n; ++i) out[1 + i] = r[i];
    for (unsigned i = 0; i < n; ++i) kv_put_state(p.eph(t[i]), out + 1 + 6 * n + 6 * i);
}
KV_ENTRY void kv_pl_period(const double *in, double *out, int kind)
{
    out[0] = kv_planet(in, kind).period(in[18]);
}
KV_ENTRY void kv_pl_elements(const double *in, double *out, int kind, int type)
{
    kv_put6(kv_planet(in, kind).elements(in[18], kv_type(type)), out);
}
// the default arguments
KV_ENTRY void kv_pl_defaults(const double *in, double *out, int kind)
{
    const auto p = kv_planet(in, kind);
    out[0] = p.period();
    kv_put6(p.elements(), out + 1);
    out[7] = p.period(0.);
    kv_put6(p.elements(0., elements_type::KEP_F), out + 8);
}
// epoch overloads, then the same at the epoch's MJD2000
KV_ENTRY void kv_pl_epoch(const double *in, double *out, int kind, int type, long long us)
{
    const kep3::epoch ep(kep3::time_point{kep3::microseconds{us}});
    const auto p = kv_planet(in, kind);
    kv_put_state(p.eph(ep), out);
    out[6] = p.period(ep);
    kv_put6(p.elements(ep, kv_type(type)), out + 7);
    const double t = ep.mjd2000();
    kv_put_state(p.eph(t), out + 13);
    out[19] = p.period(t);
    kv_put6(p.elements(t, kv_type(type)), out + 20);
}
// the osculating elements of a state, from the public conversions
KV_ENTRY void kv_osculating(const double *in, double *out, int type)
{
    auto e = kep3::ic2par(kv_get_state(in), in[6]);
    if (type == 1) e[5] = kep3::f2m(e[5], e[1]);
    if (type == 2) e = kep3::par2eq(e, false);
    if (type == 3) e = kep3::par2eq(e, true);
    kv_put6(e, out);
}
// a planet giving mu only: its elements, then those of its state at the same time
KV_ENTRY void kv_pl_oscul(const double *in, double *out, int type)
{
    const auto p = kv_planet(in, 1);
    kv_put6(p.elements(in[18], kv_type(type)), out);
    const auto s = p.eph(in[18]);
    const double x[7] = {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], in[12]};
    kv_osculating(x, out + 6, type);
}
// Keplerian planets.  in: state or elements (6), mu, mu_self, radius, safe radius, reference epoch (MJD2000), time
static inline kep3::udpla::keplerian kv_kep(const double *in, int how)
{
    const kep3::epoch ref(kep3::time_point{kep3::microseconds{static_cast<long long>(in[10])}});
    if (how < 0) return kep3::udpla::keplerian(ref, kv_get_state(in), in[6], "kv", {in[7], in[8], in[9]});
    return kep3::udpla::keplerian(ref, kv_six(in), in[6], "kv", {in[7], in[8], in[9]}, kv_type(how));
}
KV_ENTRY void kv_kep_all(const double *in, double *out, int how, int type)
{
    const auto u = kv_kep(in, how);
    const planet p(u);
    kv_getters(p, out);
    out[4] = p.period(in[11]);
    kv_put6(p.elements(in[11], kv_type(type)), out + 5);
    kv_put_state(p.eph(in[11]), out + 11);
    out[17] = u.get_ref_epoch().mjd2000();
}
static inline std::array<double, 6> kv_kepf(const double *in, int how)
{
    if (how < 0) return kep3::ic2par(kv_get_state(in), in[6]);
    auto e = kv_six(in);
    if (how == 1) e[5] = kep3::m2f(e[5], e[1]);
    if (how == 2) e = kep3::eq2par(e, false);
    if (how == 3) e = kep3::eq2par(e, true);
    return e;
}
// elements and period of a Keplerian planet, then the elements and semi-major axis of the orbit it was built from
KV_ENTRY void kv_kep_ref(const double *in, double *out, int how, int type)
{
    const planet p(kv_kep(in, how));
    kv_put6(p.elements(in[11], kv_type(type)), out);
    out[6] = p.period(in[11]);
    auto e = kv_kepf(in, how);
    out[13] = e[0];
    if (type == 1) e[5] = kep3::f2m(e[5], e[1]);
    if (type == 2) e = kep3::par2eq(e, false);
    if (type == 3) e = kep3::par2eq(e, true);
    kv_put6(e, out + 7);
}
// state of a Keplerian planet at its reference epoch's state's flow, and that state from the elements
KV_ENTRY void kv_kep_flow(const double *in, double *out, int how)
{
    const auto u = kv_kep(in, how);
    kv_put_state(planet(u).eph(in[11]), out);
    const auto s = how < 0 ? kv_get_state(in) : kep3::par2ic(kv_kepf(in, how), in[6]);
    kv_put_state(s, out + 6);
    const double dt = (in[11] - u.get_ref_epoch().mjd2000()) * 86400.;
    kv_put_state(kep3::propagate_lagrangian(s, dt, in[6]).first, out + 12);
    out[18] = u.get_ref_epoch().mjd2000();
}
KV_ENTRY void kv_kep_eph(const double *in, double *out, int how)
{
    const auto u = kv_kep(in, how);
    const planet p(u);
    kv_put_state(p.eph(in[11]), out);
    out[6] = u.get_ref_epoch().mjd2000();
}
KV_ENTRY void kv_kep_ephv(const double *in, double *out, int how, unsigned n)
{
    const planet p(kv_kep(in, how));
    const std::vector<double> t(in + 11, in + 11 + n);
    const auto r = p.eph_v(t);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < r.size() && i < 6 * n; ++i) out[1 + i] = r[i];
    for (unsigned i = 0; i < n; ++i) kv_put_state(p.eph(t[i]), out + 1 + 6 * n + 6 * i);
}
KV_ENTRY void kv_kep_get(const double *in, double *out, int how)
{
    kv_getters(planet(kv_kep(in, how)), out);
}
KV_ENTRY void kv_kep_elem(const double *in, double *out, int how, int type)
{
    kv_put6(planet(kv_kep(in, how)).elements(in[11], kv_type(type)), out);
}
KV_ENTRY void kv_kep_ctor(const double *in, double *out, int how)
{
    const auto u = kv_kep(in, how);
    out[0] = u.get_mu_central_body();
}
// JPL low-precision planets.  in: time, ...
static const char *const kv_names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune",
                                       "EarTh", "vulcan", "", "mars "};
KV_ENTRY void kv_jpl_all(const double *in, double *out, int which, int type)
{
    const planet p{kep3::udpla::jpl_lp(kv_names[which])};
    kv_getters(p, out);
    kv_put6(p.elements(in[0], kv_type(type)), out + 4);
    kv_put_state(p.eph(in[0]), out + 10);
}
KV_ENTRY void kv_jpl_ephv(const double *in, double *out, int which, unsigned n)
{
    const planet p{kep3::udpla::jpl_lp(kv_names[which])};
    const std::vector<double> t(in, in + n);
    const auto r = p.eph_v(t);
    out[0] = static_cast<double>(r.size());
    for (unsigned i = 0; i < r.size() && i < 6 * n; ++i) out[1 + i] = r[i];
    for (unsigned i = 0; i < n; ++i) kv_put_state(p.eph(t[i]), out + 1 + 6 * n + 6 * i);
}
KV_ENTRY void kv_jpl_eph(const double *in, double *out, int which)
{
    kv_put_state(planet(kep3::udpla::jpl_lp(kv_names[which])).eph(in[0]), out);
}
KV_ENTRY void kv_jpl_elements(const double *in, double *out, int which, int type)
{
    kv_put6(planet(kep3::udpla::jpl_lp(kv_names[which])).elements(in[0], kv_type(type)), out);
}
KV_ENTRY void kv_jpl_get(const double *, double *out, int which)
{
    kv_getters(planet(kep3::udpla::jpl_lp(kv_names[which])), out);
}
// in: time, six elements at J2000 (AU, degrees), six rates per century.  The JPL recipe, in SI units.
KV_ENTRY void kv_jpl_ref(const double *in, double *out, int which, int type)
{
    const planet p{kep3::udpla::jpl_lp(kv_names[which])};
    kv_put6(p.elements(in[0], kv_type(type)), out);
    kv_put_state(p.eph(in[0]), out + 6);
    const double T = (in[0] - 0.5) / 36525., rad = 3.14159265358979323846 / 180.;
    double x[6];
    for (int i = 0; i < 6; ++i) x[i] = in[1 + i] + in[7 + i] * T;
    std::array<double, 6> e{x[0] * 149597870700., x[1], x[2] * rad, x[5] * rad, (x[4] - x[5]) * rad,
                            (x[3] - x[4]) * rad};
    e[5] = kep3::m2f(e[5], e[1]);
    kv_put_state(kep3::par2ic(e, p.get_mu_central_body()), out + 18);
    if (type == 1) e[5] = kep3::f2m(e[5], e[1]);
    if (type == 2) e = kep3::par2eq(e, false);
    if (type == 3) e = kep3::par2eq(e, true);
    kv_put6(e, out + 12);
}
