#include <kep3/detail/s11n.hpp>
#include "kv_common.hpp"
#include <cmath>
#include <iomanip>
#include <iostream>
#include <memory>
#include <string>
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/epoch.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
using kep3::elements_type;
using kep3::leg::sims_flanagan;
static constexpr elements_type kv_types[] = {elements_type::KEP_F, elements_type::KEP_M, elements_type::MEQ,
                                             elements_type::MEQ_R};
// Saves a, loads into b what was saved, and observes both.  o[0]: bytes written, bytes read.
template <typename T, typename F>
static inline void kv_trip(const T &a, T &b, double *o1, double *o2, F obs)
{
    auto *buf = new unsigned char[32768];
    boost::archive::binary_oarchive oa(buf);
    oa << a;
    boost::archive::binary_iarchive ia(buf);
    ia >> b;
    o1[0] = static_cast<double>(oa.kv_pos);
    o2[0] = static_cast<double>(ia.kv_pos);
    obs(static_cast<const T &>(a), o1 + 1);
    obs(static_cast<const T &>(b), o2 + 1);
    delete[] buf;
}
static inline double *kv_str(const std::string &s, double *o)
{
    *o++ = static_cast<double>(s.size());
    for (unsigned i = 0; i < 20; ++i) o[i] = i < s.size() ? static_cast<double>(s[i]) : 0.;
    return o + 20;
}
KV_ENTRY void kv_s_epoch(const double *, double *o1, double *o2, long long us, long long us2, int fresh)
{
    const kep3::epoch a(kep3::time_point{kep3::microseconds{us}});
    kep3::epoch b(kep3::time_point{kep3::microseconds{us2}});
    if (fresh) b = kep3::epoch();
    kv_trip(a, b, o1, o2, [](const kep3::epoch &e, double *o) {
        o[0] = static_cast<double>(static_cast<long long>(e.get_tp().time_since_epoch().count()));
        o[1] = e.mjd2000();
        o[2] = e.mjd();
        o[3] = e.jd();
    });
}
static inline sims_flanagan mk(const double *in, unsigned n)
{
    return sims_flanagan(kv_get_state(in), in[6], std::vector<double>(in + 19, in + 19 + n), kv_get_state(in + 7), in[13],
                         in[14], in[15], in[16], in[17], in[18]);
}
static inline void kv_sf(const sims_flanagan &l, double *o)
{
    *o++ = l.get_nseg();
    *o++ = l.get_nseg_fwd();
    *o++ = l.get_nseg_bck();
    kv_put_state(l.get_rvs(), o);
    kv_put_state(l.get_rvf(), o + 6);
    o += 12;
    *o++ = l.get_ms();
    *o++ = l.get_mf();
    *o++ = l.get_tof();
    *o++ = l.get_max_thrust();
    *o++ = l.get_isp();
    *o++ = l.get_mu();
    *o++ = l.get_cut();
    *o++ = static_cast<double>(l.get_throttles().size());
    for (auto x : l.get_throttles()) *o++ = x;
    for (auto x : l.compute_mismatch_constraints()) *o++ = x;
    for (auto x : l.compute_throttle_constraints()) *o++ = x;
    for (auto x : l.compute_tc_grad()) *o++ = x;
}
KV_ENTRY void kv_s_sf(const double *in, double *o1, double *o2, const double *in2, unsigned n, unsigned n2)
{
    const auto a = mk(in, n);
    auto b = n2 ? mk(in2, n2) : sims_flanagan();
    kv_trip(a, b, o1, o2, kv_sf);
}
// in: state or elements (6), mu, mu_self, radius, safe radius
static inline kep3::udpla::keplerian kv_kep(const double *in, long long us, int how)
{
    const kep3::epoch ref(kep3::time_point{kep3::microseconds{us}});
    if (how < 0) return kep3::udpla::keplerian(ref, kv_get_state(in), in[6], "kv one", {in[7], in[8], in[9]});
    return kep3::udpla::keplerian(ref, {in[0], in[1], in[2], in[3], in[4], in[5]}, in[6], "kv", {in[7], in[8], in[9]},
                                  kv_types[how]);
}
KV_ENTRY void kv_s_kep(const double *in, double *o1, double *o2, const double *in2, long long us, long long us2, int how,
                       int how2, int type, double t)
{
    const auto a = kv_kep(in, us, how);
    auto b = how2 > 3 ? kep3::udpla::keplerian() : kv_kep(in2, us2, how2);
    kv_trip(a, b, o1, o2, [t, type](const kep3::udpla::keplerian &k, double *o) {
        *o++ = k.get_mu_central_body();
        *o++ = k.get_mu_self();
        *o++ = k.get_radius();
        *o++ = k.get_safe_radius();
        *o++ = k.get_ref_epoch().mjd2000();
        kv_put_state(k.eph(t), o);
        o += 6;
        *o++ = k.period(t);
        o = kv_str(k.get_name(), o);
        const auto e = k.elements(t, kv_types[type]);
        for (auto x : e) *o++ = x;
    });
}
static const char *const kv_names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
KV_ENTRY void kv_s_jpl(const double *, double *o1, double *o2, int name, int name2, int type, double t)
{
    const kep3::udpla::jpl_lp a{std::string(kv_names[name])};
    auto b = name2 < 0 ? kep3::udpla::jpl_lp() : kep3::udpla::jpl_lp{std::string(kv_names[name2])};
    kv_trip(a, b, o1, o2, [t, type](const kep3::udpla::jpl_lp &k, double *o) {
        *o++ = k.get_mu_central_body();
        *o++ = k.get_mu_self();
        *o++ = k.get_radius();
        *o++ = k.get_safe_radius();
        kv_put_state(k.eph(t), o);
        o += 6;
        o = kv_str(k.get_name(), o);
        const auto e = k.elements(t, kv_types[type]);
        for (auto x : e) *o++ = x;
    });
}
