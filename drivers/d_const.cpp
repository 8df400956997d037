#include <boost/serialization/vector.hpp>
#include <boost/serialization/array.hpp>
#include <kep3/detail/s11n.hpp>
#include "kv_common.hpp"
#include <sstream>
#include <string>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
// Every const member function of an object, called between kv_frozen(object) and kv_frozen(nullptr).
extern "C" void kv_frozen(const void *);
using namespace kep3;
template <typename T>
static inline const T &frozen(const T &x)
{
    kv_frozen(&x);
    return x;
}
KV_ENTRY void kv_const_sf(const double *in, double *out, unsigned n)
{
    leg::sims_flanagan l(kv_get_state(in), in[6], std::vector<double>(in + 19, in + 19 + n), kv_get_state(in + 7), in[13],
                         in[14], in[15], in[16], in[17], in[18]);
    const auto &c = frozen(l);
    double s = 0;
    s += c.get_tof() + c.get_ms() + c.get_mf() + c.get_max_thrust() + c.get_isp() + c.get_mu() + c.get_cut();
    s += c.get_nseg() + c.get_nseg_fwd() + c.get_nseg_bck() + c.get_rvs()[0][0] + c.get_rvf()[1][2];
    s += c.get_throttles()[0];
    const auto m = c.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) out[1 + i] = m[i];
    const auto t = c.compute_throttle_constraints();
    for (unsigned i = 0; i < t.size(); ++i) out[8 + i] = t[i];
    const auto g = c.compute_mc_grad();
    const auto tg = c.compute_tc_grad();
    s += std::get<0>(g)[0] + std::get<1>(g)[0] + std::get<2>(g)[0] + tg[0];
    kv_frozen(nullptr);
    out[0] = s;
}
KV_ENTRY void kv_const_lambert(const double *in, double *out, int cw, unsigned revs)
{
    lambert_problem l({in[0], in[1], in[2]}, {in[3], in[4], in[5]}, in[6], in[7], cw != 0, revs);
    const auto &c = frozen(l);
    double s = c.get_r0()[0] + c.get_r1()[0] + c.get_tof() + c.get_mu() + c.get_Nmax() + c.get_iters()[0];
    s += c.get_v0()[0][0] + c.get_v1()[0][0] + c.get_x()[0];
    kv_frozen(nullptr);
    out[0] = s;
}
KV_ENTRY void kv_const_kep(const double *in, double *out, int how, int type)
{
    udpla::keplerian k = how < 0 ? udpla::keplerian(epoch(in[10]), kv_get_state(in), in[6], "kv", {in[7], in[8], in[9]})
                                 : udpla::keplerian(epoch(in[10]), {in[0], in[1], in[2], in[3], in[4], in[5]}, in[6], "kv",
                                                    {in[7], in[8], in[9]}, static_cast<elements_type>(how));
    const auto &c = frozen(k);
    kv_put_state(c.eph(in[11]), out);
    const auto e = c.elements(in[11], static_cast<elements_type>(type));
    double s = e[0] + c.get_mu_central_body() + c.get_mu_self() + c.get_radius() + c.get_safe_radius() + c.period();
    s += static_cast<double>(c.get_name().size()) + c.get_ref_epoch().mjd2000();
    kv_frozen(nullptr);
    out[6] = s;
}
KV_ENTRY void kv_const_jpl(const double *in, double *out, int which)
{
    static const char *const names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
    udpla::jpl_lp k{std::string(names[which])};
    const auto &c = frozen(k);
    kv_put_state(c.eph(in[0]), out);
    const auto e = c.elements(in[0], elements_type::MEQ);
    double s = e[0] + c.get_mu_central_body() + c.get_mu_self() + c.get_radius() + c.get_safe_radius();
    s += static_cast<double>(c.get_name().size());
    kv_frozen(nullptr);
    out[6] = s;
}
struct kv_fixed {
    std::array<double, 6> c{};
    double mu = 1;
    [[nodiscard]] kv_state eph(double t) const
    {
        kv_state s{};
        for (int i = 0; i < 6; ++i) s[i / 3][i % 3] = c[i] + t;
        return s;
    }
    [[nodiscard]] double get_mu_central_body() const
    {
        return mu;
    }
};
KV_ENTRY void kv_const_pl(const double *in, double *out)
{
    kv_fixed u;
    for (int i = 0; i < 6; ++i) u.c[i] = in[i];
    u.mu = in[6];
    planet p(u);
    const auto &c = frozen(p);
    kv_put_state(c.eph(in[7]), out);
    const auto v = c.eph_v(std::vector<double>{in[7], in[7]});
    const auto e = c.elements(in[7], elements_type::KEP_F);
    double s = v[0] + e[0] + c.get_mu_central_body() + c.get_mu_self() + c.get_radius() + c.get_safe_radius();
    s += c.period(in[7]) + static_cast<double>(c.get_name().size() + c.get_extra_info().size());
    const planet q(c);
    s += q.get_radius();
    kv_frozen(nullptr);
    out[6] = s;
}
KV_ENTRY void kv_const_ep(const double *in, double *out, long long us)
{
    epoch a(in[0]);
    const epoch b(in[1], epoch::julian_type::MJD);
    const auto &c = frozen(a);
    double s = c.mjd2000() + c.mjd() + c.jd();
    s += (c < b) + (c == b) + (c > b) + (c != b) + (c >= b) + (c <= b);
    const auto d = epoch(in[1]) + std::chrono::microseconds(us);
    s += static_cast<double>((d - c).count());
    kv_frozen(nullptr);
    out[0] = s;
}
