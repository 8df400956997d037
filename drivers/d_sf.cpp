#include <boost/serialization/vector.hpp>
#include <boost/serialization/array.hpp>
#include "kv_common.hpp"
#include <kep3/core_astro/constants.hpp>
#include <kep3/leg/sims_flanagan.hpp>
using kep3::leg::sims_flanagan;
// parameter block: rvs 0-5, ms 6, rvf 7-12, mf 13, tof 14, max_thrust 15, isp 16, mu 17, cut 18, throttles 19..
static inline std::vector<double> th(const double *in, unsigned n)
{
    return std::vector<double>(in + 19, in + 19 + n);
}
static inline sims_flanagan mk(const double *in, unsigned n)
{
    return sims_flanagan(kv_get_state(in), in[6], th(in, n), kv_get_state(in + 7), in[13], in[14], in[15], in[16],
                         in[17], in[18]);
}
// dump block: nseg, fwd, bck, then the parameter block in the same order, with the throttle count before the throttles
static inline void dump(const sims_flanagan &l, double *out)
{
    out[0] = l.get_nseg();
    out[1] = l.get_nseg_fwd();
    out[2] = l.get_nseg_bck();
    kv_put_state(l.get_rvs(), out + 3);
    out[9] = l.get_ms();
    kv_put_state(l.get_rvf(), out + 10);
    out[16] = l.get_mf();
    out[17] = l.get_tof();
    out[18] = l.get_max_thrust();
    out[19] = l.get_isp();
    out[20] = l.get_mu();
    out[21] = l.get_cut();
    const auto &t = l.get_throttles();
    out[22] = static_cast<double>(t.size());
    for (unsigned i = 0; i < t.size(); ++i) out[23 + i] = t[i];
}
static inline void mod(sims_flanagan &l, const double *in, unsigned n, int which)
{
    switch (which) {
        case 0: l.set_rvs(kv_get_state(in)); break;
        case 1: l.set_ms(in[6]); break;
        case 2: l.set_rvf(kv_get_state(in + 7)); break;
        case 3: l.set_mf(in[13]); break;
        case 4: l.set_tof(in[14]); break;
        case 5: l.set_max_thrust(in[15]); break;
        case 6: l.set_isp(in[16]); break;
        case 7: l.set_mu(in[17]); break;
        case 8: l.set_cut(in[18]); break;
        case 9: l.set_throttles(th(in, n)); break;
        case 10: {
            auto t = th(in, n);
            const auto &c = t;
            l.set_throttles(c.begin(), c.end());
            break;
        }
        case 11:
            l.set(kv_get_state(in), in[6], th(in, n), kv_get_state(in + 7), in[13], in[14], in[15], in[16], in[17],
                  in[18]);
            break;
    }
}
// the mismatch, its gradients, the throttle constraints and their gradient; sizes first
KV_ENTRY void kv_sf_eval(const double *in, double *out, unsigned n)
{
    const auto l = mk(in, n);
    auto mc = l.compute_mismatch_constraints();
    for (unsigned i = 0; i < 7; ++i) out[i] = mc[i];
    auto tc = l.compute_throttle_constraints();
    auto tg = l.compute_tc_grad();
    out[7] = static_cast<double>(tc.size());
    out[8] = static_cast<double>(tg.size());
    out += 9;
    for (auto x : tc) *out++ = x;
    for (auto x : tg) *out++ = x;
}
KV_ENTRY void kv_sf_grad(const double *in, double *out, unsigned n)
{
    const auto l = mk(in, n);
    auto mc = l.compute_mismatch_constraints();
    for (auto x : mc) *out++ = x;
    auto [a, b, c] = l.compute_mc_grad();
    *out++ = static_cast<double>(c.size());
    for (auto x : a) *out++ = x;
    for (auto x : b) *out++ = x;
    for (auto x : c) *out++ = x;
}
// construct; 1 if it throws
KV_ENTRY int kv_sf_ctor(const double *in, double *out, unsigned n)
{
    const auto l = mk(in, n);
    dump(l, out);
    return 0;
}
KV_ENTRY void kv_sf_default(double *out)
{
    const sims_flanagan l;
    dump(l, out);
}
// construct with a, modify with b; out[0] tells whether the modification threw
KV_ENTRY void kv_sf_mod(const double *a, const double *b, double *out, unsigned na, unsigned nb, int which)
{
    auto l = mk(a, na);
    dump(l, out + 1);
    out[0] = 0.;
    try {
        mod(l, b, nb, which);
    } catch (...) {
        out[0] = 1.;
    }
    dump(l, out + 100);
}
static inline double *behave(const sims_flanagan &l, double *out)
{
    dump(l, out);
    out += 23 + l.get_throttles().size();
    for (auto x : l.compute_mismatch_constraints()) *out++ = x;
    for (auto x : l.compute_throttle_constraints()) *out++ = x;
    return out;
}
// construct with a, modify with b (setter w1, then setter w2 when it is not negative), compare with fresh(c)
KV_ENTRY void kv_sf_hist(const double *a, const double *b, const double *c, double *o1, double *o2, unsigned na,
                         unsigned nb, unsigned nc, int w1, int w2)
{
    auto l = mk(a, na);
    mod(l, b, nb, w1);
    if (w2 >= 0) mod(l, b, nb, w2);
    behave(l, o1);
    const auto f = mk(c, nc);
    behave(f, o2);
}
KV_ENTRY void kv_sf_hist_default(const double *b, double *o1, double *o2, unsigned nb, int w1)
{
    sims_flanagan l;
    if (w1 >= 0) mod(l, b, nb, w1);
    behave(l, o1);
    double par[200];
    dump(l, par);
    // the same parameters, given to a fresh leg
    double in[200];
    for (unsigned i = 0; i < 19; ++i) in[i] = par[3 + i];
    const auto &t = l.get_throttles();
    for (unsigned i = 0; i < t.size(); ++i) in[19 + i] = t[i];
    const auto f = mk(in, static_cast<unsigned>(t.size()));
    behave(f, o2);
}
