#include <boost/serialization/vector.hpp>
#include <boost/serialization/array.hpp>
#include "kv_common.hpp"
#include <kep3/core_astro/constants.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
using kep3::leg::sims_flanagan_hf;
using ta_t = heyoka::taylor_adaptive<double>;
// The integrators the library caches, for a tolerance that is not a number: Stark's (their own check is C16).
namespace kep3::ta
{
static const ta_t &stark(double tol, bool var)
{
    using namespace heyoka;
    auto [x, y, z, vx, vy, vz, m] = make_vars("x", "y", "z", "vx", "vy", "vz", "m");
    ode_sys_t s{{x, vx}, {y, vy}, {z, vz}, {vx, par[0]}, {vy, par[1]}, {vz, par[4]}, {m, par[3]}};
    const std::vector<double> init(7, 1.);
    ta_t *r = nullptr;
    if (var) {
        r = new ta_t{var_ode_sys(s, {x, y, z, vx, vy, vz, m, par[2], par[3], par[4]}, 1), init, kw::tol = tol,
                     kw::pars = {1., 1., 0., 0., 1e-32}};
    } else {
        r = new ta_t{s, init, kw::tol = tol, kw::pars = {1., 1., 0., 0., 0.}};
    }
    return *r;
}
const ta_t &get_ta_stark(double tol)
{
    return stark(tol, false);
}
const ta_t &get_ta_stark_var(double tol)
{
    return stark(tol, true);
}
} // namespace kep3::ta
// parameter block: rvs 0-5, ms 6, rvf 7-12, mf 13, tof 14, max_thrust 15, isp 16, mu 17, cut 18, tol 19, throttles 20..
static inline std::vector<double> th(const double *in, unsigned n)
{
    return std::vector<double>(in + 20, in + 20 + n);
}
static inline std::array<double, 7> rvm(const double *in)
{
    return {in[0], in[1], in[2], in[3], in[4], in[5], in[6]};
}
static inline sims_flanagan_hf mk(const double *in, unsigned n, int form = 0)
{
    if (form == 1) return sims_flanagan_hf(rvm(in), th(in, n), rvm(in + 7), in[14], in[15], in[16], in[17], in[18], in[19]);
    return sims_flanagan_hf(kv_get_state(in), in[6], th(in, n), kv_get_state(in + 7), in[13], in[14], in[15], in[16],
                            in[17], in[18], in[19]);
}
// dump block: nseg, fwd, bck, then the parameter block in the same order, with the throttle count before the throttles
static inline void dump(const sims_flanagan_hf &l, double *out)
{
    out[0] = l.get_nseg();
    out[1] = l.get_nseg_fwd();
    out[2] = l.get_nseg_bck();
    kv_put_state(l.get_rvs(), out + 3);
    out[9] = l.get_ms();
    kv_put_state(l.get_rvf(), out + 10);
    out[16] = l.get_mf();
    out[17] = l.get_tof();
    out[18] = l.get_max_thrust();
    out[19] = l.get_isp();
    out[20] = l.get_mu();
    out[21] = l.get_cut();
    out[22] = l.get_tol();
    for (int i = 0; i < 7; ++i) {
        out[23 + i] = l.get_rvms()[i];
        out[30 + i] = l.get_rvmf()[i];
    }
    const auto &t = l.get_throttles();
    out[37] = static_cast<double>(t.size());
    for (unsigned i = 0; i < t.size(); ++i) out[38 + i] = t[i];
}
static inline void mod(sims_flanagan_hf &l, const double *in, unsigned n, int which)
{
    switch (which) {
        case 0: l.set_rvs(kv_get_state(in)); break;
        case 1: l.set_ms(in[6]); break;
        case 2: l.set_rvf(kv_get_state(in + 7)); break;
        case 3: l.set_mf(in[13]); break;
        case 4: l.set_tof(in[14]); break;
        case 5: l.set_max_thrust(in[15]); break;
        case 6: l.set_isp(in[16]); break;
        case 7: l.set_mu(in[17]); break;
        case 8: l.set_cut(in[18]); break;
        case 9: l.set_throttles(th(in, n)); break;
        case 10: {
            auto t = th(in, n);
            const auto &c = t;
            l.set_throttles(c.begin(), c.end());
            break;
        }
        case 11:
            l.set(kv_get_state(in), in[6], th(in, n), kv_get_state(in + 7), in[13], in[14], in[15], in[16], in[17],
                  in[18], in[19]);
            break;
        case 12: l.set_tol(in[19]); break;
        case 13: l.set_rvms(rvm(in)); break;
        case 14: l.set_rvmf(rvm(in + 7)); break;
        case 15: l.set(rvm(in), th(in, n), rvm(in + 7), in[14], in[15], in[16], in[17], in[18], in[19]); break;
        case 16: l.set(rvm(in), th(in, n), rvm(in + 7), in[14]); break;
    }
}
// the mismatch, all constraints, the throttle constraints and their gradient; sizes first
KV_ENTRY void kv_hf_eval(const double *in, double *out, unsigned n, int form)
{
    const auto l = mk(in, n, form);
    auto mc = l.compute_mismatch_constraints();
    for (unsigned i = 0; i < 7; ++i) out[i] = mc[i];
    auto tc = l.compute_throttle_constraints();
    auto tg = l.compute_tc_grad();
    auto ac = l.compute_constraints();
    out[7] = static_cast<double>(tc.size());
    out[8] = static_cast<double>(tg.size());
    out[9] = static_cast<double>(ac.size());
    out += 10;
    for (auto x : tc) *out++ = x;
    for (auto x : tg) *out++ = x;
    for (auto x : ac) *out++ = x;
}
KV_ENTRY void kv_hf_grad(const double *in, double *out, unsigned n)
{
    const auto l = mk(in, n);
    auto mc = l.compute_mismatch_constraints();
    for (auto x : mc) *out++ = x;
    auto [a, b, c] = l.compute_mc_grad();
    *out++ = static_cast<double>(c.size());
    for (auto x : a) *out++ = x;
    for (auto x : b) *out++ = x;
    for (auto x : c) *out++ = x;
}
// the right-hand side at a state (7) with throttles (3) given after the parameter block
KV_ENTRY void kv_hf_rhs(const double *in, double *out, unsigned n, const double *x)
{
    const auto l = mk(in, n);
    auto d = l.get_state_derivative(rvm(x), {x[7], x[8], x[9]});
    for (auto v : d) *out++ = v;
}
// states at g points of every segment: number of segments, then for each the number of values and (up to 200) values
KV_ENTRY void kv_hf_hist(const double *in, double *out, unsigned n, unsigned g)
{
    const auto l = mk(in, n);
    auto h = l.get_state_history(g);
    *out++ = static_cast<double>(h.size());
    for (const auto &s : h) {
        *out++ = static_cast<double>(s.size());
        for (std::size_t i = 0; i < s.size() && i < 7u * g; ++i) out[i] = s[i];
        out += 7u * g;
    }
}
KV_ENTRY int kv_hf_ctor(const double *in, double *out, unsigned n, int form)
{
    const auto l = mk(in, n, form);
    dump(l, out);
    return 0;
}
// what is not visible through getters: the flow as evaluated
static inline double *behave(const sims_flanagan_hf &l, double *out)
{
    dump(l, out);
    out += 38 + l.get_throttles().size();
    for (auto x : l.compute_constraints()) *out++ = x;
    auto [a, b, c] = l.compute_mc_grad();
    for (auto x : a) *out++ = x;
    for (auto x : b) *out++ = x;
    for (auto x : c) *out++ = x;
    return out;
}
// construct with a, modify with b; out[0] tells whether the modification threw
KV_ENTRY void kv_hf_mod(const double *a, const double *b, double *out, unsigned na, unsigned nb, int which)
{
    auto l = mk(a, na);
    dump(l, out + 1);
    out[0] = 0.;
    try {
        mod(l, b, nb, which);
    } catch (...) {
        out[0] = 1.;
    }
    dump(l, out + 100);
}
// construct with a, modify with b (setter w1, then w2 when it is not negative), compare with fresh(c)
KV_ENTRY void kv_hf_hist2(const double *a, const double *b, const double *c, double *o1, double *o2, unsigned na,
                          unsigned nb, unsigned nc, int w1, int w2, int used)
{
    auto l = mk(a, na);
    if (used) {
        (void)l.compute_mismatch_constraints();
        (void)l.compute_mc_grad();
    }
    mod(l, b, nb, w1);
    if (w2 >= 0) mod(l, b, nb, w2);
    behave(l, o1);
    const auto f = mk(c, nc, 1);
    behave(f, o2);
}
KV_ENTRY void kv_hf_default(const double *b, double *o1, double *o2, unsigned nb, int w1)
{
    sims_flanagan_hf l;
    if (w1 >= 0) mod(l, b, nb, w1);
    behave(l, o1);
    double par[200];
    dump(l, par);
    double in[200];
    for (unsigned i = 0; i < 20; ++i) in[i] = par[3 + i];
    const auto &t = l.get_throttles();
    for (unsigned i = 0; i < t.size(); ++i) in[20 + i] = t[i];
    const auto f = mk(in, static_cast<unsigned>(t.size()));
    behave(f, o2);
}
// set_and_compute_constraints(chromosome) of a leg made with a, against a leg made with c
KV_ENTRY void kv_hf_chromo(const double *a, const double *c, double *o1, double *o2, unsigned n)
{
    auto l = mk(a, n);
    std::vector<double> x(c, c + 7);
    x.insert(x.end(), c + 20, c + 20 + n);
    x.insert(x.end(), c + 7, c + 15);
    auto r = l.set_and_compute_constraints(x);
    *o1++ = static_cast<double>(r.size());
    for (auto v : r) *o1++ = v;
    behave(l, o1);
    const auto f = mk(c, n);
    auto s = f.compute_constraints();
    *o2++ = static_cast<double>(s.size());
    for (auto v : s) *o2++ = v;
    behave(f, o2);
}
// Stark problem: construct (mu, veff, tol), set mu and veff (which: bits), propagate
KV_ENTRY void kv_stark(const double *in, double *out, int which, int var, int before)
{
    kep3::stark_problem p(in[0], in[1], in[2]);
    const double *x = in + 5;
    if (before) {
        (void)p.propagate_var({x[6], x[5], x[4], x[3], x[2], x[1], x[0]}, {x[8], x[7], x[9]}, in[3]);
        (void)p.propagate({x[6], x[5], x[4], x[3], x[2], x[1], x[0]}, {x[8], x[7], x[9]}, in[3]);
    }
    if (which & 1) p.set_mu(in[3]);
    if (which & 2) p.set_veff(in[4]);
    out[0] = p.get_mu();
    out[1] = p.get_veff();
    out[2] = p.get_tol();
    out += 3;
    const std::array<double, 7> s{x[0], x[1], x[2], x[3], x[4], x[5], x[6]};
    if (var) {
        auto [r, a, b] = p.propagate_var(s, {x[7], x[8], x[9]}, x[10]);
        for (auto v : r) *out++ = v;
        for (auto v : a) *out++ = v;
        for (auto v : b) *out++ = v;
    } else {
        for (auto v : p.propagate(s, {x[7], x[8], x[9]}, x[10])) *out++ = v;
    }
}
// saved and loaded: what the loaded leg or problem does
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
static inline void kv_hf_obs(const sims_flanagan_hf &l, double *o)
{
    dump(l, o);
    o += 38 + l.get_throttles().size();
    for (auto x : l.compute_mismatch_constraints()) *o++ = x;
    for (auto x : l.compute_throttle_constraints()) *o++ = x;
    auto [a, b, c] = l.compute_mc_grad();
    for (auto x : a) *o++ = x;
    for (auto x : b) *o++ = x;
    for (auto x : c) *o++ = x;
}
KV_ENTRY void kv_s_hf(const double *in, double *o1, double *o2, const double *in2, unsigned n, unsigned n2)
{
    const auto a = mk(in, n);
    auto b = n2 ? mk(in2, n2) : sims_flanagan_hf();
    auto *buf = new unsigned char[32768];
    boost::archive::binary_oarchive oa(buf);
    oa << a;
    boost::archive::binary_iarchive ia(buf);
    ia >> b;
    o1[0] = static_cast<double>(oa.kv_pos);
    o2[0] = static_cast<double>(ia.kv_pos);
    kv_hf_obs(a, o1 + 1);
    kv_hf_obs(b, o2 + 1);
}
// in: mu veff tol, the other's mu veff tol, state 7, thrust 3, time
static inline void kv_st_obs(kep3::stark_problem &p, const double *in, double *o)
{
    *o++ = p.get_mu();
    *o++ = p.get_veff();
    *o++ = p.get_tol();
    const std::array<double, 7> x{in[6], in[7], in[8], in[9], in[10], in[11], in[12]};
    const std::array<double, 3> u{in[13], in[14], in[15]};
    for (auto y : p.propagate(x, u, in[16])) *o++ = y;
    auto [y, a, b] = p.propagate_var(x, u, in[16]);
    for (auto z : y) *o++ = z;
    for (auto z : a) *o++ = z;
    for (auto z : b) *o++ = z;
}
KV_ENTRY void kv_s_stark(const double *in, double *o1, double *o2)
{
    kep3::stark_problem a(in[0], in[1], in[2]);
    kep3::stark_problem b(in[3], in[4], in[5]);
    auto *buf = new unsigned char[32768];
    boost::archive::binary_oarchive oa(buf);
    oa << a;
    boost::archive::binary_iarchive ia(buf);
    ia >> b;
    o1[0] = static_cast<double>(oa.kv_pos);
    o2[0] = static_cast<double>(ia.kv_pos);
    kv_st_obs(a, in, o1 + 1);
    kv_st_obs(b, in, o2 + 1);
}
