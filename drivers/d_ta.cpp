#include "kv_common.hpp"
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
using ta_t = heyoka::taylor_adaptive<double>;
extern "C" void kv_mark(int);
extern "C" void kv_got(int, const void *);
static inline const ta_t &get(int which, double tol)
{
    switch (which) {
        case 0: return kep3::ta::get_ta_stark(tol);
        case 1: return kep3::ta::get_ta_stark_var(tol);
        case 2: return kep3::ta::get_ta_cr3bp(tol);
        default: return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
static inline std::size_t dim(int which)
{
    switch (which) {
        case 0: return kep3::ta::get_ta_stark_cache_dim();
        case 1: return kep3::ta::get_ta_stark_var_cache_dim();
        case 2: return kep3::ta::get_ta_cr3bp_cache_dim();
        default: return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
// number of equations, then for each its variable and right-hand side
static inline void sys(const heyoka::ode_sys_t &s, double *out)
{
    out[0] = static_cast<double>(s.size());
    for (std::size_t i = 0; i < s.size() && i < 10; ++i) {
        out[1 + 2 * i] = s[i].first.v;
        out[2 + 2 * i] = s[i].second.v;
    }
}
KV_ENTRY void kv_ta_stark(double *out)
{
    sys(kep3::ta::stark_dyn(), out);
}
KV_ENTRY void kv_ta_cr3bp(double *out)
{
    sys(kep3::ta::cr3bp_dyn(), out);
}
// tolerance, time, number of equations, states, parameters, sensitivities; the arrays, 100 places each
static inline void dump(const ta_t &t, double *out)
{
    for (int i = 0; i < 400; ++i) out[i] = 0.;
    out[0] = t.m_tol;
    out[1] = t.m_time;
    out[2] = t.m_neq;
    out[3] = static_cast<double>(t.m_state.size());
    out[4] = static_cast<double>(t.m_pars.size());
    out[5] = static_cast<double>(t.kv_codes.size());
    for (std::size_t i = 0; i < t.m_state.size() && i < 90; ++i) out[10 + i] = t.m_state[i];
    for (std::size_t i = 0; i < t.m_pars.size() && i < 90; ++i) out[100 + i] = t.m_pars[i];
    for (std::size_t i = 0; i < t.kv_codes.size() && i < 90; ++i) out[200 + i] = t.kv_codes[i];
    sys(t.kv_sys, out + 300);
}
KV_ENTRY void kv_ta_get(double *out, int which, double tol)
{
    dump(get(which, tol), out);
}
// tolerances in sequence, then the first again; sizes in between
KV_ENTRY void kv_ta_seq(double *out, int which, double a, double b)
{
    kv_mark(1);
    out[0] = static_cast<double>(dim(which));
    const auto &x = get(which, a);
    kv_mark(0);
    kv_got(0, &x);
    dump(x, out + 400);
    kv_mark(1);
    out[1] = static_cast<double>(dim(which));
    const auto &y = get(which, b);
    out[2] = static_cast<double>(dim(which));
    kv_mark(0);
    kv_got(1, &y);
    dump(y, out + 800);
    kv_mark(1);
    const auto &z = get(which, a);
    out[3] = static_cast<double>(dim(which));
    const auto &w = get(which, b);
    for (int i = 0; i < 4; ++i) {
        if (i != which) {
            const auto &o = get(i, a);
            (void)o;
            out[4 + i] = static_cast<double>(dim(i));
        }
    }
    kv_mark(0);
    kv_got(2, &z);
    kv_got(3, &w);
    dump(x, out + 1200);
    dump(y, out + 1600);
}
