// Stand-in for heyoka's integrators, for analysis only: the flow and its sensitivities are opaque, everything else
// (states, parameters, times, copies) is as documented.
#pragma once
#include <cstddef>
#include <cstdint>
#include <heyoka/config.hpp>
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>
#include <tuple>
#include <utility>
#include <vector>

// advances state (and sensitivities) by dt; returns the outcome
// (codes: what the sensitivities are with respect to; a state's index or 100 + a parameter's index)
extern "C" int kv_hy_advance(double *state, const double *pars, double dt, double tol, unsigned neq, unsigned ncodes,
                             const unsigned *codes);

namespace heyoka
{
enum class taylor_outcome : std::int64_t {
    success = -4294967296L - 1,
    step_limit = -4294967296L - 2,
    time_limit = -4294967296L - 3,
    err_nf_state = -4294967296L - 4,
    cb_stop = -4294967296L - 5
};

struct step_callback_stub {
};
struct continuous_output_stub {
};

template <typename T>
class taylor_adaptive
{
public:
    ode_sys_t kv_sys;
    std::vector<unsigned> kv_codes;
    std::vector<T> m_state{T(0)}, m_pars;
    T m_time = T(0), m_tol = T(0);
    unsigned m_neq = 1;

private:
    static std::size_t kv_npars(const ode_sys_t &s, const std::vector<expression> *args = nullptr)
    {
        unsigned n = 0;
        for (const auto &e : s) n = e.second.np > n ? e.second.np : n;
        if (args) {
            for (const auto &e : *args) n = e.np > n ? e.np : n;
        }
        return n;
    }
    template <typename U>
    void kv_set(const kw::given<0, U> &x)
    {
        m_tol = static_cast<T>(x.value);
    }
    template <typename U>
    void kv_set(const kw::given<1, std::vector<U>> &x)
    {
        for (std::size_t i = 0; i < x.value.size() && i < m_pars.size(); ++i) m_pars[i] = static_cast<T>(x.value[i]);
    }
    template <typename U>
    void kv_set(const kw::given<4, U> &x)
    {
        m_time = static_cast<T>(x.value);
    }
    template <int K, typename U>
    void kv_set(const kw::given<K, U> &)
    {
    }

public:
    taylor_adaptive() = default;
    template <typename... KW>
    explicit taylor_adaptive(const ode_sys_t &sys, std::vector<T> state, const KW &...k)
        : kv_sys(sys), m_state(std::move(state)), m_pars(kv_npars(kv_sys), T(0)), m_neq(static_cast<unsigned>(kv_sys.size()))
    {
        (kv_set(k), ...);
    }
    template <typename... KW>
    explicit taylor_adaptive(const var_ode_sys &v, std::vector<T> state, const KW &...k)
        : kv_sys(v.sys), m_state(std::move(state)), m_pars(kv_npars(kv_sys, &v.args), T(0)),
          m_neq(static_cast<unsigned>(kv_sys.size()))
    {
        for (const auto &a : v.args) {
            unsigned c = a.kind == 2 ? 100u + a.id : 99u;
            for (unsigned i = 0; i < m_neq; ++i) {
                if (a.kind == 1 && a.id == kv_sys[i].first.id) c = i;
            }
            kv_codes.push_back(c);
        }
        for (unsigned i = 0; i < m_neq; ++i) {
            for (unsigned c : kv_codes) m_state.push_back(c == i ? T(1) : T(0));
        }
        (kv_set(k), ...);
    }
    taylor_adaptive(const taylor_adaptive &) = default;
    taylor_adaptive(taylor_adaptive &&) noexcept = default;
    taylor_adaptive &operator=(const taylor_adaptive &) = default;
    taylor_adaptive &operator=(taylor_adaptive &&) noexcept = default;
    ~taylor_adaptive() = default;

    std::size_t get_dim() const { return m_state.size(); }
    T get_tol() const { return m_tol; }
    T get_time() const { return m_time; }
    void set_time(T t) { m_time = t; }
    const std::vector<T> &get_state() const { return m_state; }
    T *get_state_data() { return m_state.data(); }
    const T *get_state_data() const { return m_state.data(); }
    const std::vector<T> &get_pars() const { return m_pars; }
    T *get_pars_data() { return m_pars.data(); }
    const T *get_pars_data() const { return m_pars.data(); }

    int kv_step(T t)
    {
        const T dt = t - m_time;
        m_time = t;
        return kv_hy_advance(m_state.data(), m_pars.data(), dt, m_tol, m_neq, static_cast<unsigned>(kv_codes.size()),
                             kv_codes.data());
    }
    template <typename... KW>
    std::tuple<taylor_outcome, T, T, std::size_t, continuous_output_stub, step_callback_stub> propagate_until(T t,
                                                                                                             const KW &...)
    {
        const int r = kv_step(t);
        return {r == 0 ? taylor_outcome::time_limit : taylor_outcome::err_nf_state, T(0), T(0), std::size_t(1), {}, {}};
    }
    template <typename... KW>
    std::tuple<taylor_outcome, T, T, std::size_t, continuous_output_stub, step_callback_stub> propagate_for(T t,
                                                                                                           const KW &...k)
    {
        return propagate_until(m_time + t, k...);
    }
    // states at the points of a grid, from the current time on
    template <typename... KW>
    std::tuple<taylor_outcome, T, T, std::size_t, step_callback_stub, std::vector<T>> propagate_grid(std::vector<T> grid,
                                                                                                    const KW &...)
    {
        std::vector<T> out;
        int r = 0;
        for (std::size_t i = 0; i < grid.size() && r == 0; ++i) {
            r = kv_step(grid[i]);
            for (const auto &x : m_state) out.push_back(x);
        }
        return {r == 0 ? taylor_outcome::time_limit : taylor_outcome::err_nf_state, T(0), T(0), std::size_t(1), {}, out};
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & kv_sys;
        ar & kv_codes;
        ar & m_state;
        ar & m_pars;
        ar & m_time;
        ar & m_tol;
        ar & m_neq;
    }
};
} // namespace heyoka
