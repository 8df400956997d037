// Analysis stand-in for boost::math::tools root finders.
// The iteration itself is not part of kep3: what is analysed is the equation
// (and the derivatives) kep3 hands to the solver and what it does with the
// outcome.  __kv_root_var() introduces the unknown, __kv_root() records the
// equation/derivatives evaluated at it together with guess and bracket, and
// __kv_iters() yields either the exhausted budget or a smaller count.
#ifndef KV_STUB_ROOTS_HPP
#define KV_STUB_ROOTS_HPP
#include <cstdint>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <string>

#include <boost/math/policies/error_handling.hpp>
#include <boost/math/policies/policy.hpp>

extern "C" {
double __kv_root_var(double guess, int kind) noexcept;
double __kv_root(double var, double f0, double f1, double f2, double guess, double lo, double hi, int kind) noexcept;
std::uintmax_t __kv_iters(std::uintmax_t budget, int have_budget) noexcept;
}

namespace boost::math::tools
{
namespace kv_detail
{
template <class F>
inline double step(F &f, double guess, double lo, double hi, int kind)
{
    const double x = __kv_root_var(guess, kind);
    auto t = f(x);
    constexpr auto n = std::tuple_size_v<std::decay_t<decltype(t)>>;
    double f2 = 0;
    if constexpr (n > 2) {
        f2 = std::get<2>(t);
    }
    return __kv_root(x, std::get<0>(t), std::get<1>(t), f2, guess, lo, hi, kind + 10 * static_cast<int>(n));
}
} // namespace kv_detail

template <class F, class T>
inline T newton_raphson_iterate(F f, T guess, T lo, T hi, int, std::uintmax_t &max_iter)
{
    const std::uintmax_t b = max_iter;
    T r = kv_detail::step(f, guess, lo, hi, 1);
    max_iter = __kv_iters(b, 1);
    return r;
}
template <class F, class T>
inline T newton_raphson_iterate(F f, T guess, T lo, T hi, int)
{
    T r = kv_detail::step(f, guess, lo, hi, 1);
    (void)__kv_iters(200, 0);
    return r;
}
template <class F, class T>
inline T halley_iterate(F f, T guess, T lo, T hi, int, std::uintmax_t &max_iter)
{
    const std::uintmax_t b = max_iter;
    T r = kv_detail::step(f, guess, lo, hi, 2);
    max_iter = __kv_iters(b, 1);
    return r;
}
template <class F, class T>
inline T halley_iterate(F f, T guess, T lo, T hi, int)
{
    T r = kv_detail::step(f, guess, lo, hi, 2);
    (void)__kv_iters(200, 0);
    return r;
}
template <class F, class T>
inline T schroder_iterate(F f, T guess, T lo, T hi, int, std::uintmax_t &max_iter)
{
    const std::uintmax_t b = max_iter;
    T r = kv_detail::step(f, guess, lo, hi, 2);
    max_iter = __kv_iters(b, 1);
    return r;
}
template <class T>
struct eps_tolerance {
    eps_tolerance() = default;
    explicit eps_tolerance(unsigned) {}
    bool operator()(const T &, const T &) const { return true; }
};
namespace kv_detail
{
template <class F, class T>
inline std::pair<T, T> bracket(F &f, T lo, T hi, std::uintmax_t &max_iter)
{
    const std::uintmax_t b = max_iter;
    const double x = __kv_root_var(lo, 3);
    const double f0 = f(x);
    const double r = __kv_root(x, f0, 0., 0., lo, lo, hi, 3 + 10);
    max_iter = __kv_iters(b, 1);
    return {r, r};
}
} // namespace kv_detail
template <class F, class T, class Tol>
inline std::pair<T, T> bisect(F f, T lo, T hi, Tol, std::uintmax_t &max_iter)
{
    return kv_detail::bracket(f, lo, hi, max_iter);
}
template <class F, class T, class Tol>
inline std::pair<T, T> toms748_solve(F f, T lo, T hi, Tol, std::uintmax_t &max_iter)
{
    return kv_detail::bracket(f, lo, hi, max_iter);
}
template <class F, class T, class Tol>
inline std::pair<T, T> toms748_solve(F f, T lo, T hi, T, T, Tol, std::uintmax_t &max_iter)
{
    return kv_detail::bracket(f, lo, hi, max_iter);
}
template <class F, class T, class Tol>
inline std::pair<T, T> bracket_and_solve_root(F f, T guess, T, bool, Tol, std::uintmax_t &max_iter)
{
    return kv_detail::bracket(f, guess, guess, max_iter);
}
} // namespace boost::math::tools
#endif
