// Stand-in for heyoka's VSOP2013 model, for analysis only: the solution is an opaque function of planet, time, threshold.
#pragma once
#include <array>
#include <cstdint>
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>
#include <vector>

extern "C" double kv_hy_vsop(unsigned component, unsigned planet, double time, double thresh);
extern "C" double kv_hy_vsop_mu(unsigned);

namespace heyoka::kw
{
inline constexpr keyword<20> time_expr{};
inline constexpr keyword<21> thresh{};
} // namespace heyoka::kw
namespace heyoka::model
{
inline std::array<double, 10> get_vsop2013_mus()
{
    std::array<double, 10> r{};
    for (unsigned i = 0; i < 10; ++i) r[i] = kv_hy_vsop_mu(i);
    return r;
}
namespace kv_detail
{
inline void get(const kw::given<20, expression> &k, double &t, double &)
{
    t = k.value.v;
}
template <typename T>
void get(const kw::given<21, T> &k, double &, double &th)
{
    th = k.value;
}
} // namespace kv_detail
template <typename... KW>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t pl, const KW &...k)
{
    double t = 0., th = 1e-9;
    (kv_detail::get(k, t, th), ...);
    std::vector<expression> r;
    for (unsigned i = 0; i < 6; ++i) r.emplace_back(kv_hy_vsop(i, pl, t, th));
    return r;
}
} // namespace heyoka::model
