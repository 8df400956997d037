// Stand-in for heyoka's keyword arguments, for analysis only.
#pragma once
#include <initializer_list>
#include <vector>
namespace heyoka::kw
{
template <int K, typename T>
struct given {
    T value;
};
template <int K>
struct keyword {
    constexpr keyword() = default;
    template <typename T>
    given<K, T> operator=(T x) const
    {
        return {std::move(x)};
    }
    template <typename T>
    given<K, std::vector<T>> operator=(std::initializer_list<T> x) const
    {
        return {std::vector<T>(x)};
    }
};
inline constexpr keyword<0> tol{};
inline constexpr keyword<1> pars{};
inline constexpr keyword<2> compact_mode{};
inline constexpr keyword<3> high_accuracy{};
inline constexpr keyword<4> time{};
inline constexpr keyword<5> max_steps{};
} // namespace heyoka::kw
