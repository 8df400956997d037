// Stand-in for heyoka's expression system, for analysis only: an expression is the number it denotes, its variables and
// parameters are opaque numbers, so that the value graph of a right-hand side is the right-hand side.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <utility>
#include <variant>
#include <vector>

extern "C" double kv_hy_var(const char *);
extern "C" double kv_hy_par(unsigned);

namespace heyoka
{
class expression
{
public:
    double v = 0.;
    int kind = 0; // 0 composite or number, 1 variable, 2 parameter
    unsigned id = 0;
    unsigned np = 0; // parameters needed
    expression() = default;
    expression(double x) : v(x) {}
    expression(double x, unsigned n) : v(x), np(n) {}
    expression(double x, const expression &a, const expression &b) : v(x), np(a.np > b.np ? a.np : b.np) {}
    explicit expression(const char *n) : v(kv_hy_var(n)), kind(1)
    {
        unsigned h = 0;
        for (const char *p = n; *p; ++p) h = h * 257u + static_cast<unsigned char>(*p);
        id = h;
    }
    explicit expression(const std::string &n) : expression(n.c_str()) {}
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & v;
        ar & kind;
        ar & id;
        ar & np;
    }
    expression operator-() const { return {-v, np}; }
    expression operator+() const { return *this; }
    friend expression operator+(const expression &a, const expression &b) { return {a.v + b.v, a, b}; }
    friend expression operator-(const expression &a, const expression &b) { return {a.v - b.v, a, b}; }
    friend expression operator*(const expression &a, const expression &b) { return {a.v * b.v, a, b}; }
    friend expression operator/(const expression &a, const expression &b) { return {a.v / b.v, a, b}; }
    expression &operator+=(const expression &o) { return *this = *this + o; }
    expression &operator-=(const expression &o) { return *this = *this - o; }
    expression &operator*=(const expression &o) { return *this = *this * o; }
    expression &operator/=(const expression &o) { return *this = *this / o; }
};

struct par_impl {
    expression operator[](unsigned i) const
    {
        expression e(kv_hy_par(i));
        e.kind = 2;
        e.id = i;
        e.np = i + 1;
        return e;
    }
};
inline constexpr par_impl par{};

template <typename... A>
inline std::array<expression, sizeof...(A)> make_vars(const A &...n)
{
    return {expression(n)...};
}

struct prime_wrapper {
    expression e;
    std::pair<expression, expression> operator=(const expression &o) const { return {e, o}; }
};
inline prime_wrapper prime(const expression &e)
{
    return {e};
}
inline expression pow(const expression &a, double b) { return {std::pow(a.v, b), a.np}; }
inline expression pow(const expression &a, const expression &b) { return {std::pow(a.v, b.v), a, b}; }
inline expression sqrt(const expression &a) { return {std::sqrt(a.v), a.np}; }
inline expression square(const expression &a) { return {a.v * a.v, a.np}; }
inline expression sin(const expression &a) { return {std::sin(a.v), a.np}; }
inline expression cos(const expression &a) { return {std::cos(a.v), a.np}; }
inline expression exp(const expression &a) { return {std::exp(a.v), a.np}; }
inline expression log(const expression &a) { return {std::log(a.v), a.np}; }
inline expression sum(const std::vector<expression> &t, std::uint32_t = 64)
{
    expression s(0.);
    for (const auto &x : t) s += x;
    return s;
}
inline expression prod(const std::vector<expression> &t, std::uint32_t = 64)
{
    expression s(1.);
    for (const auto &x : t) s *= x;
    return s;
}
inline expression kv_truth(bool t, const expression &a, const expression &b) { return {t ? 1. : 0., a, b}; }
inline expression eq(const expression &a, const expression &b) { return kv_truth(a.v == b.v, a, b); }
inline expression neq(const expression &a, const expression &b) { return kv_truth(a.v != b.v, a, b); }
inline expression lt(const expression &a, const expression &b) { return kv_truth(a.v < b.v, a, b); }
inline expression gt(const expression &a, const expression &b) { return kv_truth(a.v > b.v, a, b); }
inline expression lte(const expression &a, const expression &b) { return kv_truth(a.v <= b.v, a, b); }
inline expression gte(const expression &a, const expression &b) { return kv_truth(a.v >= b.v, a, b); }
inline expression select(const expression &c, const expression &a, const expression &b)
{
    const expression n(0., a, b);
    return {c.v != 0. ? a.v : b.v, c, n};
}

using ode_sys_t = std::vector<std::pair<expression, expression>>;
enum class var_args : unsigned { vars = 1, params = 2, time = 4, all = 7 };
class var_ode_sys
{
public:
    ode_sys_t sys;
    std::vector<expression> args;
    unsigned order;
    explicit var_ode_sys(const ode_sys_t &s, const std::vector<expression> &a, std::uint32_t o = 1)
        : sys(s), args(a), order(o)
    {
    }
};
} // namespace heyoka
