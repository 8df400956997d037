#ifndef KV_COMMON_HPP
#define KV_COMMON_HPP
// Entry points through which the analyses view the public API: each copies
// plain double arrays into the argument types of one public function, calls
// it, and copies the result out.  They are never executed.
#include <array>
#include <optional>
#include <utility>
#include <vector>
#define KV_ENTRY extern "C" __attribute__((used, noinline))
using kv_state = std::array<std::array<double, 3>, 2>;
static inline kv_state kv_get_state(const double *in)
{
    return {{{in[0], in[1], in[2]}, {in[3], in[4], in[5]}}};
}
static inline void kv_put_state(const kv_state &s, double *out)
{
    for (int i = 0; i < 3; ++i) {
        out[i] = s[0][i];
        out[3 + i] = s[1][i];
    }
}
static inline void kv_put_opt(const std::pair<kv_state, std::optional<std::array<double, 36>>> &r, double *out)
{
    kv_put_state(r.first, out);
    out[6] = r.second ? 1. : 0.;
    if (r.second) {
        for (int i = 0; i < 36; ++i) out[7 + i] = (*r.second)[i];
    }
}
#endif
