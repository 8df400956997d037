// Stand-in for heyoka's JIT state, for analysis only: compiled code is an opaque number of the expressions it evaluates.
#pragma once
#include <cstdint>
#include <heyoka/config.hpp>
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>
#include <string>
#include <vector>

// the address of a function evaluating the given expressions at the given variable
extern "C" std::uintptr_t kv_hy_lookup(const char *, const double *outs, unsigned n, double var);

namespace heyoka
{
class llvm_state
{
public:
    std::string kv_name;
    double kv_out[6]{}, kv_var = 0.;
    unsigned kv_n = 0;
    bool kv_compiled = false;
    llvm_state() = default;
    void compile() { kv_compiled = true; }
    std::uintptr_t jit_lookup(const std::string &s)
    {
        return kv_compiled && s == kv_name ? kv_hy_lookup(s.c_str(), kv_out, kv_n, kv_var) : 0u;
    }
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & kv_name;
        ar & kv_out;
        ar & kv_var;
        ar & kv_n;
        ar & kv_compiled;
    }
};
template <typename T>
void add_cfunc(llvm_state &s, const std::string &name, const std::vector<expression> &fn,
               const std::vector<expression> &vars)
{
    s.kv_name = name;
    s.kv_n = static_cast<unsigned>(fn.size());
    for (unsigned i = 0; i < s.kv_n && i < 6; ++i) s.kv_out[i] = fn[i].v;
    s.kv_var = vars[0].v;
}
} // namespace heyoka
