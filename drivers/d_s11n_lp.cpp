// A Lambert problem of arbitrary contents, saved and loaded.
#include <kep3/detail/s11n.hpp>
#include "kv_common.hpp"
#include <cmath>
#include <iomanip>
#include <iostream>
#include <memory>
#include <new>
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <kep3/core_astro/constants.hpp>
#define private public
#include <kep3/lambert_problem.hpp>
#undef private
using kep3::lambert_problem;
// in: r0 r1 tof mu s c lambda, then per solution: x v0 v1; iters: in order
static inline void kv_fill(lambert_problem *p, const double *in, const unsigned *it, unsigned nmax)
{
    new (&p->m_v0) std::vector<std::array<double, 3>>();
    new (&p->m_v1) std::vector<std::array<double, 3>>();
    new (&p->m_iters) std::vector<unsigned>();
    new (&p->m_x) std::vector<double>();
    for (int i = 0; i < 3; ++i) {
        p->m_r0[i] = in[i];
        p->m_r1[i] = in[3 + i];
    }
    p->m_tof = in[6];
    p->m_mu = in[7];
    p->m_s = in[8];
    p->m_c = in[9];
    p->m_lambda = in[10];
    p->m_Nmax = nmax;
    p->m_has_converged = true;
    p->m_multi_revs = nmax;
    for (unsigned i = 0; i < 2 * nmax + 1; ++i) {
        const double *q = in + 11 + 7 * i;
        p->m_x.push_back(q[0]);
        p->m_v0.push_back({q[1], q[2], q[3]});
        p->m_v1.push_back({q[4], q[5], q[6]});
        p->m_iters.push_back(it[i]);
    }
}
static inline void kv_obs(const lambert_problem &l, double *o)
{
    for (auto x : l.get_r0()) *o++ = x;
    for (auto x : l.get_r1()) *o++ = x;
    *o++ = l.get_tof();
    *o++ = l.get_mu();
    *o++ = l.get_Nmax();
    // these are printed
    *o++ = l.m_s;
    *o++ = l.m_c;
    *o++ = l.m_lambda;
    *o++ = static_cast<double>(l.get_x().size());
    *o++ = static_cast<double>(l.get_v0().size());
    *o++ = static_cast<double>(l.get_v1().size());
    *o++ = static_cast<double>(l.get_iters().size());
    for (auto x : l.get_x()) *o++ = x;
    for (const auto &v : l.get_v0()) {
        for (auto x : v) *o++ = x;
    }
    for (const auto &v : l.get_v1()) {
        for (auto x : v) *o++ = x;
    }
    for (auto x : l.get_iters()) *o++ = x;
}
KV_ENTRY void kv_s_lp(const double *in, double *o1, double *o2, const double *in2, const unsigned *it, unsigned nmax,
                      unsigned nmax2)
{
    auto *pa = static_cast<lambert_problem *>(::operator new(sizeof(lambert_problem)));
    auto *pb = static_cast<lambert_problem *>(::operator new(sizeof(lambert_problem)));
    kv_fill(pa, in, it, nmax);
    kv_fill(pb, in2, it + 8, nmax2);
    auto *buf = new unsigned char[32768];
    boost::archive::binary_oarchive oa(buf);
    oa << *pa;
    boost::archive::binary_iarchive ia(buf);
    ia >> *pb;
    o1[0] = static_cast<double>(oa.kv_pos);
    o2[0] = static_cast<double>(ia.kv_pos);
    kv_obs(*pa, o1 + 1);
    kv_obs(*pb, o2 + 1);
}
