#include "kv_common.hpp"
#include <kep3/lambert_problem.hpp>
using kep3::lambert_problem;
// in: r0 r1 tof mu; out: number of revolutions, list sizes, then per solution x, iters, v0, v1
KV_ENTRY void kv_lambert(const double *in, double *out, int cw, unsigned revs)
{
    lambert_problem lp({in[0], in[1], in[2]}, {in[3], in[4], in[5]}, in[6], in[7], cw != 0, revs);
    out[0] = lp.get_Nmax();
    out[1] = static_cast<double>(lp.get_v0().size());
    out[2] = static_cast<double>(lp.get_v1().size());
    out[3] = static_cast<double>(lp.get_x().size());
    out[4] = static_cast<double>(lp.get_iters().size());
    for (unsigned i = 0; i < lp.get_v0().size(); ++i) {
        double *o = out + 5 + 7 * i;
        o[0] = lp.get_x()[i];
        for (int j = 0; j < 3; ++j) {
            o[1 + j] = lp.get_v0()[i][j];
            o[4 + j] = lp.get_v1()[i][j];
        }
    }
}
