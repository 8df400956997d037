#include <kep3/detail/s11n.hpp>
#include "kv_common.hpp"
#include <string>
#include <kep3/udpla/vsop2013.hpp>
using kep3::udpla::vsop2013;
extern "C" void kv_mark(int);
static const char *const kv_names[] = {"mercury", "venus",  "earth_moon", "mars",  "jupiter", "saturn",
                                       "uranus",  "neptune", "pluto",      "Venus", "moon",    ""};
KV_ENTRY void kv_vs_eph(const double *, double *out, int name, double thresh, double t)
{
    const vsop2013 a(std::string(kv_names[name]), thresh);
    kv_put_state(a.eph(t), out);
}
// the second construction finds what the first one has cached; a copy, an assigned and a moved planet
KV_ENTRY void kv_vs_again(const double *, double *out, int n1, double h1, int n2, double h2, double t,
                          int how)
{
    kv_mark(1);
    const vsop2013 a(std::string(kv_names[n1]), h1);
    const vsop2013 b(std::string(kv_names[n2]), h2);
    kv_mark(0);
    kv_put_state(a.eph(t), out);
    if (how == 0) {
        kv_put_state(b.eph(t), out + 6);
    } else if (how == 1) {
        const vsop2013 c(b);
        kv_put_state(c.eph(t), out + 6);
    } else if (how == 2) {
        vsop2013 c(a);
        c = b;
        kv_put_state(c.eph(t), out + 6);
    } else {
        vsop2013 c(b);
        vsop2013 d(std::move(c));
        vsop2013 e(a);
        e = std::move(d);
        kv_put_state(e.eph(t), out + 6);
    }
}
KV_ENTRY void kv_s_vsop(const double *, double *o1, double *o2, int n1, double h1, int n2, double h2,
                        double t)
{
    const vsop2013 a(std::string(kv_names[n1]), h1);
    vsop2013 b(std::string(kv_names[n2]), h2);
    auto *buf = new unsigned char[32768];
    boost::archive::binary_oarchive oa(buf);
    oa << a;
    boost::archive::binary_iarchive ia(buf);
    ia >> b;
    o1[0] = static_cast<double>(oa.kv_pos);
    o2[0] = static_cast<double>(ia.kv_pos);
    kv_put_state(a.eph(t), o1 + 1);
    kv_put_state(b.eph(t), o2 + 1);
    o1[7] = static_cast<double>(a.get_name().size());
    o2[7] = static_cast<double>(b.get_name().size());
}
