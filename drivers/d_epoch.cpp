#include "kv_common.hpp"
#include <chrono>
#include <string>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/epoch.hpp>
using kep3::epoch;
static inline epoch kv_us(long long us)
{
    return epoch(kep3::time_point{kep3::microseconds{us}});
}
static inline long long kv_count(const epoch &e)
{
    return static_cast<long long>(e.get_tp().time_since_epoch().count());
}
static inline void kv_views(const epoch &e, double *out)
{
    out[0] = e.jd();
    out[1] = e.mjd();
    out[2] = e.mjd2000();
}
static constexpr epoch::julian_type kv_jul[] = {epoch::julian_type::JD, epoch::julian_type::MJD,
                                                epoch::julian_type::MJD2000};
// the three views of a time point
KV_ENTRY void kv_ep_views(const double *, double *out, long long us)
{
    kv_views(kv_us(us), out);
    out[3] = static_cast<double>(kv_count(kv_us(us)));
}
// an epoch from a number of days in a calendar (which > 3: default argument), and its views
KV_ENTRY void kv_ep_days(const double *in, double *out, int which)
{
    kv_views(which > 3 ? epoch(in[0])
                       : epoch(in[0], which < 3 ? kv_jul[which] : static_cast<epoch::julian_type>(77)),
             out);
}
KV_ENTRY void kv_ep_default(const double *, double *out)
{
    kv_views(epoch(), out);
}
KV_ENTRY void kv_ep_tp(const double *in, double *out)
{
    kv_views(epoch(epoch::tp_from_days(in[0])), out);
}
// free functions: one per pair of calendars
KV_ENTRY void kv_ep_free(const double *in, double *out)
{
    out[0] = kep3::jd2mjd(in[0]);
    out[1] = kep3::jd2mjd2000(in[0]);
    out[2] = kep3::mjd2jd(in[0]);
    out[3] = kep3::mjd2mjd2000(in[0]);
    out[4] = kep3::mjd20002jd(in[0]);
    out[5] = kep3::mjd20002mjd(in[0]);
}
// durations
KV_ENTRY void kv_ep_dur(const double *in, double *out, int op, long long us, long long d)
{
    epoch e = kv_us(us);
    const auto dur = kep3::microseconds{d};
    switch (op) {
        case 0: e = e + dur; break;
        case 1: e = e - dur; break;
        case 2: e += dur; break;
        case 3: e -= dur; break;
        case 4: e = e + std::chrono::hours(d); break;
        case 5: e = e - std::chrono::hours(d); break;
        case 6: e += std::chrono::hours(d); break;
        case 7: e -= std::chrono::hours(d); break;
        case 8: e = e + epoch::days(in[0]); break;
        case 9: e = e - epoch::days(in[0]); break;
        case 10: e = e + epoch::sec(in[0]); break;
        case 11: e = e + std::chrono::duration<double, std::ratio<86400>>(in[0]); break;
        case 12: e = e - std::chrono::duration<double>(in[0]); break;
        case 13: e = epoch(dur); break;
        case 14: e = epoch(std::chrono::hours(d)); break;
        case 15: e = epoch(std::chrono::duration<double, std::ratio<86400>>(in[0])); break;
        case 16: e = (e + dur) - dur; break;
        case 17: e = kv_us(d) + (e - kv_us(d)); break;
        default: break;
    }
    out[0] = static_cast<double>(kv_count(e));
}
// difference of two epochs, in microseconds, and the same in seconds
KV_ENTRY void kv_ep_diff(const double *, double *out, long long a, long long b)
{
    const auto d = kv_us(a) - kv_us(b);
    out[0] = static_cast<double>(static_cast<long long>(d.count()));
    out[1] = epoch::as_sec(d);
}
// comparisons
KV_ENTRY void kv_ep_cmp(const double *, double *out, int op, long long a, long long b)
{
    const epoch x = kv_us(a), y = kv_us(b);
    bool r = false;
    switch (op) {
        case 0: r = x < y; break;
        case 1: r = x <= y; break;
        case 2: r = x > y; break;
        case 3: r = x >= y; break;
        case 4: r = x == y; break;
        default: r = x != y; break;
    }
    if (r) {
        out[0] = 1.;
    } else {
        out[0] = 0.;
    }
}
// calendar date, and the reference from the standard calendar
static inline long long kv_cal(int y, unsigned mon, unsigned d, long long h, long long min, long long s, long long ms,
                               long long us)
{
    using namespace std::chrono;
    const sys_days t{year_month_day{year{y}, month{mon}, day{d}}};
    return static_cast<long long>(t.time_since_epoch().count()) * 86400000000LL + h * 3600000000LL + min * 60000000LL
           + s * 1000000LL + ms * 1000LL + us;
}
KV_ENTRY void kv_ep_date(const double *, double *out, int y, unsigned mon, unsigned d, int h, int min, int s, int ms,
                         int us)
{
    out[0] = static_cast<double>(kv_count(epoch(y, mon, d, h, min, s, ms, us)));
    out[1] = static_cast<double>(kv_cal(y, mon, d, h, min, s, ms, us));
}
KV_ENTRY void kv_ep_date3(const double *, double *out, int y, unsigned mon, unsigned d)
{
    out[0] = static_cast<double>(kv_count(epoch(y, mon, d)));
    out[1] = static_cast<double>(kv_cal(y, mon, d, 0, 0, 0, 0, 0));
}
// date strings of n characters, in text[0..n)
static inline int kv_num(const char *p, unsigned n)
{
    return std::stoi(std::string(p, n));
}
KV_ENTRY void kv_ep_string(const char *text, double *out, unsigned n, int fmt)
{
    const std::string s(text, n);
    out[0] = static_cast<double>(
        kv_count(fmt ? epoch(s, static_cast<epoch::string_format>(9)) : epoch(s)));
}
KV_ENTRY void kv_ep_fields(const char *text, double *out, unsigned n)
{
    unsigned d = 1, frac = 0, scale = 1;
    int h = 0, min = 0, s = 0;
    const int y = kv_num(text, 4);
    const unsigned mon = kv_num(text + 5, 2);
    if (n >= 10) d = kv_num(text + 8, 2);
    if (n >= 13) h = kv_num(text + 11, 2);
    if (n >= 16) min = kv_num(text + 14, 2);
    if (n >= 19) s = kv_num(text + 17, 2);
    if (n >= 21) {
        frac = kv_num(text + 20, n - 20);
        for (unsigned i = 0; i < 26 - n; ++i) scale *= 10;
    }
    out[0] = static_cast<double>(
        kv_cal(y, mon, d, h, min, s, 0, static_cast<long long>(frac) * static_cast<long long>(scale)));
}
