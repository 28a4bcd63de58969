// Dates and times
#include "custom.h"
#include <scn/chrono.h>
#include <tuple>

namespace drv {
using tpoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
using tmilli = std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>;

inline std::string jn(long long v) { return std::to_string(v); }
template <typename T, typename F>
std::string jo(const std::optional<T>& v, F f) { return v ? "[" + f(*v) + "]" : "[]"; }
template <typename T>
std::string jo(const std::optional<T>& v)
{
    return jo(v, [](const T& x) { return jn(static_cast<long long>(x)); });
}
inline std::string jtm(const std::tm& t)
{
    return jn(t.tm_sec) + "," + jn(t.tm_min) + "," + jn(t.tm_hour) + "," + jn(t.tm_mday) + "," + jn(t.tm_mon) + "," +
           jn(t.tm_year) + "," + jn(t.tm_wday) + "," + jn(t.tm_yday) + "," + jn(t.tm_isdst) + "," + jn(t.tm_gmtoff);
}
inline std::string jz(const std::optional<std::chrono::minutes>& v)
{
    return jo(v, [](auto x) { return jn(x.count()); });
}
inline std::string js(const std::optional<std::string>& v)
{
    return jo(v, [](auto& x) { return jval(x); });
}
inline long long ju(scn::month m) { return static_cast<unsigned>(m); }
inline long long ju(scn::day m) { return static_cast<unsigned>(m); }
inline long long ju(scn::year m) { return static_cast<int>(m); }

inline std::string jx(int v) { return jval(v); }
inline std::string jx(const std::string& v) { return jval(v); }
inline std::string jx(const scn::tm_with_tz& t) { return "[" + jtm(t) + "," + jz(t.tz_offset) + "," + js(t.tz_name) + "]"; }
inline std::string jx(const std::tm& t) { return "[" + jtm(t) + "]"; }
inline std::string jx(const scn::datetime_components& t)
{
    return "[" + jo(t.subsec, [](double d) { return jfloat(d); }) + "," + jo(t.sec) + "," + jo(t.min) + "," + jo(t.hour) + "," +
           jo(t.mday) + "," + jo(t.mon, [](auto m) { return jn(ju(m)); }) + "," + jo(t.year) + "," +
           jo(t.wday, [](auto w) { return jn(w.c_encoding()); }) + "," + jo(t.yday) + "," + jz(t.tz_offset) + "," +
           js(t.tz_name) + "]";
}
inline std::string jx(scn::day v) { return "[" + jn(ju(v)) + "]"; }
inline std::string jx(scn::month v) { return "[" + jn(ju(v)) + "]"; }
inline std::string jx(scn::year v) { return "[" + jn(ju(v)) + "]"; }
inline std::string jx(scn::weekday v) { return "[" + jn(v.c_encoding()) + "]"; }
inline std::string jx(const scn::month_day& v) { return "[" + jn(ju(v.month())) + "," + jn(ju(v.day())) + "]"; }
inline std::string jx(const scn::year_month& v) { return "[" + jn(ju(v.year())) + "," + jn(ju(v.month())) + "]"; }
inline std::string jx(const scn::year_month_day& v)
{
    return "[" + jn(ju(v.year())) + "," + jn(ju(v.month())) + "," + jn(ju(v.day())) + "]";
}
inline std::string jx(tpoint v)
{
    const long long n = v.time_since_epoch().count(), d = n >= 0 ? n / 86400 : -((86399 - n) / 86400);
    return "[" + jn(d) + "," + jn(n - d * 86400) + "]";
}
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t)
{
    std::string o = "[";
    std::apply([&](const auto&... x) { ((o += (o.size() > 1 ? "," : "") + jx(x)), ...); }, t);
    return o + "]";
}

namespace {
template <typename... Ts>
void add(const char* name)
{
    auto n = scan_all<char, Ts...>();
    auto w = scan_all<wchar_t, Ts...>();
    registry()[name] = [n, w](const item& it, outcomes& out) {
        if (it.mode != 32) n(it, out);
        if (it.mode != 8) w(it, out);
    };
}
struct init {
    init()
    {
#if PART == 1
        add<std::tm>("Ttm");
        add<scn::tm_with_tz>("Ttz");
        add<scn::datetime_components>("Tdt");
        add<int, std::tm>("i32+Ttm");
#elif PART == 2
        add<scn::day>("Tday");
        add<scn::month>("Tmon");
        add<scn::year>("Tyear");
        add<scn::weekday>("Twd");
        add<scn::datetime_components, std::string>("Tdt+str");
#else
        add<scn::month_day>("Tmd");
        add<scn::year_month>("Tym");
        add<scn::year_month_day>("Tymd");
        add<tpoint>("Ttp");
        add<std::string, scn::year_month_day>("str+Tymd");
#endif
    }
} init_;
}  // namespace
}  // namespace drv
