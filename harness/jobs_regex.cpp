// Regular expressions
#include "custom.h"
#include <tuple>

namespace drv {
inline std::string jx(int v) { return jval(v); }
template <typename C>
std::string jx(const std::basic_string<C>& v) { return jval(v); }
template <typename C>
std::string jx(const std::basic_string_view<C>& v) { return jval(v); }
template <typename C>
std::string jx(const scn::basic_regex_matches<C>& m)
{
    std::string o = "[";
    for (auto& g : m) {
        o += o.size() > 1 ? ",[" : "[";
        if (g) {
            o += jval(g->get());
#if SCN_REGEX_SUPPORTS_NAMED_CAPTURES
            if (auto n = g->name()) o += "," + jval(*n);
#endif
        }
        o += "]";
    }
    return o + "]";
}
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t)
{
    std::string o = "[";
    std::apply([&](const auto&... x) { ((o += (o.size() > 1 ? "," : "") + jx(x)), ...); }, t);
    return o + "]";
}

namespace {
void put(const char* name, runner n, runner w)
{
    registry()[name] = [n, w](const item& it, outcomes& out) {
        if (it.mode != 32) n(it, out);
        if (it.mode != 8) w(it, out);
    };
}
using std::string_view, std::wstring_view, std::string, std::wstring;
using rx = scn::regex_matches;
using wrx = scn::wregex_matches;
#if SCN_REGEX_SUPPORTS_NAMED_CAPTURES
#define RX "rxb"
#else
#define RX "rx"
#endif
struct init {
    init()
    {
        put("str", scan_all<char, string>(), scan_all<wchar_t, string>());
        put("wstr", scan_all<char, wstring>(), scan_all<wchar_t, wstring>());
        put("sv", scan_all<char, string_view>(), scan_all<wchar_t, wstring_view>());
        put(RX, scan_all<char, rx>(), scan_all<wchar_t, wrx>());
        put(RX "+str", scan_all<char, rx, string>(), scan_all<wchar_t, wrx, string>());
        put("i32+" RX, scan_all<char, int, rx>(), scan_all<wchar_t, int, wrx>());
        put("str+str", scan_all<char, string, string>(), scan_all<wchar_t, string, string>());
    }
} init_;
}  // namespace
}  // namespace drv
