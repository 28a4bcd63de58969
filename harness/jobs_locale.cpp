// Locales: L<k> scans with locale k, G<k> without one while k is the global locale
// (and a locale with a decimal comma is the global one of C)
#include "custom.h"
#include <scn/ranges.h>
#include <clocale>
#include <locale>
#include <tuple>

namespace user {
struct wrap {
    int v;
};
// asks the context for its locale
struct point {
    int v;
};
}  // namespace user
template <typename C>
struct scn::scanner<user::wrap, C> : scn::scanner<int, C> {
    template <typename Ctx>
    auto scan(user::wrap& w, Ctx& ctx) const
    {
        return scn::scanner<int, C>::scan(w.v, ctx);
    }
};
template <typename C>
struct scn::scanner<user::point, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
    template <typename Ctx>
    auto scan(user::point& p, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
    {
        auto loc = ctx.locale().template get<std::locale>();
        p.v = static_cast<int>(std::use_facet<std::numpunct<C>>(loc).decimal_point());
        return ctx.begin();
    }
};

namespace drv {
template <typename C>
std::string jx(const std::basic_string<C>& v) { return jval(v); }
template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
std::string jx(T v) { return jval(v); }
inline std::string jx(const user::wrap& v) { return jval(v.v); }
inline std::string jx(const user::point& v) { return "[" + std::to_string(v.v) + "]"; }
inline std::string jx(const std::vector<int>& v)
{
    std::string o = "[";
    for (auto x : v) o += (o.size() > 1 ? "," : "") + jval(x);
    return o + "]";
}
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t)
{
    std::string o = "[";
    std::apply([&](const auto&... x) { ((o += (o.size() > 1 ? "," : "") + jx(x)), ...); }, t);
    return o + "]";
}

namespace {
template <typename C>
struct punct : std::numpunct<C> {
    C ts, dp;
    std::string g;
    std::basic_string<C> tn, fn;
    punct(C t, C d, const char* gr, const C* y, const C* n) : ts(t), dp(d), g(gr), tn(y), fn(n) {}
    C do_thousands_sep() const override { return ts; }
    C do_decimal_point() const override { return dp; }
    std::string do_grouping() const override { return g; }
    std::basic_string<C> do_truename() const override { return tn; }
    std::basic_string<C> do_falsename() const override { return fn; }
};
std::locale make(int k)
{
    auto of = [&](char t, wchar_t wt, char d, wchar_t wd, const char* g, const char* y, const char* n, const wchar_t* wy,
                  const wchar_t* wn) {
        std::numpunct<char>* a = new punct<char>(t, d, g, y, n);
        std::numpunct<wchar_t>* b = new punct<wchar_t>(wt, wd, g, wy, wn);
        return std::locale(std::locale(std::locale::classic(), a), b);
    };
    switch (k) {
        case 1: return of(',', L',', '.', L'.', "\3", "true", "false", L"true", L"false");
        case 2: return of('.', L'.', ',', L',', "\3", "ja", "nein", L"ja", L"nein");
        case 3: return of('\'', L'\'', '.', L'.', "\3\2", "tosi", "to", L"tosi", L"to");
        case 4: return of(' ', L' ', ',', L',', "\3", "kyll\u00e4", "ei", L"kyll\u00e4", L"ei");
        case 5: return of(';', L';', ',', L',', "", "tr", "tru", L"tr", L"tru");
        case 6: return of('_', L'\u00a0', ':', L'\u066b', "\1", "\u00e4", "\u00f6", L"\u00e4", L"\u00f6");
        default: return std::locale::classic();
    }
}
const std::locale& loc(int k)
{
    static const std::locale all[] = {make(0), make(1), make(2), make(3), make(4), make(5), make(6)};
    return all[k];
}
struct global_locale {
    std::locale old;
    global_locale(int k) : old(std::locale::global(loc(k)))
    {
        // not there: the C locale
        std::setlocale(LC_ALL, k % 2 ? "de_DE.UTF-8" : "fr_FR.UTF-8");
        name = std::setlocale(LC_ALL, nullptr);
    }
    ~global_locale()
    {
        std::locale::global(old);
        std::setlocale(LC_ALL, "C");
    }
    bool same(int k) const { return name == std::setlocale(LC_ALL, nullptr) && std::locale() == loc(k); }
    std::string name;
};

template <typename C, typename... Ts>
runner localized()
{
    return [](const item& it, outcomes& out) {
        const int k = it.extra[1] - '0';
        if (it.extra[0] == 'G') {
            global_locale g(k);
            scan_by<C>([](const item&, auto& source, std::basic_string_view<C> fmt) {
                return scn::scan<Ts...>(source, scn::runtime_format(fmt));
            })(it, out);
            if (!g.same(k))
                for (auto& o : out) o.e = 94;
        }
        else
            scan_by<C>([k](const item&, auto& source, std::basic_string_view<C> fmt) {
                return scn::scan<Ts...>(loc(k), source, scn::runtime_format(fmt));
            })(it, out);
    };
}
template <typename... Ts>
void add(const char* name)
{
    registry()[name] = [n = localized<char, Ts...>(), w = localized<wchar_t, Ts...>()](const item& it, outcomes& out) {
        if (it.mode != 32) n(it, out);
        if (it.mode != 8) w(it, out);
    };
}
struct init {
    init()
    {
#if PART == 1
        add<int>("i32");
        add<unsigned long long>("u64");
        add<signed char>("i8");
        add<user::wrap>("Cwrap");
        add<user::point>("Cpoint");
#elif PART == 2
        add<float>("f32");
        add<double>("f64");
        add<long double>("f80");
        add<bool>("bool");
        add<std::string>("str");
#else
        add<int, double>("i32+f64");
        add<double, bool>("f64+bool");
        add<user::wrap, double>("Cwrap+f64");
        add<user::point, int>("Cpoint+i32");
        registry()["Rvec"] = [n = localized<char, std::vector<int>>()](const item& it, outcomes& out) { n(it, out); };
#endif
    }
} init_;
}  // namespace
}  // namespace drv
