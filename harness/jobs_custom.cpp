// Scanners written by users on top of the library, and the ones of ranges.h
#include "custom.h"
#include <deque>
#include <list>
#include <map>
#include <scn/ranges.h>
#include <set>
#include <tuple>
#include <utility>

namespace user {
// values read by a nested scan with a format string of their own
struct pt { int x{}, y{}; };
struct kv { std::string k; int v{}; };
struct nest { pt a, b; };
struct two { int a{}; std::string b; };    // two nested scans, one after the other
struct count { std::vector<int> v; };      // a number n, then n numbers: n + 1 nested scans
struct digits { std::string v; };          // reads through the iterators of the context
struct wrap { int v{}; };                  // everything as for int
struct spaced { std::string a, b; };       // nested scans with literals between
struct arrows { std::vector<int> v; };     // <<1=>2=>3>>
struct faces { std::pair<int, int> v; };   // (:1--2:)
struct cap2 {                              // a container with room for two, filled by push
    using value_type = int;
    std::vector<int> v;
    std::size_t max_size() const { return 2; }
    void push(int x) { v.push_back(x); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
};
}  // namespace user

template <typename C>
struct no_spec {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
};

template <>
struct scn::scanner<user::pt, char> : no_spec<char> {
    template <typename X>
    auto scan(user::pt& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<int, int>(ctx.range(), "({},{})");
        if (!r) return scn::unexpected(r.error());
        std::tie(v.x, v.y) = r->values();
        return r->begin();
    }
};
template <>
struct scn::scanner<user::kv, char> : no_spec<char> {
    template <typename X>
    auto scan(user::kv& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<std::string, int>(ctx.range(), "{:[a-z]}={}");
        if (!r) return scn::unexpected(r.error());
        std::tie(v.k, v.v) = r->values();
        return r->begin();
    }
};
template <>
struct scn::scanner<user::nest, char> : no_spec<char> {
    template <typename X>
    auto scan(user::nest& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<user::pt, user::pt>(ctx.range(), "<{}| {}>");
        if (!r) return scn::unexpected(r.error());
        std::tie(v.a, v.b) = r->values();
        return r->begin();
    }
};
template <>
struct scn::scanner<user::two, char> : no_spec<char> {
    template <typename X>
    auto scan(user::two& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<int>(ctx.range(), "{}");
        if (!r) return scn::unexpected(r.error());
        v.a = r->value();
        ctx.advance_to(r->begin());
        auto q = scn::scan<std::string>(ctx.range(), " {}");
        if (!q) return scn::unexpected(q.error());
        v.b = q->value();
        return q->begin();
    }
};
template <>
struct scn::scanner<user::spaced, char> : no_spec<char> {
    template <typename X>
    auto scan(user::spaced& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<std::string>(ctx.range(), "{:[a-z]} ");
        if (!r) return scn::unexpected(r.error());
        v.a = r->value();
        auto q = scn::scan<std::string>(r->range(), "-> {:.3c}");
        if (!q) return scn::unexpected(q.error());
        v.b = q->value();
        return q->begin();
    }
};
template <>
struct scn::scanner<user::count, char> : no_spec<char> {
    template <typename X>
    auto scan(user::count& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r = scn::scan<int>(ctx.range(), "{}");
        if (!r) return scn::unexpected(r.error());
        ctx.advance_to(r->begin());
        v.v.clear();
        for (int k = 0; k < r->value() && k < 5; ++k) {
            auto q = scn::scan<int>(ctx.range(), "{}");
            if (!q) return scn::unexpected(q.error());
            v.v.push_back(q->value());
            ctx.advance_to(q->begin());
        }
        return ctx.begin();
    }
};
template <>
struct scn::scanner<user::digits, char> : no_spec<char> {
    template <typename X>
    auto scan(user::digits& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto it = ctx.begin();
        for (; it != ctx.end() && *it >= '0' && *it <= '9'; ++it) v.v.push_back(*it);
        return it;
    }
};
template <>
struct scn::scanner<user::wrap, char> : scn::scanner<int, char> {
    template <typename X>
    auto scan(user::wrap& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        return scn::scanner<int, char>::scan(v.v, ctx);
    }
};

template <>
struct scn::scanner<user::arrows, char> : scn::range_scanner<int, char> {
    constexpr scanner()
    {
        set_separator("=>");
        set_brackets("<<", ">>");
    }
    template <typename X>
    auto scan(user::arrows& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        return scn::range_scanner<int, char>::scan(v.v, ctx);
    }
};
template <>
struct scn::scanner<user::faces, char> : scn::scanner<std::pair<int, int>, char> {
    constexpr scanner()
    {
        set_separator("--");
        set_brackets("(:", ":)");
    }
    template <typename X>
    auto scan(user::faces& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        return scn::scanner<std::pair<int, int>, char>::scan(v.v, ctx);
    }
};

namespace drv {
template <typename A, typename B>
std::string jx(const std::pair<A, B>& p);
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t);
template <typename T>
std::string jx(const std::vector<T>& c);
template <typename T>
std::string jx(const std::set<T>& c);
template <typename K, typename V>
std::string jx(const std::map<K, V>& c);
inline std::string jx(int v) { return jval(v); }
inline std::string jx(const std::string& v) { return jval(v); }
inline std::string jx(const user::pt& v) { return "[" + jval(v.x) + "," + jval(v.y) + "]"; }
inline std::string jx(const user::kv& v) { return "[" + jval(v.k) + "," + jval(v.v) + "]"; }
inline std::string jx(const user::nest& v) { return "[" + jx(v.a) + "," + jx(v.b) + "]"; }
inline std::string jx(const user::two& v) { return "[" + jval(v.a) + "," + jval(v.b) + "]"; }
inline std::string jx(const user::spaced& v) { return "[" + jval(v.a) + "," + jval(v.b) + "]"; }
inline std::string jx(const user::count& v) { return jx(v.v); }
inline std::string jx(const user::digits& v) { return jval(v.v); }
inline std::string jx(const user::arrows& v) { return jx(v.v); }
inline std::string jx(const user::faces& v) { return jx(v.v); }
inline std::string jx(const user::cap2& v) { return jx(v.v); }
template <typename T>
std::string jx(const std::list<T>& c);
template <typename T>
std::string jx(const std::deque<T>& c);
inline std::string jx(const user::wrap& v) { return jval(v.v); }
template <typename T>
std::string jx(const scn::discard<T>&) { return "[]"; }
template <typename C>
std::string jc(const C& c)
{
    std::string o = "[";
    for (auto& x : c) o += (o.size() > 1 ? "," : "") + jx(x);
    return o + "]";
}
template <typename A, typename B>
std::string jx(const std::pair<A, B>& p) { return "[" + jx(p.first) + "," + jx(p.second) + "]"; }
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t)
{
    std::string o = "[";
    std::apply([&](const auto&... x) { ((o += (o.size() > 1 ? "," : "") + jx(x)), ...); }, t);
    return o + "]";
}
template <typename T>
std::string jx(const std::vector<T>& c) { return jc(c); }
template <typename T>
std::string jx(const std::set<T>& c) { return jc(c); }
template <typename T>
std::string jx(const std::list<T>& c) { return jc(c); }
template <typename T>
std::string jx(const std::deque<T>& c) { return jc(c); }
template <typename K, typename V>
std::string jx(const std::map<K, V>& c) { return jc(c); }

namespace {
template <typename... Ts>
void add(const char* name)
{
    registry()[name] = scan_all<char, Ts...>();
}
// into values that are not empty
template <typename... Ts>
void add_onto(const char* name, Ts... init)
{
    const std::tuple<Ts...> t{init...};
    registry()[name] = scan_by<char>([t](const item&, auto& source, std::string_view fmt) {
        return scn::scan<Ts...>(source, scn::runtime_format(fmt), std::tuple<Ts...>(t));
    });
}
struct init {
    init()
    {
#if PART == 1
        add<user::pt>("Cpt");
        add<int, user::pt>("i32+Cpt");
        add<user::pt, std::string>("Cpt+str");
        add<std::string, user::nest>("str+Cnest");
        add<user::nest>("Cnest");
        add<user::kv, user::kv>("Ckv+Ckv");
        add<user::two, user::two>("Ctwo+Ctwo");
#elif PART == 2
        add<user::count, user::count>("Ccount+Ccount");
        add<std::string, user::count>("str+Ccount");
        add<user::digits, user::wrap>("Cdigits+Cwrap");
        add<user::wrap, user::digits>("Cwrap+Cdigits");
        add<user::wrap>("Cwrap");
        add<user::spaced, int>("Cspaced+i32");
        add<int, user::spaced>("i32+Cspaced");
#elif PART == 3
        add<scn::discard<int>, int>("Cdiscard+i32");
        add<std::string, scn::discard<std::string>>("str+Cdiscards");
        add<std::vector<int>>("Rvec");
        add<int, std::vector<int>>("i32+Rvec");
        add<std::set<int>>("Rset");
        add<std::map<int, int>>("Rmap");
        add<std::pair<int, int>>("Rpair");
        add<std::tuple<int, std::string, int>>("Rtup");
#elif PART == 5
        add<user::arrows>("Rarr");
        add<int, user::arrows>("i32+Rarr");
        add<user::arrows, user::faces>("Rarr+Rface");
        add<user::faces>("Rface");
        add<user::cap2>("Rcap");
        add<user::cap2, std::string>("Rcap+str");
        add<std::list<int>, std::deque<std::string>>("Rvec+Rvstr");
        add_onto("Rpre", std::vector<int>{7, 8});
        add_onto("Rpreset", std::set<int>{1});
        add_onto("Rpremap", std::map<int, int>{{1, 5}});
        add_onto("i32+Rpre", 0, std::vector<int>{7, 8});
#else
        add<std::vector<std::string>>("Rvstr");
        add<std::vector<std::pair<int, int>>>("Rvpair");
        add<std::vector<std::vector<int>>>("Rvv");
        add<std::map<int, std::vector<int>>>("Rmv");
        add<std::string, std::map<int, int>>("str+Rmap");
        add<std::set<std::string>>("Rsstr");
        add<std::tuple<std::vector<int>, int>>("Rtv");
        add<std::vector<user::pt>>("Rvpt");
#endif
    }
} init_;
}  // namespace
}  // namespace drv
