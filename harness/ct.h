// Which format strings does the compiler accept?  Included by the generated units of
// tools/ct.py: each is a table of ok<format, source, types...>, evaluated by the compiler
// the way an argument of scn::scan is.
#pragma once
#include <cstdio>
#include <deque>
#include <map>
#include <scn/chrono.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <scn/scan.h>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

namespace ct {
template <typename C, std::size_t N>
struct fs {
    C d[N]{};
    constexpr fs(const C (&s)[N])
    {
        for (std::size_t i = 0; i < N; ++i) d[i] = s[i];
    }
    constexpr std::basic_string_view<C> view() const { return {d, N - 1}; }
};
template <typename C, fs f, typename Src, typename... Ts>
constexpr bool ok = requires {
    typename std::integral_constant<int, (scn::basic_scan_format_string<C, Src, Ts...>(f.view()), 0)>;
};

template <typename C>
using rx = std::conditional_t<sizeof(C) == 1, scn::regex_matches, scn::wregex_matches>;
struct plain {};  // takes no specification
struct wrap {};   // takes those of int
}  // namespace ct

template <typename C>
struct scn::scanner<ct::plain, C> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <typename X>
    auto scan(ct::plain&, X& ctx) const -> scn::scan_expected<typename X::iterator> { return ctx.begin(); }
};
template <typename C>
struct scn::scanner<ct::wrap, C> : scn::scanner<int, C> {
    template <typename X>
    auto scan(ct::wrap&, X& ctx) const -> scn::scan_expected<typename X::iterator> { return ctx.begin(); }
};
