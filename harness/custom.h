// Jobs whose values are rendered by an overload of jx
#pragma once
#include "common.h"

namespace drv {
template <typename... Ts>
std::string jx(const std::tuple<Ts...>& t);  // defined by the including file, after the other overloads

namespace {
// f: the scan, of a source by a format string
template <typename C, typename F>
runner scan_by(F f)
{
    return [f](const item& it, outcomes& out) {
        const auto in = text<C>(it.input);
        const auto fmt = text<C>(it.fmt);
        auto go = [&](const char* src, bool contiguous, auto& source, auto left) {
            mark(src);
            outcome o;
            o.src = src;
            o.contiguous = contiguous;
            auto r = f(it, source, std::basic_string_view<C>(fmt));
            if (!r)
                o.e = code(r.error());
            else {
                o.n = left(r);
                o.v = jx(r->values());
            }
            out.push_back(o);
        };
        const long n = static_cast<long>(in.size());
        auto rest = [&](auto& r) { return n - how_many(r->range().begin(), r->range().end(), n + 1); };
        {
            exact<C> x(in);
            auto sv = x.view();
            go(sizeof(C) > 1 ? "wsv" : "sv", true, sv, rest);
        }
        {
            auto s = in;
            go(sizeof(C) > 1 ? "wstr" : "str", true, s, rest);
        }
        {
            std::deque<C> d(in.begin(), in.end());
            go(sizeof(C) > 1 ? "wdeque" : "deque", false, d, rest);
        }
        {
            seq<C> d{in};
            go(sizeof(C) > 1 ? "wseq" : "seq", false, d, rest);
        }
        if constexpr (sizeof(C) == 1) {
            if (in.find('\0') != std::string::npos) return;
            for (int b : {-1, 0, 1, 2, 3, 5, 8}) {
                std::FILE* file = b < 0 || it.idx % 2 ? open_mem(in, b) : open_disk(in, b);
                std::string after;
                auto pos = out.size();
                go("file", false, file, [&](auto&) { return 0L; });
                after = drain(file);
                std::fclose(file);
                auto& o = out[pos];
                o.src = "f" + std::to_string(b);
                if (o.e) {
                    if (after != in) o.e = 95;
                }
                else {
                    o.n = n - static_cast<long>(after.size());
                    if (o.n < 0 || in.compare(static_cast<size_t>(o.n), std::string::npos, after) != 0) o.e = 97;
                }
            }
        }
    };
}
template <typename C, typename... Ts>
runner scan_all()
{
    return scan_by<C>([](const item&, auto& source, std::basic_string_view<C> fmt) {
        return scn::scan<Ts...>(source, scn::runtime_format(fmt));
    });
}
}  // namespace
}  // namespace drv
