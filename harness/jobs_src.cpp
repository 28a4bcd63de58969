// Other kinds of sources than those every job uses: arrays and literals, containers,
// views, iterators of every strength
#include "common.h"
#include <forward_list>
#include <list>
namespace {
// characters that exist only when looked at
template <typename C>
struct made {
    struct iterator {
        using value_type = C;
        using reference = C;
        using pointer = const C*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const made* s{};
        size_t i{};
        C operator*() const
        {
            if (i >= s->d.size()) std::abort();
            return static_cast<C>(s->d[i] ^ C(1));
        }
        iterator& operator++()
        {
            if (i >= s->d.size()) std::abort();
            ++i;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++*this;
            return c;
        }
        friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
    };
    std::basic_string<C> d;
    explicit made(std::basic_string<C> s) : d(std::move(s))
    {
        for (auto& c : d) c = static_cast<C>(c ^ C(1));
    }
    iterator begin() const { return {this, 0}; }
    iterator end() const { return {this, d.size()}; }
};

template <typename C, size_t N, typename F>
void arrays(const std::basic_string<C>& in, F scan, drv::outcomes& out)
{
    if (in.size() + 1 == N) {
        const char* name = sizeof(C) == 1 ? "arr" : "warr";
        drv::mark(name);
        C a[N];
        std::copy(in.begin(), in.end(), a);
        a[N - 1] = 0;
        const C(&ca)[N] = a;
        auto r = scan(ca);
        out.push_back(drv::finish_contiguous<C>(name, r, a, a + in.size()));
        return;
    }
    if constexpr (N < 9) arrays<C, N + 1>(in, scan, out);
}

template <typename... Ts>
struct job {
    template <typename C>
    static void go(const drv::item& it, drv::outcomes& out)
    {
        using namespace drv;
        const auto in = text<C>(it.input);
        const auto fmt = text<C>(it.fmt);
        auto f = [&](auto& src) { return scn::scan<Ts...>(src, scn::runtime_format(fmt)); };
        constexpr bool w = sizeof(C) != 1;

        arrays<C, 1>(in, f, out);
        {
            mark(w ? "wvec" : "vec");
            std::vector<C> v(in.begin(), in.end());
            v.shrink_to_fit();
            auto r = f(v);
            out.push_back(finish_contiguous<C>(w ? "wvec" : "vec", r, v.data(), v.data() + v.size()));
        }
        {
            mark(w ? "wptrs" : "ptrs");
            const std::vector<C> v(in.begin(), in.end());
            scn::ranges::subrange<const C*> s{v.data(), v.data() + v.size()};
            auto r = f(s);
            out.push_back(finish_contiguous<C>(w ? "wptrs" : "ptrs", r, v.data(), v.data() + v.size()));
        }
        {
            mark(w ? "wpart" : "part");
            const auto big = C('1') + in + C('2');
            scn::ranges::subrange<typename std::basic_string<C>::const_iterator> s{big.begin() + 1, big.end() - 1};
            auto r = f(s);
            out.push_back(finish_contiguous<C>(w ? "wpart" : "part", r, big.data() + 1, big.data() + 1 + in.size()));
        }
        if constexpr (!(std::is_same_v<Ts, std::basic_string_view<C>> || ...)) {
            {
                mark(w ? "wlist" : "list");
                const std::list<C> l(in.begin(), in.end());
                auto r = f(l);
                out.push_back(finish_range<C>(w ? "wlist" : "list", r, l));
            }
            {
                mark(w ? "wflist" : "flist");
                std::forward_list<C> l(in.begin(), in.end());
                auto r = f(l);
                out.push_back(finish_range<C>(w ? "wflist" : "flist", r, l));
            }
            {
                mark(w ? "wrev" : "rev");
                const std::basic_string<C> back(in.rbegin(), in.rend());
                scn::ranges::subrange<typename std::basic_string<C>::const_reverse_iterator> s{back.rbegin(), back.rend()};
                auto r = f(s);
                out.push_back(finish_range<C>(w ? "wrev" : "rev", r, s));
            }
            {
                mark(w ? "wdpart" : "dpart");
                const auto big = C('1') + in + C('2');
                const std::deque<C> d(big.begin(), big.end());
                scn::ranges::subrange<typename std::deque<C>::const_iterator> s{d.begin() + 1, d.end() - 1};
                auto r = f(s);
                out.push_back(finish_range<C>(w ? "wdpart" : "dpart", r, s));
            }
            {
                mark(w ? "wmade" : "made");
                made<C> m{in};
                auto r = f(m);
                out.push_back(finish_range<C>(w ? "wmade" : "made", r, m));
            }
        }
    }
};
}
#define J(name, NARROW, WIDE)                                                        \
    static drv::adder DRV_CAT(adder_, __COUNTER__)(                                  \
        "src/" name, [](const drv::item& it, drv::outcomes& out) {                   \
            if (it.mode != 32) job<DRV_ARGS NARROW>::go<char>(it, out);              \
            if (it.mode != 8) job<DRV_ARGS WIDE>::go<wchar_t>(it, out);              \
        });
#if PART == 1
J("i32", (int), (int))
J("f64", (double), (double))
J("str", (std::string), (std::string))
J("sv", (std::string_view), (std::wstring_view))
J("cp", (char32_t), (char32_t))
#elif PART == 2
J("ch", (char), (wchar_t))
J("wstr", (std::wstring), (std::wstring))
J("str+i32", (std::string, int), (std::string, int))
J("sv+i32", (std::string_view, int), (std::wstring_view, int))
J("i32+i32+i32", (int, int, int), (int, int, int))
J("str+ch+str", (std::string, char, std::string), (std::string, wchar_t, std::string))
#endif
