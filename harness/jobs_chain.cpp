// Scanning on from where the last scan stopped
#include "common.h"

namespace {
using namespace drv;

template <typename C>
std::vector<std::basic_string<C>> pieces(const item& it)
{
    std::vector<std::basic_string<C>> v(1);
    for (int u : it.fmt)
        if (u == 1)
            v.emplace_back();
        else
            v.back().push_back(static_cast<C>(u));
    return v;
}

struct log {
    std::string o = "[";
    void add(const std::string& s) { o += std::string(o.size() > 1 ? "," : "") + "{" + s + "}"; }
};

template <typename R>
long left_of(const R& r)
{
    return how_many(r.begin(), r.end(), 1000000000);
}

// one scan per type, each from the remainder of the one before
template <typename C, typename... Ts>
struct steps {
    template <typename Src>
    static void go(Src&&, const std::vector<std::basic_string<C>>&, size_t, long, log&)
    {
    }
};
template <typename C, typename T, typename... Ts>
struct steps<C, T, Ts...> {
    template <typename Src>
    static void go(Src&& src, const std::vector<std::basic_string<C>>& f, size_t k, long total, log& l)
    {
        if (k >= f.size()) return;
        auto r = scn::scan<T>(src, scn::runtime_format(f[k]));
        std::string s = "\"k\":" + std::to_string(k + 1) + ",";
        if (!r) {
            l.add(s + "\"e\":" + std::to_string(code(r.error())) + ",\"n\":0,\"v\":[]");
            return;
        }
        l.add(s + "\"e\":0,\"n\":" + std::to_string(total - left_of(r->range())) + ",\"v\":" + jvals(r->values()));
        steps<C, Ts...>::go(r->range(), f, k + 1, total, l);
    }
    static void file(std::FILE* src, const std::vector<std::basic_string<C>>& f, size_t k, log& l)
    {
        if (k >= f.size()) return;
        auto r = scn::scan<T>(src, scn::runtime_format(f[k]));
        std::string s = "\"k\":" + std::to_string(k + 1) + ",";
        if (!r) {
            l.add(s + "\"e\":" + std::to_string(code(r.error())) + ",\"n\":0,\"v\":[]");
            return;
        }
        l.add(s + "\"e\":0,\"n\":-1,\"v\":" + jvals(r->values()));
        if constexpr (sizeof...(Ts) != 0) steps<C, Ts...>::file(r->file(), f, k + 1, l);
    }
};

template <typename C, typename... Ts>
void chain(const item& it, outcomes& out)
{
    const auto in = text<C>(it.input);
    const auto f = pieces<C>(it);
    auto done = [&](const char* name, bool contiguous, log& l) {
        outcome o;
        o.src = name;
        o.contiguous = contiguous;
        o.v = l.o + "]";
        out.push_back(o);
    };
    const long n = static_cast<long>(in.size());
    {
        mark("str");
        log l;
        steps<C, Ts...>::go(in, f, 0, n, l);
        done("str", true, l);
    }
    {
        mark("sv");
        exact<C> x(in);
        log l;
        steps<C, Ts...>::go(x.view(), f, 0, n, l);
        done("sv", true, l);
    }
    {
        mark("deque");
        std::deque<C> d(in.begin(), in.end());
        log l;
        steps<C, Ts...>::go(d, f, 0, n, l);
        done("deque", false, l);
    }
    {
        mark("list");
        std::list<C> d(in.begin(), in.end());
        log l;
        steps<C, Ts...>::go(d, f, 0, n, l);
        done("list", false, l);
    }
    if constexpr (sizeof(C) == 1) {
        for (int b : {-1, 1, 3}) {
            mark("file");
            std::FILE* s = open_disk(in, b);
            log l;
            steps<C, Ts...>::file(s, f, 0, l);
            const auto rest = drain(s);
            l.add("\"k\":0,\"e\":0,\"n\":0,\"v\":" + junits(rest.data(), rest.size()));
            done("file", false, l);
            std::fclose(s);
        }
    }
    // the same formats joined into one: recorded as a step of its own
    {
        mark("joined");
        std::basic_string<C> fmt;
        for (auto& x : f) fmt += x;
        auto r = scn::scan<Ts...>(in, scn::runtime_format(fmt));
        log l;
        if (!r)
            l.add("\"k\":-1,\"e\":" + std::to_string(code(r.error())) + ",\"n\":0,\"v\":[]");
        else
            l.add("\"k\":-1,\"e\":0,\"n\":" + std::to_string(n - left_of(r->range())) + ",\"v\":" + jvals(r->values()));
        done("joined", true, l);
    }
}
template <typename... Ts>
void add(const std::string& name)
{
    registry()["chain/" + name] = [](const item& it, outcomes& out) {
        if (it.mode != 32) chain<char, Ts...>(it, out);
        if (it.mode != 8) chain<wchar_t, Ts...>(it, out);
    };
}
struct init {
    init()
    {
#if PART == 1
        add<int, std::string>("i32+str");
        add<std::string, int>("str+i32");
#elif PART == 2
        add<int, int, int>("i32+i32+i32");
        add<std::string, char32_t, int>("str+cp+i32");
#else
        add<bool, double, std::string>("bool+f64+str");
        add<char32_t, std::string>("cp+str");
        add<std::wstring, int>("wstr+i32");
#endif
    }
} init_;
}
