// Shared by the drivers that run the real library over a work file and record
// what it did, as one JSON event per work item.
#pragma once

#include <scn/istream.h>
#include <scn/regex.h>
#include <scn/scan.h>
#include <scn/xchar.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace drv {

// One line of the work file: job TAB mode TAB format TAB input TAB extra
// Texts are comma-separated decimal code units. mode: 8, 32, or 0 (ASCII: both)
struct item {
    long idx{};
    std::string job;
    int mode{};
    std::vector<int> fmt, input;
    std::string extra;
};

struct outcome {
    std::string src;
    bool contiguous{};
    int e{};          // 0 ok, 1.. library errors, 90.. see below
    long n{};         // units consumed
    std::string v{};  // JSON array of values, "[]" on error
};
// 95: failed, but the stream was left elsewhere
// 96: a string_view pointing outside the consumed input
// 97: the returned range isn't a suffix of the source
// 98: crash (signal, sanitizer report, assertion), 99: doesn't terminate

using outcomes = std::vector<outcome>;

// shared with the parent: what was running when a child died
struct progress {
    long idx;
    char src[32];
    char rest[64];
};
extern progress* g_progress;
extern thread_local bool g_quiet;  // on a thread of its own
inline void mark(const char* src)
{
    if (g_quiet) return;
    std::strncpy(g_progress->src, src, sizeof g_progress->src - 1);
}

inline int code(scn::scan_error err)
{
    switch (err.code()) {
        case scn::scan_error::end_of_input: return 1;
        case scn::scan_error::invalid_format_string: return 2;
        case scn::scan_error::invalid_scanned_value: return 3;
        case scn::scan_error::invalid_literal: return 4;
        case scn::scan_error::invalid_fill: return 5;
        case scn::scan_error::length_too_short: return 6;
        case scn::scan_error::invalid_source_state: return 7;
        case scn::scan_error::value_positive_overflow: return 8;
        case scn::scan_error::value_negative_overflow: return 9;
        case scn::scan_error::value_positive_underflow: return 10;
        case scn::scan_error::value_negative_underflow: return 11;
        default: return 50;
    }
}

// ---- values ---------------------------------------------------------------
inline void limbs(std::string& o, unsigned __int128 v)
{
    while (v) {
        o += ',';
        o += std::to_string(static_cast<int>(v % 10000));
        v /= 10000;
    }
}
inline std::string jint(bool neg, unsigned long long mag)
{
    std::string o = neg && mag ? "[1" : "[0";
    limbs(o, mag);
    return o + "]";
}
template <typename C>
std::string junits(const C* p, size_t n)
{
    std::string o = "[";
    for (size_t i = 0; i < n; ++i) {
        if (i) o += ',';
        if constexpr (sizeof(C) == 1)
            o += std::to_string(static_cast<int>(static_cast<unsigned char>(p[i])));
        else
            o += std::to_string(static_cast<long>(p[i]));
    }
    return o + "]";
}
template <typename T>
std::string jfloat(T x)
{
    const bool neg = std::signbit(x);
    std::string s = neg ? "1" : "0";
    if (std::isnan(x)) return "[3," + s + ",0,0]";
    if (std::isinf(x)) return "[2," + s + ",0,0]";
    if (x == 0) return "[0," + s + ",0,0]";
    constexpr int P = std::numeric_limits<T>::digits;
    constexpr int minE = std::numeric_limits<T>::min_exponent - P;
    int e{};
    T m = std::frexp(std::fabs(x), &e);  // m in [0.5, 1)
    e -= P;
    m = std::ldexp(m, P);
    auto c = static_cast<unsigned long long>(m);
    while (e < minE) {
        c >>= 1;
        ++e;
    }
    std::string o = "[1," + s + (e < 0 ? ",1," : ",0,") + std::to_string(e < 0 ? -e : e);
    limbs(o, c);
    return o + "]";
}

template <typename T>
struct is_tagged : std::false_type {};

template <typename T>
std::string jval(const T& v)
{
    if constexpr (std::is_same_v<T, bool>)
        return v ? "[1]" : "[0]";
    else if constexpr (std::is_same_v<T, char>)
        return "[" + std::to_string(static_cast<int>(static_cast<unsigned char>(v))) + "]";
    else if constexpr (std::is_same_v<T, wchar_t>)
        return "[" + std::to_string(static_cast<int>(v)) + "]";
    else if constexpr (std::is_same_v<T, char32_t>)
        return "[" + std::to_string(static_cast<long>(v)) + "]";
    else if constexpr (std::is_floating_point_v<T>)
        return jfloat(v);
    else if constexpr (std::is_integral_v<T>) {
        if constexpr (std::is_signed_v<T>)
            return jint(v < 0, v < 0 ? 0ull - static_cast<unsigned long long>(v)
                                     : static_cast<unsigned long long>(v));
        else
            return jint(false, v);
    }
    else if constexpr (std::is_pointer_v<T>)
        return jint(false, reinterpret_cast<uintptr_t>(v));
    else if constexpr (is_tagged<T>::value)
        return v.json();
    else
        return junits(v.data(), v.size());
}

// Every string_view among the values has to lie inside the consumed input
template <typename C, typename T>
bool view_ok(const T& v, const C* b, const C* e)
{
    if constexpr (std::is_same_v<T, std::basic_string_view<C>>) {
        return v.data() >= b && v.data() + v.size() <= e;
    }
    else {
        (void)v; (void)b; (void)e;
        return true;
    }
}

template <typename Tuple>
std::string jvals(const Tuple& t)
{
    std::string o = "[";
    bool first = true;
    std::apply(
        [&](const auto&... v) {
            ((o += (first ? "" : ","), first = false, o += jval(v)), ...);
        },
        t);
    return o + "]";
}

template <typename C>
std::basic_string<C> text(const std::vector<int>& u)
{
    std::basic_string<C> s;
    for (int x : u) s.push_back(static_cast<C>(x));
    return s;
}

// ---- sources --------------------------------------------------------------
// Each takes a callback `scan(source)` performing the scan on that source.

template <typename I, typename S>
long how_many(I b, S e, long limit)
{
    long n = 0;
    for (; n < limit && b != e; ++b) ++n;
    return n;
}

template <typename C, typename R>
outcome finish_contiguous(const char* name, R& r, const C* b, const C* e)
{
    outcome o;
    o.src = name;
    o.contiguous = true;
    o.v = "[]";
    if (!r) {
        o.e = code(r.error());
        return o;
    }
    const auto left = how_many(r->range().begin(), r->range().end(), (e - b) + 1);
    o.n = static_cast<long>(e - b) - left;
    if (o.n < 0 || (left > 0 && &*r->range().begin() != b + o.n)) {
        o.e = 97;
        return o;
    }
    const C* rb = b + o.n;
    bool ok = true;
    std::apply([&](const auto&... v) { ((ok = ok && view_ok<C>(v, b, rb)), ...); },
               r->values());
    if (!ok) {
        o.e = 96;
        return o;
    }
    o.v = jvals(r->values());
    return o;
}

template <typename C, typename R, typename Src>
outcome finish_range(const char* name, R& r, Src& src)
{
    outcome o;
    o.src = name;
    o.contiguous = false;
    o.v = "[]";
    if (!r) {
        o.e = code(r.error());
        return o;
    }
    // the remainder must be the very end of the source
    const long total = how_many(src.begin(), src.end(), 1000000000);
    const long left = how_many(r->range().begin(), r->range().end(), total + 1);
    o.n = total - left;
    auto jt = src.begin();
    for (long k = 0; k < o.n && jt != src.end(); ++k) ++jt;
    if (o.n < 0 || !(jt == r->range().begin())) {
        o.e = 97;
        return o;
    }
    o.v = jvals(r->values());
    return o;
}

// a forward range of its own, with a sentinel type differing from the iterator
template <typename C>
struct seq {
    struct sentinel {};
    struct iterator {
        using value_type = C;
        using reference = const C&;
        using pointer = const C*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const seq* s{};
        size_t i{};
        const C& operator*() const
        {
            if (i >= s->d.size()) std::abort();  // read past the end
            return s->d[i];
        }
        iterator& operator++()
        {
            if (i >= s->d.size()) std::abort();
            ++i;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++*this;
            return c;
        }
        friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
        friend bool operator==(const iterator& a, sentinel) { return a.i == a.s->d.size(); }
        friend bool operator!=(const iterator& a, sentinel b) { return !(a == b); }
        friend bool operator==(sentinel b, const iterator& a) { return a == b; }
        friend bool operator!=(sentinel b, const iterator& a) { return !(a == b); }
    };
    std::basic_string<C> d;
    iterator begin() const { return {this, 0}; }
    sentinel end() const { return {}; }
};

// FILE sources -----------------------------------------------------------------
std::FILE* open_mem(const std::string& data, int bufsz);  // bufsz 0: unbuffered, <0 default
std::FILE* open_disk(const std::string& data, int bufsz);
std::FILE* open_pipe(const std::string& data, int bufsz);
std::string drain(std::FILE* f);

template <typename R>
outcome finish_file(const char* name, R& r, std::FILE* f, const std::string& data)
{
    outcome o;
    o.src = name;
    o.contiguous = false;
    o.v = "[]";
    const auto rest = drain(f);
    const bool suffix = rest.size() <= data.size() &&
                        data.compare(data.size() - rest.size(), rest.size(), rest) == 0;
    if (!r) {
        o.e = code(r.error());
        if (rest != data) o.e = 95;
        return o;
    }
    o.n = static_cast<long>(data.size() - rest.size());
    if (!suffix) {
        o.e = 97;
        return o;
    }
    o.v = jvals(r->values());
    return o;
}

template <typename C>
struct exact {  // heap block of exactly the right size: overreads are caught
    C* p;
    size_t n;
    explicit exact(const std::basic_string<C>& s) : p(new C[s.size()]), n(s.size())
    {
        std::copy(s.begin(), s.end(), p);
    }
    ~exact() { delete[] p; }
    std::basic_string_view<C> view() const { return {p, n}; }
};

// Run `scan` over every kind of source holding `in`
template <typename C, typename F>
void contiguous_sources(const std::basic_string<C>& in, F scan, outcomes& out)
{
    constexpr bool wide = sizeof(C) != 1;
    {
        mark(wide ? "wsv" : "sv");
        exact<C> x(in);
        auto sv = x.view();
        auto r = scan(sv);
        out.push_back(finish_contiguous<C>(wide ? "wsv" : "sv", r, x.p, x.p + x.n));
    }
    {
        // followed by more text that isn't part of the source
        mark(wide ? "wmid" : "mid");
        auto big = in + std::basic_string<C>(24, C('7'));
        auto sv = std::basic_string_view<C>(big).substr(0, in.size());
        auto r = scan(sv);
        out.push_back(finish_contiguous<C>(wide ? "wmid" : "mid", r, big.data(), big.data() + in.size()));
    }
    {
        mark(wide ? "wstr" : "str");
        auto s = in;
        auto r = scan(s);
        out.push_back(finish_contiguous<C>(wide ? "wstr" : "str", r, s.data(), s.data() + s.size()));
    }
}

template <typename C, typename F>
void range_sources(const std::basic_string<C>& in, F scan, outcomes& out)
{
    constexpr bool wide = sizeof(C) != 1;
    {
        mark(wide ? "wdeque" : "deque");
        std::deque<C> d(in.begin(), in.end());
        auto r = scan(d);
        out.push_back(finish_range<C>(wide ? "wdeque" : "deque", r, d));
    }
    {
        mark(wide ? "wseq" : "seq");
        seq<C> d{in};
        auto r = scan(d);
        out.push_back(finish_range<C>(wide ? "wseq" : "seq", r, d));
    }
}

template <typename F>
void file_sources(const std::string& in, long idx, F scan, outcomes& out, bool all)
{
    static const int sizes[] = {1, 2, 3, 5, 8, 13};
    auto one = [&](const char* name, std::FILE* f) {
        mark(name);
        auto r = scan(f);
        out.push_back(finish_file(name, r, f, in));
        std::fclose(f);
    };
    if (in.find('\0') != std::string::npos) return;
    const int a = sizes[idx % 6], b = sizes[(idx / 6 + 1 + idx) % 6];
    one(("f" + std::to_string(a)).c_str(), open_mem(in, a));
    if (b != a) one(("f" + std::to_string(b)).c_str(), open_mem(in, b));
    if (all || idx % 3 == 0) one("fdef", open_mem(in, -1));
    if (all || idx % 3 == 1) one("fnone", open_disk(in, 0));
    if (all || idx % 5 == 2) one("fpipe", open_pipe(in, idx % 2 ? 4 : -1));
}

// ---- registry --------------------------------------------------------------
using runner = std::function<void(const item&, outcomes&)>;
std::map<std::string, runner>& registry();

// The usual job: scan these types with a run-time format from every source
template <typename... Ts>
struct scan_job {
    template <typename C>
    static void go(const item& it, outcomes& out)
    {
        const auto in = text<C>(it.input);
        const auto fmt = text<C>(it.fmt);
        auto f = [&](auto& src) {
            return scn::scan<Ts...>(src, scn::runtime_format(fmt));
        };
        contiguous_sources<C>(in, f, out);
        if constexpr (!(std::is_same_v<Ts, std::basic_string_view<C>> || ...)) {
            range_sources<C>(in, f, out);
            if constexpr (sizeof(C) == 1) {
                file_sources(in, it.idx, f, out, it.extra == "files");
            }
        }
    }
};
template <template <typename> class Ts>
struct both;

struct adder {
    adder(const char* name, runner r) { registry()[name] = std::move(r); }
};

}  // namespace drv

#define DRV_CAT2(a, b) a##b
#define DRV_CAT(a, b) DRV_CAT2(a, b)
// narrow-only and wide-only argument lists
#define DRV_JOB(name, NARROW, WIDE)                                           \
    static drv::adder DRV_CAT(adder_, __COUNTER__)(                           \
        name, [](const drv::item& it, drv::outcomes& out) {                   \
            if (it.mode != 32) drv::scan_job<DRV_ARGS NARROW>::go<char>(it, out); \
            if (it.mode != 8) drv::scan_job<DRV_ARGS WIDE>::go<wchar_t>(it, out); \
        });
#define DRV_ARGS(...) __VA_ARGS__
