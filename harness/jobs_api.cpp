// The other entry points: scan_value, scan with initial values, with a locale, vscan,
// input and prompt, scan_int, scan_int_exhaustive_valid
#include "common.h"
#include <fcntl.h>
#include <locale>

namespace {
using namespace drv;

// something else than a default-constructed value
template <typename T>
T junk()
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::string(40, 'j');
    else if constexpr (std::is_same_v<T, std::wstring>)
        return std::wstring(40, L'j');
    else if constexpr (std::is_same_v<T, std::string_view>)
        return "junk";
    else if constexpr (std::is_same_v<T, std::wstring_view>)
        return L"junk";
    else if constexpr (std::is_pointer_v<T>)
        return reinterpret_cast<T>(77);
    else
        return static_cast<T>(77);
}

template <typename C, typename F, typename... Ts>
void everywhere(const item& it, outcomes& out, F f)
{
    const auto in = text<C>(it.input);
    contiguous_sources<C>(in, f, out);
    if constexpr (!(std::is_same_v<Ts, std::basic_string_view<C>> || ...)) {
        range_sources<C>(in, f, out);
        if constexpr (sizeof(C) == 1) file_sources(in, it.idx, f, out, false);
    }
}

template <typename C, typename T>
void val(const item& it, outcomes& out)
{
    auto f = [](auto& src) { return scn::scan_value<T>(src); };
    everywhere<C, decltype(f), T>(it, out, f);
    auto g = [](auto& src) { return scn::scan_value<T>(src, junk<T>()); };
    everywhere<C, decltype(g), T>(it, out, g);
}
template <typename C, typename... Ts>
void init(const item& it, outcomes& out)
{
    const auto fmt = text<C>(it.fmt);
    auto f = [&](auto& src) {
        return scn::scan<Ts...>(src, scn::runtime_format(fmt), std::tuple<Ts...>{junk<Ts>()...});
    };
    everywhere<C, decltype(f), Ts...>(it, out, f);
}
template <typename C, typename... Ts>
void loc(const item& it, outcomes& out)
{
    const auto fmt = text<C>(it.fmt);
    auto f = [&](auto& src) {
        return scn::scan<Ts...>(std::locale::classic(), src, scn::runtime_format(fmt));
    };
    everywhere<C, decltype(f), Ts...>(it, out, f);
    auto g = [&](auto& src) {
        return scn::scan<Ts...>(std::locale::classic(), src, scn::runtime_format(fmt),
                                std::tuple<Ts...>{junk<Ts>()...});
    };
    everywhere<C, decltype(g), Ts...>(it, out, g);
}

struct swap_fd {
    int fd, saved;
    swap_fd(int fd, int with) : fd(fd), saved(dup(fd)) { dup2(with, fd); }
    ~swap_fd() { dup2(saved, fd), close(saved); }
};

template <typename... Ts>
void inp(const item& it, outcomes& out, bool prompt)
{
    const auto in = text<char>(it.input);
    const auto fmt = text<char>(it.fmt);
    const char* name = prompt ? "prompt" : "input";
    mark(name);
    std::FILE* f = open_disk(in, -1);
    int op[2];
    if (pipe(op)) std::_Exit(70);
    outcome o;
    {
        swap_fd sin(0, fileno(f));
        std::fflush(stdout);
        swap_fd sout(1, op[1]);
        std::FILE* old = stdin;
        stdin = f;  // glibc: an ordinary variable
        auto r = prompt ? scn::prompt<Ts...>("say {} %d: ", scn::runtime_format(fmt))
                        : scn::input<Ts...>(scn::runtime_format(fmt));
        if (r && r->file() != f)
            o.e = 97, o.src = name;
        else
            o = finish_file(name, r, f, in);
        stdin = old;
        std::fflush(stdout);
    }
    close(op[1]);
    char b[64];
    const auto n = read(op[0], b, sizeof b);
    close(op[0]);
    if (std::string(b, static_cast<size_t>(n > 0 ? n : 0)) != (prompt ? "say {} %d: " : "")) o.e = 94;
    out.push_back(o);
    std::fclose(f);
}

template <typename T>
void sint(const item& it, outcomes& out)
{
    const auto in = text<char>(it.input);
    const int base = std::atoi(it.extra.c_str() + 1);
    {
        mark("sint");
        exact<char> x(in);
        auto r = scn::scan_int<T>(x.view(), base);
        out.push_back(finish_contiguous<char>("sint", r, x.p, x.p + x.n));
    }
    {
        mark("sintmid");
        auto big = in + std::string(24, '7');
        auto r = scn::scan_int<T>(std::string_view{big}.substr(0, in.size()), base);
        out.push_back(finish_contiguous<char>("sintmid", r, big.data(), big.data() + in.size()));
    }
    if (base == 10) {
        mark("sintdef");
        auto r = scn::scan_int<T>(in);
        out.push_back(finish_contiguous<char>("sintdef", r, in.data(), in.data() + in.size()));
    }
}
template <typename T>
void xval(const item& it, outcomes& out)
{
    mark("xval");
    const auto in = text<char>(it.input);
    exact<char> x(in);
    outcome o;
    o.src = "xval";
    o.contiguous = true;
    o.n = static_cast<long>(in.size());
    o.v = "[" + jval(scn::scan_int_exhaustive_valid<T>(x.view())) + "]";
    out.push_back(o);
}

template <typename... Ts>
void add_scans(const std::string& name)
{
    registry()["init/" + name] = [](const item& it, outcomes& out) {
        if (it.mode != 32) init<char, Ts...>(it, out);
        if (it.mode != 8) init<wchar_t, Ts...>(it, out);
    };
    registry()["loc/" + name] = [](const item& it, outcomes& out) {
        if (it.mode != 32) loc<char, Ts...>(it, out);
        if (it.mode != 8) loc<wchar_t, Ts...>(it, out);
    };
    registry()["inp/" + name] = [](const item& it, outcomes& out) {
        inp<Ts...>(it, out, false);
        inp<Ts...>(it, out, true);
    };
}
template <typename T>
void add_val(const std::string& name)
{
    registry()["val/" + name] = [](const item& it, outcomes& out) {
        if (it.mode != 32) val<char, T>(it, out);
        if (it.mode != 8) val<wchar_t, T>(it, out);
    };
}
template <typename T>
void add_int(const std::string& name)
{
    registry()["sint/" + name] = sint<T>;
    registry()["xval/" + name] = xval<T>;
}
struct init_all {
    init_all()
    {
#if PART == 1
        add_val<int>("i32"), add_val<unsigned char>("u8"), add_val<long long>("i64");
        add_val<double>("f64"), add_val<bool>("bool"), add_val<void*>("ptr");
#elif PART == 2
        add_val<std::string>("str"), add_val<std::wstring>("wstr"), add_val<char32_t>("cp");
        add_val<float>("f32"), add_val<unsigned long>("ul"), add_val<short>("i16");
        registry()["val/sv"] = [](const item& it, outcomes& out) {
            if (it.mode != 32) val<char, std::string_view>(it, out);
            if (it.mode != 8) val<wchar_t, std::wstring_view>(it, out);
        };
#elif PART == 3
        add_scans<int>("i32");
        add_scans<std::string>("str");
#elif PART == 4
        add_scans<int, std::string>("i32+str");
        add_scans<bool, double, std::string>("bool+f64+str");
#elif PART == 5
        add_scans<>("none");
        add_scans<std::string, char32_t, int>("str+cp+i32");
        add_int<signed char>("i8"), add_int<short>("i16"), add_int<int>("i32"), add_int<long>("il");
        add_int<long long>("i64"), add_int<unsigned char>("u8"), add_int<unsigned short>("u16");
        add_int<unsigned>("u32"), add_int<unsigned long>("ul"), add_int<unsigned long long>("u64");
#endif
    }
} init_all_;
}
