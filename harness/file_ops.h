// Operations on a stream (spec/File.tla)
#pragma once
#include "common.h"
#include <sstream>

namespace {
inline std::string esc(const std::string& s) { return drv::junits(s.data(), s.size()); }

template <typename... T>
std::string scan(std::FILE* f, const char* fmt)
{
    auto r = scn::scan<T...>(f, scn::runtime_format(std::string_view{fmt}));
    if (!r) return "\"e\":" + std::to_string(drv::code(r.error())) + ",\"v\":[]";
    if (r->file() != f) return "\"e\":97,\"v\":[]";
    return "\"e\":0,\"v\":" + drv::jvals(r->values());
}
inline std::string scan_nth(std::FILE* f, int k)
{
    switch (k) {
        case 1: return scan<int>(f, "{}");
        case 2: return scan<std::string>(f, "{}");
        case 3: return scan<char32_t>(f, "{}");
        case 4: return scan<std::string>(f, "{:[a-z]}");
        case 5: return scan<int, int>(f, "{} {}");
        case 6: return scan<double>(f, "{}");
        case 7: return scan<>(f, " ");
        case 8: return scan<int>(f, "a{}");
        case 9: return scan<std::string>(f, "{:.3c}");
        case 10: return scan<int>(f, "{:*>4}");
        case 11: return scan<std::string, std::string>(f, "{},{}");
        case 12: return scan<int>(f, "{}{");
        case 13: return scan<std::string>(f, "{:[^\n]}\n");
        case 14: return scan<char32_t, int>(f, "{}{}");
    }
    std::_Exit(70);
}

// carries out one operation; what it showed
inline std::string perform(std::FILE* f, const std::string& op)
{
    const int a = std::atoi(op.c_str() + 1);
    switch (op[0]) {
        case 's': return scan_nth(f, a);
        case 'g': {
            const int c = std::fgetc(f);
            return "\"e\":0,\"v\":[" + (c == EOF ? std::string{} : std::to_string(c)) + "]";
        }
        case 'u': return std::string("\"e\":") + (std::ungetc(a, f) == EOF ? "1" : "0") + ",\"v\":[]";
        case 'r': {
            std::string b(static_cast<size_t>(a), ' ');
            b.resize(std::fread(&b[0], 1, b.size(), f));
            return "\"e\":0,\"v\":" + esc(b);
        }
        case 'l': {
            char b[16384];
            const char* r = std::fgets(b, sizeof b, f);
            return "\"e\":0,\"v\":" + esc(r ? r : "");
        }
        default: std::_Exit(70);
    }
}
inline std::string op_json(const std::string& op)
{
    return "{\"o\":\"" + op.substr(0, 1) + "\",\"a\":" + std::to_string(std::atoi(op.c_str() + 1)) + ",";
}
}  // namespace
