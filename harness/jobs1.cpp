// Single arguments: numbers
#include "common.h"
#define J(n, T) DRV_JOB(n, (T), (T))
#if PART == 1
J("i8", signed char)
J("i16", short)
J("i32", int)
J("il", long)
J("i64", long long)
J("u8", unsigned char)
J("u16", unsigned short)
#elif PART == 2
J("u32", unsigned)
J("ul", unsigned long)
J("u64", unsigned long long)
J("ptr", void*)
J("bool", bool)
J("f32", float)
J("f64", double)
#elif PART == 3
J("f80", long double)
DRV_JOB("ch", (char), (wchar_t))
J("wc", wchar_t)
J("cp", char32_t)
J("str", std::string)
J("wstr", std::wstring)
DRV_JOB("sv", (std::string_view), (std::wstring_view))
#endif
