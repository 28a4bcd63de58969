// Several arguments (generated from tools/gen.py's TUPLES)
#include "common.h"
#if PART == 1
DRV_JOB("none", (), ())
DRV_JOB("f64+f64", (double, double), (double, double))
DRV_JOB("cp+str", (char32_t, std::string), (char32_t, std::string))
DRV_JOB("str+cp+i32", (std::string, char32_t, int), (std::string, char32_t, int))
DRV_JOB("wstr+i32", (std::wstring, int), (std::wstring, int))
DRV_JOB("u32+u64", (unsigned, unsigned long long), (unsigned, unsigned long long))
DRV_JOB("f80+i32", (long double, int), (long double, int))
#elif PART == 2
DRV_JOB("i32+str", (int, std::string), (int, std::string))
DRV_JOB("str+str", (std::string, std::string), (std::string, std::string))
DRV_JOB("i32+i32+i32", (int, int, int), (int, int, int))
DRV_JOB("ptr+bool", (void*, bool), (void*, bool))
DRV_JOB("i32+ch", (int, char), (int, wchar_t))
DRV_JOB("f32+i32", (float, int), (float, int))
DRV_JOB("wc+str", (wchar_t, std::string), (wchar_t, std::string))
#elif PART == 3
DRV_JOB("str+i32", (std::string, int), (std::string, int))
DRV_JOB("sv+i32", (std::string_view, int), (std::wstring_view, int))
DRV_JOB("bool+f64+str", (bool, double, std::string), (bool, double, std::string))
DRV_JOB("i8+u16", (signed char, unsigned short), (signed char, unsigned short))
DRV_JOB("str+ch+str", (std::string, char, std::string), (std::string, wchar_t, std::string))
DRV_JOB("cp+cp+cp", (char32_t, char32_t, char32_t), (char32_t, char32_t, char32_t))
#elif PART == 4
DRV_JOB("i32+i32", (int, int), (int, int))
DRV_JOB("ch+i32", (char, int), (wchar_t, int))
DRV_JOB("u8+i64+f32", (unsigned char, long long, float), (unsigned char, long long, float))
DRV_JOB("i32+f64+str+bool", (int, double, std::string, bool), (int, double, std::string, bool))
DRV_JOB("il+ul+i16", (long, unsigned long, short), (long, unsigned long, short))
DRV_JOB("sv+sv", (std::string_view, std::string_view), (std::wstring_view, std::wstring_view))
#endif
