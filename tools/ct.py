"""Formats judged by the compiler: generated units, one table each."""
import os, subprocess, concurrent.futures as cf
import vlib

TYPES = {"i8": "signed char", "i16": "short", "i32": "int", "il": "long", "i64": "long long", "u8": "unsigned char",
         "u16": "unsigned short", "u32": "unsigned", "ul": "unsigned long", "u64": "unsigned long long", "f32": "float",
         "f64": "double", "f80": "long double", "bool": "bool", "ptr": "void*", "ch": "C", "wc": "wchar_t", "cp": "char32_t",
         "str": "std::string", "wstr": "std::wstring", "sv": "std::basic_string_view<C>", "rx": "ct::rx<C>",
         "Ttm": "std::tm", "Tdt": "scn::datetime_components", "Cpt": "ct::plain", "Cwrap": "ct::wrap",
         "Cdiscard": "scn::discard<int>", "Rvec": "std::vector<int>", "Rmap": "std::map<int, int>", "Rset": "std::set<int>",
         "Rpair": "std::pair<int, int>", "Rvstr": "std::vector<std::string>", "Rvv": "std::vector<std::vector<int>>"}
NARROW_ONLY = {"Rvec", "Rmap", "Rset", "Rpair", "Rvstr", "Rvv"}
# the sources: contiguous and outliving the scan, or not
SOURCES = {"sv": ("std::basic_string_view<C>", True), "svl": ("std::basic_string_view<C>&", True),
           "str": ("std::basic_string<C>&", True), "cstr": ("const std::basic_string<C>&", True),
           "tmp": ("std::basic_string<C>", False), "deque": ("std::deque<C>&", False), "file": ("std::FILE*&", False)}


def literal(us, w):
    if w == 8:
        return '"' + "".join("\\%03o" % (u & 255) for u in us) + '"'
    return " ".join('L"\\x%x"' % (u & 0xffffffff) for u in us) or 'L""'


def entry(it):
    job, w, fmt, src = it
    ts = [TYPES[t] for t in job.split("+")] if job != "none" else []
    return "ct::ok<C, ct::fs(%s), %s>," % (literal(vlib.units(fmt, w), w), ", ".join([SOURCES[src][0]] + ts))


def unit(k, w, items):
    return '#include "ct.h"\nusing C = %s;\nextern const bool t%d[];\nextern const int n%d = %d;\nconst bool t%d[] = {\n%s\nfalse};\n' % (
        "char" if w == 8 else "wchar_t", k, k, len(items), k, "\n".join(map(entry, items)))


def judge(scratch, items):
    """What the compiler accepts: a list of booleans."""
    per = max(50, (len(items) + 4 * vlib.NPROC - 1) // (4 * vlib.NPROC))
    parts = []
    for w in (8, 32):
        idx = [i for i, it in enumerate(items) if it[1] == w]
        parts += [(w, idx[k:k + per]) for k in range(0, len(idx), per)]
    flags = ["-std=c++20", "-O0", "-DSCN_REGEX_BACKEND=0"] + vlib.COMMON
    srcs = []
    for k, (w, idx) in enumerate(parts):
        p = os.path.join(scratch, "ct%d.cpp" % k)
        with open(p, "w") as f:
            f.write(unit(k, w, [items[i] for i in idx]))
        srcs.append(p)
    p = os.path.join(scratch, "ctmain.cpp")
    with open(p, "w") as f:
        f.write("#include <cstdio>\n" + "".join("extern const bool t%d[];extern const int n%d;\n" % (k, k) for k in range(len(parts)))
                + "int main(){" + "".join("for(int i=0;i<n%d;++i)std::putchar(t%d[i]?'1':'0');\n" % (k, k) for k in range(len(parts))) + "}")
    srcs.append(p)

    def cc(j):
        # by two compilers
        k, s = j
        return subprocess.run([("clang++", "g++")[k % 2]] + flags + ["-c", s, "-o", s[:-4] + ".o"], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        res = list(ex.map(cc, enumerate(srcs)))
    for r in res:
        if r.returncode:
            raise vlib.CheckError("build failed:\n" + r.stderr[:3000])
    exe = os.path.join(scratch, "ct")
    r = subprocess.run(["clang++"] + [s[:-4] + ".o" for s in srcs] + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise vlib.CheckError("build failed:\n" + r.stderr[:3000])
    out = subprocess.run([exe], capture_output=True, text=True).stdout
    if len(out) != len(items):
        raise vlib.CheckError("table of %d for %d formats" % (len(out), len(items)))
    order = [i for _, idx in parts for i in idx]
    ans = [None] * len(items)
    for i, c in zip(order, out):
        ans[i] = c == "1"
    for s in srcs:
        os.unlink(s)
        os.unlink(s[:-4] + ".o")
    return ans
