"""Seeded generators of work items.  Each yields (job, mode, fmt, input, extra)."""
import random, re
from fractions import Fraction

INTS = ["i8", "i16", "i32", "il", "i64", "u8", "u16", "u32", "ul", "u64"]
BITS = {"i8": 7, "i16": 15, "i32": 31, "il": 63, "i64": 63,
        "u8": 8, "u16": 16, "u32": 32, "ul": 64, "u64": 64, "ptr": 64}
FLOATS = ["f32", "f64", "f80"]
WS_ASCII = [" ", "\t", "\n", "\v", "\f", "\r"]
WS_UNI = ["\u0085", "\u200e", "\u200f", "\u2028", "\u2029"]
# 1..4 UTF-8 bytes; narrow and wide columns; neighbours of whitespace; surrogate borders
UNI = ["\u00e4", "\u00df", "\u0431", "\u20ac", "\u3042", "\u4e2d", "\uff21", "\U0001f600",
       "\U0001f923", "\U00010348", "\ud7ff", "\ue000", "\u0084", "\u0086", "\u200d", "\u2010",
       "\u2027", "\u202a", "\ufffd", "\u00a0", "\U0010ffff", "\u3000", "\u303f", "\u1100", "\uac00",
       "\u07ff", "\u0800", "\uffff", "\U00010000", "\u0080", "\u0131", "\u0660", "\uff10", "\u2212"]


def ascii_only(*texts):
    for t in texts:
        if isinstance(t, str):
            if not t.isascii():
                return False
        elif any(u > 127 for u in t):
            return False
    return True


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def c(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def item(self, job, fmt, inp, extra=""):
        """One item; ASCII texts run on narrow and wide sources at once."""
        if "ch" in job.split("+") and isinstance(inp, str) and re.search(r"[<>^.0-9]", fmt):
            # a char is one unit: the width of a part of a character isn't specified
            inp = "".join(c if c.isascii() else "~" for c in inp)
        if ascii_only(fmt, inp):
            return (job, 8 if "ch" in job.split("+") else 0, fmt, inp, extra)
        m = 8 if "ch" in job.split("+") or self.p(.6) else 32
        return (job, m, fmt, inp, extra)

    # ---------------------------------------------------------- small pieces
    def ws(self, lo=0, hi=3, uni=.15):
        n = self.r.randint(lo, hi)
        return "".join(self.c(WS_UNI) if self.p(uni) else self.c(WS_ASCII) for _ in range(n))

    def tail(self):
        return self.c(["", "", "", " ", "x", ".", ",", "-", "+", "9", "a", "g", "z", "_", "\n", "\u00e4",
                       " 1", "e5", "p3", "\u2028", "]", "}", "*", "0", "\u3042", "G", "8", "2", "/", ":", "@", "`", "{"])

    def digits(self, base, n):
        d = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
        s = "".join(self.c(d) for _ in range(n))
        return s.upper() if self.p(.3) else s

    @staticmethod
    def tobase(v, b):
        if v == 0:
            return "0"
        s = ""
        while v:
            s = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + s
            v //= b
        return s

    # ------------------------------------------------------------- integers
    def int_near(self, t):
        b = BITS[t]
        k = self.r.random()
        if k < .45:
            v = (1 << b) + self.r.randint(-3, 3)
        elif k < .6:
            v = (1 << self.r.randint(0, b + 2)) + self.r.randint(-2, 2)
        elif k < .7:
            v = self.r.randint(0, 300)
        elif k < .8:
            v = ((1 << b) - 1) * self.c([1, 2, 10, 16]) + self.r.randint(-12, 12)
        elif k < .9:
            v = 10 ** self.r.randint(0, 21) + self.r.randint(-1, 1)
        elif k < .95:
            v = self.r.getrandbits(self.r.randint(1, b + 8))
        else:   # wrapping around once or more often
            v = self.r.randint(1, 9) * (1 << self.c([b, b + 1, 64])) + self.c([0, 1, -1, self.r.getrandbits(b), -self.r.getrandbits(5)])
        return max(0, v)

    def int_text(self, t, base=None):
        k = self.r.random()
        sign = self.c(["", "", "", "-", "-", "+"])
        if k < .62:
            b = base or self.c([10, 10, 10, 2, 8, 16])
            pre = {2: "0b", 8: "0o", 16: "0x"}.get(b, "")
            if self.p(.45):
                pre = ""
            elif self.p(.2):
                pre = pre.upper()
            if b == 8 and pre and self.p(.4):
                pre = "0"
            s = self.tobase(self.int_near(t), b)
            if self.p(.3):
                s = s.upper()
            if self.p(.2):
                s = "0" * self.r.randint(1, 30) + s
            return sign + pre + s
        if k < .8:
            return "".join(self.c("0123789abfFxXoObB+- _.,") for _ in range(self.r.randint(0, 6)))
        if k < .9:
            return sign + self.c(["0", "0x", "0X", "0b", "0o", "00", "0x0", "0xg", "0b2", "0o8", "08", "09",
                                  "0x-1", "--1", "+-1", "0b0b1", "0x0x1", "x1", "b1", "1x", "", "0_1", "01"])
        s = self.digits(self.c([2, 8, 10, 16, 36]), self.r.randint(1, 45))
        if self.p(.3):
            j = self.r.randint(0, len(s))
            s = s[:j] + chr(self.r.randint(1, 126)) + s[j:]
        return sign + s

    def ints(self, n):
        for _ in range(n):
            t = self.c(INTS)
            ty = self.c(["", "", "d", "i", "i", "u", "b", "B", "o", "x", "X"])
            base = {"b": 2, "B": 2, "o": 8, "x": 16, "X": 16}.get(ty) if self.p(.7) else None
            k = self.r.random()
            spec = ty
            if k < .12:
                spec = str(self.r.randint(1, 8)) + ty
            elif k < .24:
                spec = "." + str(self.r.randint(1, 8)) + ty
            f = "{:%s}" % spec if spec else "{}"
            yield self.item(t, f, self.ws(0, 2) * self.p(.35) + self.int_text(t, base) + self.tail())

    def digit_runs(self, n):
        """long runs of digits with one foreign character somewhere"""
        for L in range(1, 20):
            for k in range(L):
                for x in "/:":
                    s = "".join(self.c("01") for _ in range(L)) if self.p(.8) else self.digits(10, L)
                    yield self.item(self.c(["i64", "u64", "i64", "i32"]), "{}", s[:k] + x + s[k + 1:] + self.c(["", " ", "1"]))
        for _ in range(n):
            t = self.c(INTS)
            ty, b = self.c([("", 10), ("", 10), ("d", 10), ("u", 10), ("b", 2), ("o", 8), ("x", 16), ("X", 16), ("i", 10)])
            s = self.digits(b, self.r.randint(1, 24))
            if self.p(.6):
                s = "0" * self.r.randint(1, 16) + s[-self.r.randint(1, 9):]
            k = self.r.randint(0, len(s))
            x = self.c([self.c("/:@G`g;.,'_+- \t\x7f\x10\x19\x01"), chr(self.r.randint(1, 126)), self.c("\u00b2\u0660\uff11\u0131\U0001d7ce")])
            s = s[:k] + x + s[k + self.r.randint(0, 1):]
            yield self.item(t, "{:%s}" % ty if ty else "{}", self.c(["", "", "", "-", "+", "0x", "0", " "]) + s + self.tail())

    def ints_exhaustive(self, maxlen, types, specs, alphabet="01 -+xb9a8o7"):
        import itertools
        for L in range(0, maxlen + 1):
            for tup in itertools.product(alphabet, repeat=L):
                s = "".join(tup)
                for t in types:
                    for sp in specs:
                        yield self.item(t, "{:%s}" % sp if sp else "{}", s)

    # --------------------------------------------------------------- floats
    @staticmethod
    def dec(fr, extra=0):
        """Exact decimal expansion of a dyadic fraction, plus `extra` units in a further place."""
        num, den = fr.numerator, fr.denominator
        k = 0
        while den % 2 == 0:
            den //= 2
            num *= 5
            k += 1
        assert den == 1
        return num, -k

    FP = {"f32": (24, -149, 104), "f64": (53, -1074, 971), "f80": (64, -16445, 16320)}

    def float_halfway(self, t):
        """Decimal text at, just above or just below a rounding boundary."""
        P, emin, emax = self.FP[t]
        if t == "f80":
            e = self.r.randint(-150, 40)
        else:
            e = self.c([emin, emin, emin + 1, emax, emax, self.r.randint(emin, emax), self.r.randint(-80, 40),
                        self.r.randint(-80, 40)])
        m = self.c([self.r.getrandbits(P - 1) | (1 << (P - 1)), (1 << P) - 1, 1 << (P - 1), (1 << (P - 1)) + 1])
        if e == emin and self.p(.6):
            m = self.c([0, 1, 2, 3, self.r.getrandbits(self.r.randint(1, P - 1))])
        q = self.c([0, 0, 2, -1])   # quarter ulps
        fr = Fraction(4 * m + (q if m or q >= 0 else 2), 4) * (Fraction(2) ** e)
        if fr < 0:
            fr = -fr
        num, x = self.dec(fr)
        tweak = self.c([0, 0, 1, -1])
        if tweak:
            num = num * 10 + tweak
            x -= 1
        if num <= 0:
            num, x = 1, -400
        return self.spell(str(num), x)

    def spell(self, ds, x):
        """digits * 10^x in one of several notations"""
        k = self.r.random()
        if k < .35 and -60 < x <= 0:
            ds = ds.rjust(-x + 1, "0")
            return ds[:len(ds) + x] + ("." if x or self.p(.3) else "") + ds[len(ds) + x:]
        if k < .5 and 0 <= x < 60:
            return ds + "0" * x + self.c(["", ".", ".0"])
        at = self.r.randint(1, len(ds))
        ex = x + len(ds) - at
        s = ds[:at] + ("." + ds[at:] if at < len(ds) or self.p(.2) else "")
        return s + self.c("eE") + (("+" if self.p(.3) and ex >= 0 else "") + str(ex) if self.p(.8) or ex < 0
                                   else "0" * self.r.randint(1, 3) + str(ex))

    def float_text(self, t):
        sign = self.c(["", "", "", "-", "+"])
        k = self.r.random()
        top = {"f32": 38, "f64": 308, "f80": 60}[t]
        if k < .3:
            return sign + self.float_halfway(t)
        if k < .42:
            ds = self.digits(10, self.r.randint(1, 25)).lstrip("0") or "0"
            return sign + self.spell(ds, self.r.randint(-top - len(ds) - 20 * (t != "f80"), top - len(ds) + 3 * (t != "f80")))
        if k < .5:
            return sign + self.spell(self.digits(10, self.r.randint(1, 6)), self.r.randint(-8, 8))
        if k < .66:   # hexfloats
            pre = self.c(["0x", "0X", "0x", ""])
            ip = self.digits(16, self.r.randint(0, 18))
            fp = self.c(["", ".", "." + self.digits(16, self.r.randint(1, 18))])
            e = self.c(["", "", "p%d" % self.r.randint(-20, 20), "P+%d" % self.r.randint(0, 9),
                        "p%d" % self.r.randint(-160, 130), "p%d" % (self.c([-1080, -1074, 970, 1023, 1024]) if t == "f64" else 3),
                        "p", "p+", "px"])
            return sign + pre + ip + fp + e
        if k < .76:
            w = self.c(["inf", "infinity", "nan", "nan(12)", "nan(0x7)", "nan()", "nan(a_b)", "nan(x", "nan(-)", "in", "na",
                        "infi", "infinit", "infinityx", "nano", "i", "n", "NAN(AB)", "iNf"])
            return sign + (w.upper() if self.p(.3) else w)
        if k < .9:
            return sign + self.c([".5", ".", "", "1.", "1.e3", "1e", "1e+", "1e-", "1ex", "1.5e+x", "0x", "0x.", "0x.8",
                                  "0xp1", "0x1p", "0x1.p1", "1.2.3", "1..2", "1e5.5", "1e5e5", "00001.5", "0.0", "0e5",
                                  "0x0p0", "0e99999", "1e99999", "1e-99999", "0.0000e-9999", "1p5", "e5", "-1", "+1",
                                  "1,000.5", "1_0", "1e0000005", "0b1", "0x1g", "123abc", "0xabcdef.8p1", "1e+05"])
        return "".join(self.c("0123.eE+-xpPabfFinINy ()") for _ in range(self.r.randint(0, 8)))

    def floats(self, n, types=FLOATS, specs=("", "", "", "a", "A", "e", "E", "f", "F", "g", "G")):
        for _ in range(n):
            t = self.c(types)
            ty = self.c(specs)
            k = self.r.random()
            spec = ty
            if k < .08:
                spec = str(self.r.randint(1, 9)) + ty
            elif k < .2:
                spec = "." + str(self.r.randint(1, 9)) + ty
            f = "{:%s}" % spec if spec else "{}"
            yield self.item(t, f, self.ws(0, 2) * self.p(.3) + self.float_text(t) + self.tail())

    # -------------------------------------------------------------- strings
    def ch(self, uni=.3):
        k = self.r.random()
        if k < uni:
            return self.c(UNI)
        if k < uni + .06:
            return self.c(WS_UNI + WS_ASCII)
        return self.c("abcxyzABZ0189_-^]*#.,!~'\"\\/")

    def word(self, lo=0, hi=8, uni=.3):
        return "".join(self.ch(uni) for _ in range(self.r.randint(lo, hi)))

    def charset(self):
        k = self.r.random()
        if k < .2:
            return self.c(["a-z", "0-9", "^ ", "^\n", "^,", "a-zA-Z", "^]", "^]a", "a-", "-a", "a-c-e", "^a-c", "\u00e4-\u00fc",
                           "^\u3042", "\u0400-\u04ff", "a\u00e4", "^a\u00e4", "A-\u00ff", "^\u0070-\u0090", "\x01-\u00ff",
                           "!-~", "^!-~", " -~", "\U0001f600-\U0001f64f", "\u0080-\U0010ffff", "^\u0080-\U0010ffff",
                           "^\x01-\U0010ffff", "abc^", "\\w", ":alpha:", "z-a", "b-a", "^b-a", "a-a", "--9", "+--", "]", "^"])
        s = "^" if self.p(.35) else ""
        for _ in range(self.r.randint(0, 4)):
            a = self.ch(.3)
            if self.p(.4):
                b = self.ch(.3)
                if self.p(.85) and b < a:
                    a, b = b, a
                s += a + "-" + b
            else:
                s += a
        return s

    def charset_clusters(self, n):
        """sets and inputs made of code points that lie close together"""
        for _ in range(n):
            base = self.c([0x61, 0x30, 0x5a, 0x7c, 0x7e, 0x80, 0xe4, 0x3042, 0x7fd, 0xd7fd, 0xe002, 0xfffc, 0x10002, 0x1f600, 0x10fffa,
                           self.r.randint(0x21, 0x2fff)])
            span = self.c([3, 5, 8])
            def cp():
                while True:
                    v = base + self.r.randint(-span, span)
                    if 0x21 <= v < 0x110000 and not 0xd800 <= v < 0xe000 and v not in (0x5b, 0x5d, 0x5e, 0x7b, 0x7d, 0x2d) and v != 0x7f:
                        return chr(v)
            s = "^" if self.p(.25) else ""
            for _ in range(self.r.randint(1, 5)):
                a, b = sorted((cp(), cp()))
                s += a + "-" + b if self.p(.35) else a
            inp = "".join(cp() for _ in range(self.r.randint(1, 7))) + self.c(["", "", " ", "q"])
            f = "{:[%s]}" % s
            if self.p(.1):
                f = "{:.%d[%s]}" % (self.r.randint(1, 6), s)
            yield self.item(self.c(["str", "str", "wstr", "sv"]), f, inp)

    def strings(self, n):
        for _ in range(n):
            t = self.c(["str", "str", "wstr", "sv"])
            k = self.r.random()
            uni = self.c([0, 0, .3])
            if k < .35:
                f = self.c(["{}", "{:s}", "{:}"])
                s = self.ws(0, 3) + self.word(0, 9, uni) + self.c([self.ws(0, 2), " x", ""])
            elif k < .75:
                f = "{:[" + self.charset() + "]}"
                if self.p(.15):
                    f = "{:." + str(self.r.randint(1, 6)) + f[2:]
                body = f[3:-2]
                pool = [ch for ch in body if ch not in "^{}"] + UNI[:6] + list("az \n09]")
                s = "".join(self.c(pool) if self.p(.8) else self.ch(uni) for _ in range(self.r.randint(0, 9)))
            elif k < .88:
                f = "{:." + str(self.r.randint(0, 9)) + "c}"
                s = self.word(0, 12, uni)
            else:
                f = "{:%s%s%s%s}" % (self.c(["*", "", "\u00e4", "x", "\u3042", " "]) + self.c("<>^"),
                                     self.c(["", str(self.r.randint(1, 9))]),
                                     self.c(["", "", "." + str(self.r.randint(1, 12))]), self.c(["", "s", "s"]))
                fill = f[2]
                if fill in "<>^":
                    fill = " "
                s = fill * self.r.randint(0, 3) + self.word(0, 5, uni) + fill * self.r.randint(0, 4) + self.c(["", "x"])
            yield self.item(t, f, s)

    # ------------------------------------------------------- characters etc.
    def scalars(self, n):
        for _ in range(n):
            t = self.c(["ch", "wc", "cp", "bool", "ptr"])
            if t in ("ch", "wc", "cp"):
                ty = self.c(["", "", "c"] if t == "cp" else ["", "", "c", "d", "i", "u", "x", "o", "b", "X", "B"])
                if ty in ("", "c"):
                    s = self.c(["", self.word(1, 3, .5), self.ws(1, 2) + self.word(0, 2, .5)])
                else:
                    tt = "i8" if t == "ch" else "i32"
                    s = self.c(["", " "]) * self.p(.2) + self.int_text(tt, {"x": 16, "X": 16, "o": 8, "b": 2, "B": 2}.get(ty)) + self.tail()
            elif t == "bool":
                ty = self.c(["", "", "s", "i", "d", "u", "x", "b", "o"])
                s = self.ws(0, 2) * self.p(.3) + self.c(["true", "false", "0", "1", "2", "tru", "fals", "True", "FALSE", "t", "f", "",
                                                        "10", "01", "truex", "falsey", "-1", "+1", "true1", "0false", "1true", "yes",
                                                        "00", "0x1", "tRue", "trues", "\x14rue", "f\u0430lse"]) + self.tail()
            else:
                ty = self.c(["", "p"])
                s = self.ws(0, 2) * self.p(.3) + self.int_text("ptr", self.c([16, 16, None])) + self.tail()
            k = self.r.random()
            spec = ty
            if k < .12:
                spec = str(self.r.randint(1, 7)) + ty
            elif k < .22:
                spec = "." + str(self.r.randint(1, 7)) + ty
            elif k < .32:
                spec = self.c(["*", "", "\u00e4"]) + self.c("<>^") + self.c(["", "4"]) + ty
                s = self.c(["", "*", "**", " ", "\u00e4"]) + s + self.c(["", "*", "**", " "])
            yield self.item(t, "{:%s}" % spec if spec else "{}", s)

    # --------------------------------------------------- width / precision
    def value_for(self, t):
        k = self.r.random()
        if k < .08:
            return ""
        if t in BITS and t != "ptr":
            return self.c([str(self.r.randint(0, 120)), "-%d" % self.r.randint(0, 120), "0x1f", "7", "007", "1e"])
        if t in FLOATS:
            return self.c(["1.5", "-2.25", "1e2", "3", "0.125", "12.", "inf", "nan", "0x1p3"])
        if t == "bool":
            return self.c(["true", "false", "1", "0"])
        if t == "ptr":
            return self.c(["0xff", "1f", "0"])
        if t in ("ch", "wc", "cp"):
            return self.ch(.35)
        return self.word(1, 6, self.c([0, .4]))

    FILLS = ["*", "*", "_", "0", "-", "\u00e4", "\u3042", "\U0001f600", "x", " ", "\u2028", "^", "<", ">", ".", "5", "L", "s", ":", "]", "/"]

    def spec_for(self, t):
        fill = self.c(self.FILLS) if self.p(.6) else ""
        al = self.c("<>^") if self.p(.7) else ""
        if not al:
            fill = ""
        w = str(self.r.randint(0, 9)) if self.p(.5) else ""
        pr = "." + str(self.r.randint(0, 10)) if self.p(.5) else ""
        if w and pr and self.p(.8) and int(pr[1:]) < int(w):
            pr = "." + str(int(w) + self.r.randint(0, 4))
        ty = ""
        if self.p(.35):
            if t in INTS:
                ty = self.c("dxiub")
            elif t in FLOATS:
                ty = self.c("aefg")
            elif t in ("str", "sv", "wstr"):
                ty = self.c(["s", "c", "[a-z]", "[^ ]", "[^*]", "[*a-z]"])
            elif t in ("ch", "wc", "cp"):
                ty = "c"
            elif t == "bool":
                ty = self.c("sdx")
            elif t == "ptr":
                ty = "p"
        return fill, al, w, pr, ty

    ALL1 = INTS + FLOATS + ["bool", "ptr", "ch", "wc", "cp", "str", "wstr", "sv"]

    def widths(self, n):
        for _ in range(n):
            t = self.c(["i32", "u8", "f64", "bool", "ptr", "ch", "wc", "cp", "str", "wstr", "sv", "str", "sv", "i64"])
            fill, al, w, pr, ty = self.spec_for(t)
            f = "{:%s%s%s%s%s}" % (fill, al, w, pr, ty)
            fl = fill or " "
            v = self.value_for(t)
            k = self.r.random()
            if k < .5:
                s = fl * self.r.randint(0, 4) + v + fl * self.r.randint(0, 4)
            elif k < .75:
                s = self.ws(0, 3, .1) + v + self.ws(0, 4, .1)
            else:
                s = self.c([fl, " ", "#"]) * self.r.randint(0, 3) + v + self.c([fl, " ", "#"]) * self.r.randint(0, 3)
            s += self.c(["", "", v, "z", fl])
            yield self.item(t, f, s)

    # ------------------------------------------------------ literals, whitespace
    def lits(self, n):
        for _ in range(n):
            job = self.c(["i32", "str", "none", "none", "i32+i32", "cp"])
            pieces = []
            nf = 0 if job == "none" else job.count("+") + 1
            inp = ""
            for k in range(nf + 1):
                for _ in range(self.r.randint(0, 2)):
                    q = self.r.random()
                    if q < .4:
                        w = self.word(1, 3, .4).replace("{", "").replace("}", "")
                        pieces.append(w)
                        inp += w if self.p(.85) else self.word(0, 3, .4)
                    elif q < .8:
                        pieces.append(self.ws(1, 2, .3))
                        inp += self.ws(0, 3, .3)
                    else:
                        b = self.c(["{{", "}}"])
                        pieces.append(b)
                        inp += b[0] if self.p(.8) else self.c(["", b, "x"])
                if k < nf:
                    pieces.append("{}" if self.p(.8) else self.c(["{:<}", "{:2}", "{:.2}"]))
                    inp += self.c([str(self.r.randint(0, 99)), "q", "ab"]) if self.p(.85) else self.word(0, 2)
            if self.p(.25):
                inp = inp[:self.r.randint(0, len(inp))]
            inp += self.c(["", "", " ", "z"])
            yield self.item(job, "".join(pieces), inp)

    # ---------------------------------------------------------- format strings
    def fmt_noise(self, nf):
        """A format string that is usually almost right for nf arguments."""
        manual = self.p(.4)
        ids = list(range(nf))
        if manual:
            self.r.shuffle(ids)
        parts = []
        for k in range(nf):
            spec = self.c(["", "", ":", ":d", ":s", ":x", ":5", ":.3", ":>", ":*<6", ":c", ":f", ":L", ":[a-z]", ":b", ":i", ":p",
                           ":a", ":u", ":5.7d", ":.5c", ":^3", ":o", ":e", ":g", ":X"])
            if self.p(.35):
                spec = ":" + "".join(self.c("<>^*.0123456789LdxsbouipcaefgrR?[]-/{}: \u00e4tz\x01") for _ in range(self.r.randint(0, 6)))
            idt = str(ids[k]) if manual != self.p(.05) else ""
            if self.p(.06):
                idt = self.c(["0", "1", "2", "7", "00", "01", "-1", "+0", "99999999999", "2147483647", "2147483648", "4294967296",
                              "18446744073709551616", "a", " 0", "0 "])
            parts.append("{" + idt + spec + "}")
            if self.p(.6):
                parts.append(self.c([" ", " ", ",", "{{", "}}", "x"]))
        f = "".join(parts)
        k = self.r.random()
        if k < .12 and f:
            i = self.r.randint(0, len(f) - 1)
            f = f[:i] + f[i + 1:]
        elif k < .24:
            i = self.r.randint(0, len(f))
            f = f[:i] + self.c("{}:[]./0<>^L *") + f[i:]
        elif k < .29:
            f = f[:self.r.randint(0, len(f))]
        elif k < .33:
            f += self.c(["{}", "{0}", "{1}", "{", "}", "{:", "{{", "}}", "{{}", "{}}"])
        return f

    TUPLES = ["i32+str", "str+i32", "i32+i32", "f64+f64", "str+str", "sv+i32", "ch+i32", "cp+str", "i32+i32+i32",
              "bool+f64+str", "u8+i64+f32", "str+cp+i32", "ptr+bool", "i8+u16", "i32+f64+str+bool", "wstr+i32",
              "i32+ch", "str+ch+str", "il+ul+i16", "u32+u64", "f32+i32", "cp+cp+cp", "sv+sv", "f80+i32", "wc+str"]

    def formats(self, n, jobs=None):
        for _ in range(n):
            job = self.c(jobs or (self.ALL1 + self.TUPLES + self.TUPLES))
            ts = job.split("+") if job != "none" else []
            f = self.fmt_noise(len(ts))
            inp = self.mixed_input(ts)
            yield self.item(job, f, inp)

    def mixed_input(self, ts):
        s = ""
        for t in ts:
            s += self.value_for(t) + self.c([" ", " ", ",", "", "  "])
        return s

    def any_spec(self, t):
        fill, al, w, pr, ty = self.spec_for(t)
        k = self.r.random()
        if k < .5:
            fill = al = w = pr = ""
        elif k < .65:
            fill = al = ""
        s = fill + al + w + pr + ty
        return ":" + s if s else ""

    def general(self, n, jobs=None, bad=.12):
        """Well-formed scans of several arguments, inputs mostly matching."""
        for _ in range(n):
            job = self.c(jobs or (self.TUPLES * 2 + self.ALL1))
            ts = job.split("+")
            ids = list(range(len(ts)))
            man = self.p(.25)
            if man:
                self.r.shuffle(ids)
            f = inp = ""
            for k in ids:
                t = ts[k]
                sep = self.c(["", "", " ", ",", "ab", "{{", "}}", "\u00e4", " , ", "\u3042"]) if self.p(.7) else self.word(0, 2, .3)
                sep = sep.replace("{", "{{").replace("}", "}}") if sep not in ("{{", "}}") else sep
                sp = self.any_spec(t)
                f += sep + "{" + (str(k) if man else "") + sp + "}"
                lit = sep.replace("{{", "{").replace("}}", "}")
                inp += lit if self.p(.92) else self.c(["", " ", lit[:-1], self.ch()])
                fl = " "
                if len(sp) > 2 and sp[2] in "<>^":
                    fl = sp[1]
                inp += self.c(["", "", " ", fl, fl * 2, self.ws(0, 2)])
                v = {True: self.value_for(t)}[True]
                if t in INTS and self.p(.3):
                    v = self.int_text(t)
                elif t in FLOATS and self.p(.3):
                    v = self.float_text(t)
                inp += v if self.p(.95) else self.word(0, 2)
                inp += self.c(["", "", fl, fl * 3, " "])
            if self.p(bad):
                i = self.r.randint(0, len(inp))
                inp = inp[:i]
            inp += self.c(["", "", " ", self.word(1, 4, .3)])
            if self.p(.05):
                f += self.c([" ", "x", "{}", "}", "{"])
            yield self.item(job, f, inp)

    # -------------------------------------------------------- invalid text
    BADBYTES = [[0x80], [0xbf], [0xc0, 0x80], [0xc1, 0xbf], [0xc3], [0xe2, 0x82], [0xe0, 0x80, 0x80], [0xed, 0xa0, 0x80],
                [0xed, 0xbf, 0xbf], [0xf0, 0x80, 0x80, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xff],
                [0xfe], [0xf0, 0x9f, 0x98], [0xe3, 0x81], [0xc3, 0x28], [0xe2, 0x28, 0xa1], [0xf0, 0x9f], [0xf8, 0x88, 0x80, 0x80, 0x80],
                [0xe2, 0x80], [0xc2], [0xc2, 0x20], [0xe2, 0x80, 0x20], [0xf0, 0x28, 0x8c, 0xbc]]
    BADWIDE = [[0xd800], [0xdfff], [0xdc00, 0xd800], [0xd83d, 0xde00], [0x110000], [0x7fffffff], [-1], [-0x80000000 + 1]]

    def broken(self, n, jobs=("str", "wstr", "sv", "cp", "wc", "str+str", "str+cp+i32", "cp+str", "i32+str", "str+i32", "wc+str")):
        for _ in range(n):
            job = self.c(jobs)
            m = 8 if self.p(.75) else 32
            enc = (lambda s: list(s.encode())) if m == 8 else (lambda s: [ord(c) for c in s])
            ts = job.split("+")
            f = self.c(["", "", " "]).join("{" + self.c(["", "", self.any_spec(t),
                                                          ":" + self.c(["[a-z]", "[^a]", "[^\u00e4]", "[\u0080-\U0010ffff]", ".3c", ".2", "s", "*<s", "5"])
                                                          if t in ("str", "wstr", "sv") else ""]) + "}" for t in ts)
            if self.p(.15):
                f = self.c(["\u00e4", "a", "\u20ac"]) + f
            u = []
            for _ in range(self.r.randint(1, 5)):
                k = self.r.random()
                if k < .4:
                    u += enc(self.word(1, 3, .4))
                elif k < .5:
                    u += enc(self.ws(1, 2, .4))
                else:
                    u += self.c(self.BADBYTES if m == 8 else self.BADWIDE)
            fu = enc(f)
            if self.p(.08):
                i = self.r.randint(0, len(fu))
                fu = fu[:i] + self.c(self.BADBYTES if m == 8 else self.BADWIDE) + fu[i:]
            yield (job, m, fu, u, "")

    def long_texts(self, n):
        """Inputs longer than any internal buffer."""
        for _ in range(n):
            t = self.c(["str", "str+i32", "i32+str", "sv", "wstr", "str+str", "f64", "i32"])
            k = self.c([63, 64, 65, 127, 128, 200, 255, 256, 257, 300])
            body = (self.word(5, 9, self.c([0, .4])).translate({ord(c): "x" for c in "".join(WS_ASCII + WS_UNI)}) or "q")
            s = (body * k)[:k]
            f = " ".join("{}" for _ in t.split("+"))
            if t == "str+i32":
                inp = s + " 42"
            elif t == "i32+str":
                inp = " " * k + "42 " + s
            elif t == "str+str":
                inp = s + " " * self.r.randint(1, 80) + s
            elif t == "f64":
                inp = "0" * self.c([0, k]) + "1." + "0" * k + "1"
            elif t == "i32":
                inp = "0" * k + "123"
            else:
                inp = s
            if self.p(.4) and t in ("str", "sv", "wstr"):
                f = self.c(["{:[^z]}", "{:.%dc}" % self.r.randint(1, k + 5), "{:.%d}" % self.r.randint(1, k + 5)])
            yield self.item(t, f, inp + self.c(["", " ", "\u00e4", " x"]))

    def stretched(self, items, n, most=400):
        """Some of the items, with a part of the input (and maybe of the format) repeated very often."""
        r = self.r
        for _ in range(n):
            job, mode, f, s, x = r.choice(items)
            if not s:
                continue
            at = r.randrange(len(s))
            part = s[at:at + r.choice([1, 1, 1, 2, 2, 3, 4, 6])]
            times = max(2, min(r.choice([12, 17, 33, 40, 64, 66, 100, 129, 200, 260, 400]), most) // len(part))
            if isinstance(f, str):
                if self.p(.4):
                    f = re.sub(r"(?<=[:<>^.])\d+", lambda m: str(r.choice([16, 33, 64, 100, 128, 200, 255, 256, 257, 300, 500])), f)
                lit = isinstance(s, str) and [k for k, c in enumerate(f) if c in s and c not in "{}" and f[:k].count("{") == f[:k].count("}")]
                if lit and self.p(.3):
                    k = r.choice(lit)
                    part = f[k]
                    at = s.index(part)
                    f = f[:k] + part * times + f[k:]
            s = s[:at] + part * times + s[at:]
            if isinstance(s, str) and self.p(.12):    # and something wrong near the end
                mode = mode or r.choice([8, 32])      # (0: ASCII as both)
                s = s[:-1] + r.choice(["\0", "\u00e4", "\u3042", " ", "\u2003", "\U0001f600"]) + s[-1:]
                if mode == 8 and self.p(.4):
                    b = list(s.encode())
                    k = max(0, len(b) - r.randint(0, 6))
                    s = b[:k] + [r.choice([0x80, 0xff, 0xc3, 0xe3, 0xf0])] + b[k:]
            yield (job, mode, f, s, x)

    # ----------------------------------------------------------- exhaustive
    def exhaustive(self, cases, alphabet, maxlen):
        """Every text over the alphabet up to a length, for each (job, format)."""
        import itertools
        for job, fmt in cases:
            for n in range(maxlen + 1):
                for tup in itertools.product(alphabet, repeat=n):
                    s = "".join(tup)
                    if ascii_only(fmt, s):
                        yield self.item(job, fmt, s)
                    else:
                        yield (job, 8 if "ch" in job.split("+") or hash((n,) + tup) % 3 else 32, fmt, s, "")

    def format_exhaustive(self, maxlen):
        """Every format string over the alphabet of the grammar up to a length."""
        import itertools
        for n in range(maxlen + 1):
            for tup in itertools.product("{}:0.<dL*", repeat=n):
                f = "".join(tup)
                yield ("none", 0, f, "{}:0", "")
                if n == maxlen:
                    yield ("i32", 0, "{:" + f + "}", self.c(["12", "*12", "12*", "12 ", " 7"]), "")
                yield ("i32", 0, f + "{}", self.c(["12", "{12", "}12", ":5"]), "")
        for n in range(maxlen):
            for tup in itertools.product("[]^-a/sc<9. ", repeat=n):
                yield ("str", 0, "{:" + "".join(tup) + "}", self.c(["abc", "9-a", "a]b", "  a"]), "")
        for a in ("", "0", "1", "2", "00", "1:", "0:", "01", "-0", "+1", "a", "9999999999", ":", ":d", "0:d", "1:d", " "):
            for b in ("", "0", "1", "2", "0:", "1:", ":d"):
                for c in ("", " "):
                    yield ("i32+i32", 0, "{" + a + "}" + c + "{" + b + "}", "12 34", "")
                    yield ("i32+i32+i32", 0, "{" + a + "}" + c + "{" + b + "} {}", "12 34 56", "")
                    yield ("i32+i32+i32", 0, "{" + a + "} {2}" + c + "{" + b + "}", "12 34 56", "")

    MANY = [63, 64, 65, 70]

    SRC_JOBS = {"i32", "f64", "str", "sv", "cp", "ch", "wstr", "str+i32", "sv+i32", "i32+i32+i32", "str+ch+str"}

    def other_sources(self, items):
        """the same, from further kinds of sources; often short, and with NULs in it"""
        for it in items:
            if it[0] not in self.SRC_JOBS:
                continue
            s = it[3]
            if self.r.random() < .2:
                at = self.r.randrange(len(s) + 1)
                s = s[:at] + ("\0" if isinstance(s, str) else [0]) + s[at:]
            if self.r.random() < .5:
                s = s[:self.r.randrange(9)]
            yield ("src/" + it[0], it[1], it[2], s) + tuple(it[4:])

    def many_args(self, n):
        for _ in range(n):
            m = self.c(self.MANY)
            ids = list(range(m))
            man = self.p(.6)
            if man:
                if self.p(.7):
                    self.r.shuffle(ids)
                if self.p(.4):
                    ids[self.r.randint(0, m - 1)] = self.c([self.r.randint(0, m - 1), m, m + 1, 63, 64, 127, 128])
                if self.p(.15):
                    ids.pop()
                if self.p(.25):   # one of them twice
                    ids.insert(self.r.randint(0, len(ids)), self.r.randint(0, m - 1))
                f = " ".join("{%d}" % i for i in ids)
            else:
                k = m + self.c([0, 0, 0, -1, 1])
                f = " ".join(["{}"] * k)
            vals = [str(self.r.randint(0, 999)) for _ in range(m + 2)]
            yield ("many%d" % m, 8, f, " ".join(vals), "")

    # ------------------------------------------------------------- float shapes
    def float_shapes(self, n):
        """Texts whose shape, rather than magnitude, is the point."""
        for _ in range(n):
            t = self.c(["f32", "f32", "f64", "f80"])
            sign = self.c(["", "", "-", "+"])
            k = self.r.random()
            if k < .35:
                s = self.digits(10, self.r.randint(0, 4)) + self.c(["", ".", "."]) + self.digits(10, self.r.randint(0, 3)) + \
                    self.c(["", "", "e", "E"]) + self.c(["", "", "-", "+"]) + self.digits(10, self.r.randint(0, 2))
            elif k < .6:
                s = self.c(["0x", "0X", "0", ""]) + self.digits(16, self.r.randint(0, 3)) + self.c(["", ".", "."]) + \
                    self.digits(16, self.r.randint(0, 3)) + self.c(["", "", "p", "P"]) + self.c(["", "", "-", "+"]) + self.digits(10, self.r.randint(0, 2))
            elif k < .8:
                w = self.c(["inf", "infinity", "nan", "nan(1)", "nan(ab_)", "nan(", "nan()", "infin", "na", "nan(a b)"])
                s = "".join(c.upper() if self.p(.3) else c for c in w)[:self.r.randint(1, 12)]
            else:
                s = "".join(self.c("0123.eE+-xpPabfFinINyY ()") for _ in range(self.r.randint(0, 7)))
            ty = self.c(["", "", "", "a", "A", "e", "E", "f", "F", "g", "G"])
            spec = self.c(["", "", "", ".%d" % self.r.randint(1, 9), "%d" % self.r.randint(1, 9)]) + ty
            yield self.item(t, "{:%s}" % spec if spec else "{}", self.ws(0, 2) * self.p(.2) + sign + s + self.tail())

    # -------------------------------------------------------- width of characters
    EDGES = [0x1100, 0x115f, 0x1160, 0x2329, 0x232a, 0x2328, 0x232b, 0x2e80, 0x2e7f, 0x303e, 0x303f, 0x3040, 0xa4cf, 0xa4d0,
             0xac00, 0xabff, 0xd7a3, 0xd7a4, 0xf900, 0xf8ff, 0xfaff, 0xfb00, 0xfe10, 0xfe0f, 0xfe19, 0xfe1a, 0xfe30, 0xfe2f,
             0xfe6f, 0xfe70, 0xff00, 0xfeff, 0xff60, 0xff61, 0xffe0, 0xffdf, 0xffe6, 0xffe7, 0x1f300, 0x1f2ff, 0x1f64f, 0x1f650,
             0x1f900, 0x1f8ff, 0x1f9ff, 0x1fa00, 0x20000, 0x1ffff, 0x2fffd, 0x2fffe, 0x30000, 0x2ffff, 0x3fffd, 0x3fffe, 0x41, 0xe4, 0x20ac]

    def width_table(self, n):
        for _ in range(n):
            c = chr(self.c(self.EDGES)) if self.p(.8) else chr(self.c([self.r.randint(0x80, 0xd7ff), self.r.randint(0xe000, 0x10ffff)]))
            if c in WS_UNI:
                continue
            k = self.r.randint(1, 3)
            t = self.c(["str", "sv", "wstr", "cp"])
            m = self.r.randint(1, 6)
            f = self.c(["{:%d}" % m, "{:.%d}" % m, "{:.%dc}" % m, "{:*<%d}" % m, "{:%s<%d}" % (c, m), "{:%s>.%d}" % (c, m)])
            if t == "cp":
                f = f.replace("c}", "}")
            s = self.c(["", "*", " "]) + c * k + self.c(["", "a", "**", " ", "   ", c + "x"])
            yield self.item(t, f, s)

    def transcode(self, n):
        """Text of any code points between source and destination encodings."""
        edge = [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff]
        for _ in range(n):
            s = ""
            for _ in range(self.r.randint(1, self.c([3, 10, 40]))):
                k = self.r.random()
                cp = self.c(edge) if k < .3 else self.r.randint(0x21, 0x7e) if k < .5 else self.r.randint(0xa1, 0x1ffff)
                if 0xd800 <= cp < 0xe000 or chr(cp) in WS_UNI:
                    cp = 0x41
                s += chr(cp)
            t = self.c(["str", "wstr", "sv", "cp", "wc", "cp+str", "str+str", "wc+str"])
            yield self.item(t, self.c(["", "", s[0]]).replace("{", "").replace("}", "") + "".join("{}" for _ in t.split("+")), s)

    def byte_exhaustive(self, k):
        """Short byte sequences over the boundaries of the encoding."""
        import itertools
        B = [0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff]
        for n in (1, 2, 3) if k == 1 else (1, 2, 3, 4):
            for tup in itertools.product(B, repeat=n):
                j = self.c([("cp", "{}"), ("str", "{}"), ("wc", "{}"), ("wstr", "{}"), ("sv", "{}"), ("str", "{:[^a]}"), ("wstr", "{:.2c}"),
                            ("str", "{:.3c}"), ("cp+str", "{}{}")])
                if n == 4 and self.p(.7):
                    continue
                yield (j[0], 8, j[1], list(tup) + self.c([[], [], [0x41], [0x20, 0x41]]), "")

    # -------------------------------------------------------------- other entry points
    VALS = ["i32", "u8", "i64", "f64", "bool", "ptr", "str", "wstr", "cp", "f32", "ul", "i16", "sv"]
    APIS = ["i32", "str", "i32+str", "bool+f64+str", "str+cp+i32"]

    def api(self, n):
        for _ in range(n):
            k = self.r.random()
            if k < .3:
                t = self.c(self.VALS)
                if t in BITS and t != "ptr":
                    s = self.int_text(t)
                elif t == "f32":
                    s = self.float_text(t)
                else:
                    s = self.value_for(t) if self.p(.8) else self.word(0, 4, .4)
                s = self.ws(0, 2) * self.p(.4) + s + self.tail()
                it = self.item(t, "{}", s)
                yield ("val/" + t,) + it[1:]
            elif k < .65:
                it = next(iter(self.general(1, jobs=self.APIS)))
                a = self.c(["init/", "init/", "loc/", "inp/"])
                if a == "inp/" and it[1] == 32:
                    a = "init/"
                yield (a + it[0],) + it[1:]
            elif k < .92:
                t = self.c(INTS)
                b = self.c([0, 2, 8, 10, 10, 16, 36, self.r.randint(2, 36)])
                q = self.r.random()
                if q < .6 and b:
                    s = self.c(["", "", "-", "+"]) + self.c(["", "", {2: "0b", 8: "0o", 16: "0x"}.get(b, "")]) + \
                        self.c(["", "", "", "000"]) + self.tobase(self.int_near(t), b)
                    if self.p(.3):
                        s = s.upper()
                elif q < .8:
                    s = self.int_text(t)
                else:
                    s = self.c(["", "-"]) + self.digits(b or 10, self.r.randint(0, 22))
                s = "".join(self.c(WS_ASCII) for _ in range(self.r.randint(0, 2))) * self.p(.4) + s + self.c(["", "", " ", "x", "z", "9", "G", "."])
                yield ("sint/" + t, 8, "", s, "b%d" % b)
            else:
                t = self.c(INTS)
                hi = (1 << BITS[t]) - 1
                v = self.c([hi, hi - 1, 0, 1, self.r.randint(0, hi), self.r.getrandbits(self.r.randint(1, BITS[t])), 10 ** self.r.randint(0, 19)])
                v = min(v, hi)
                s = str(v)
                if t[0] == "i" and self.p(.4):
                    s = "-" + str(self.c([v, hi + 1]))
                yield ("xval/" + t, 8, "{}", s, "")

    CHAINS = ["i32+str", "str+i32", "i32+i32+i32", "str+cp+i32", "bool+f64+str", "cp+str", "wstr+i32"]

    def chains(self, n):
        for _ in range(n):
            job = self.c(self.CHAINS)
            ts = job.split("+")
            fs, inp = [], ""
            for t in ts:
                sep = self.c(["", "", " ", ",", "a", "\u00e4", "{{", " , "])
                sp = self.any_spec(t)
                end = self.c(["", "", "", " ", ";"])
                fs.append(sep + "{" + sp + "}" + end)
                fl = sp[1] if len(sp) > 2 and sp[2] in "<>^" else " "
                inp += (sep.replace("{{", "{") if self.p(.95) else "") + self.c(["", "", " ", fl]) + \
                    (self.value_for(t) if self.p(.95) else self.word(0, 3)) + self.c(["", "", fl]) + (end if self.p(.95) else "")
            if self.p(.05):
                fs[self.r.randint(0, len(fs) - 1)] = self.c(["{", "{:", "{}{}", "", "{0}", "x"])
            inp += self.c(["", " ", "tail", "\u3042"])
            it = self.item(job, "\x01".join(fs), inp)
            yield ("chain/" + job,) + it[1:]

    # ------------------------------------------------------ custom scanners
    CUSTOM = ["Cpt", "i32+Cpt", "Cpt+str", "str+Cnest", "Cnest", "Ckv+Ckv", "Ctwo+Ctwo", "Ccount+Ccount",
              "str+Ccount", "Cdigits+Cwrap", "Cwrap+Cdigits", "Cwrap", "Cspaced+i32", "i32+Cspaced",
              "Cdiscard+i32", "str+Cdiscards", "Rvec", "i32+Rvec", "Rset", "Rmap", "Rpair", "Rtup",
              "Rvstr", "Rvpair", "Rvv", "Rmv", "str+Rmap", "Rsstr", "Rtv", "Rvpt", "Rarr", "i32+Rarr", "Rarr+Rface", "Rface", "Rcap",
              "Rcap+str", "Rvec+Rvstr", "Rpre", "Rpreset", "Rpremap", "i32+Rpre"]

    def small(self):
        k = self.r.random()
        return (self.c(["-", "+", "", "", ""]) + str(self.r.randint(0, 10 ** self.r.randint(1, 5)))) if k < .97 else \
            self.c(["2147483648", "-2147483649", "x", "", "99999999999999999999"])

    def cword(self):
        return "".join(self.c("abcxyz") for _ in range(self.r.randint(1, 6)))

    def sp(self, p=.3):
        return self.ws(1, 2, .1) if self.p(p) else ""

    def custom_text(self, t, spec=""):
        num = self.small
        seq = lambda el, o, c, s=",": self.sp() + o + "".join(
            (self.sp(.2) + s if k else "") + self.sp() + el() for k in range(self.c([0, 1, 1, 2, 2, 3, 5]))) + self.sp(.2) + c
        tup = lambda els, o=("(", ")"), s=",": self.sp() + o[0] + (self.sp(.2) + s).join(self.sp() + e() for e in els) + self.sp(.2) + o[1]
        pt = lambda: "(" + self.sp() + num() + "," + self.sp() + num() + ")"
        wordsp = lambda: self.cword() + " "
        T = {
            "i32": num, "str": self.word, "Cpt": pt,
            "Ckv": lambda: self.cword() + "=" + self.sp() + num(),
            "Cnest": lambda: "<" + pt() + "|" + self.sp() + pt() + ">",
            "Ctwo": lambda: self.sp() + num() + " " + self.sp() + self.cword(),
            "Ccount": lambda: (lambda n: " ".join([str(n)] + [self.sp() + num() for _ in range(n + self.c([0, 0, 0, -1, 1]))]))(self.c([0, 1, 2, 3, 4, 7])),
            "Cdigits": lambda: "".join(self.c("0123456789") for _ in range(self.r.randint(0, 6))),
            "Cwrap": lambda: self.sp() + num(), "Cdiscard": num, "Cdiscards": self.word,
            "Cspaced": lambda: self.cword() + self.sp(.6) + "->" + self.sp() + self.c(["abc", "a\u00e4c", "zz", "\u3042x"]),
            "Rvec": lambda: seq(num, "[", "]"), "Rset": lambda: seq(lambda: str(self.r.randint(0, 5)), "{", "}"),
            "Rmap": lambda: seq(lambda: tup([lambda: str(self.r.randint(0, 4)), num], ("", ""), ":"), "{", "}"),
            "Rpair": lambda: tup([num, num]), "Rtup": lambda: tup([num, wordsp, num]),
            "Rarr": lambda: seq(num, "<<", ">>", "=>"), "Rcap": lambda: seq(num, "[", "]"),
            "Rface": lambda: tup([num, num], ("(:", ":)"), "--"),
            "Rvstr": lambda: seq(wordsp, "[", "]"), "Rsstr": lambda: seq(lambda: self.c(["a ", "b ", "ab "]), "{", "}"),
            "Rvpair": lambda: seq(lambda: tup([num, num]), "[", "]"),
            "Rvv": lambda: seq(lambda: seq(num, "[", "]"), "[", "]"),
            "Rmv": lambda: seq(lambda: tup([lambda: str(self.r.randint(0, 4)), lambda: seq(num, "[", "]")], ("", ""), ":"), "{", "}"),
            "Rtv": lambda: tup([lambda: seq(num, "[", "]"), num]), "Rvpt": lambda: seq(pt, "[", "]"),
        }
        return T[{"Rpre": "Rvec", "Rpreset": "Rset", "Rpremap": "Rmap"}.get(t, t)]()

    def threads(self, n):
        """Two threads with operations on the same stream."""
        r = self.r
        pieces = ["12", "-7", "abc", " ", "\n", ",", "**3", "1.5e3", "a7", "  \t", "0xf", "xyz, ", "123456", "q", "\u00e4", "99999999999"]
        for _ in range(n):
            t = "".join(r.choice(pieces) + r.choice(["", " ", " "]) for _ in range(r.randint(1, 7)))

            def ops(m):
                return ";".join("s%d" % r.randint(1, 14) if r.random() < .85 else r.choice(["g0", "r2", "l0"]) for _ in range(r.randint(1, m)))
            yield ("thr", 8, "", [c for c in t.encode()], ops(3) + "|" + ops(2))

    # histories of streams longer than any buffer on the way
    def long_histories(self, n):
        r = self.r
        short = ["12", "-7", "abc", " ", "\n", ",", "**3", "1.5e3", "a7", "  \t", "0xf", "xyz, "]
        for _ in range(n):
            size = r.choice([255, 256, 300, 511, 513, 600, 1023, 1025, 1300, 2100, 4090, 4096, 4097, 4200])
            run = r.choice(["abz", "z", "1234567890", "0", " ", "  \n\t", "-1", "*", "nan", "0x1"])
            long = (run * (size // len(run) + 1))[:size]
            ws = r.choice([0, 0, 1, 250, 600])
            t = "".join(r.choice(short) for _ in range(r.randint(0, 3))) + " " * ws + long + \
                "".join(r.choice(short) for _ in range(r.randint(0, 4)))
            ops = []
            for _ in range(r.randint(2, 6)):
                k = r.random()
                ops.append("s%d" % r.randint(1, 14) if k < .75 else "g0" if k < .82 else "u%d" % r.choice([97, 49])
                           if k < .88 else "r%d" % r.randint(1, 300) if k < .95 else "l0")
            yield ("hist", 8, "", [ord(c) for c in t], ";".join(ops))

    def customs(self, n):
        for _ in range(n):
            job = self.c(self.CUSTOM)
            ts = job.split("+")
            fmt = inp = ""
            for k, t in enumerate(ts):
                if k:
                    s = self.c([" ", ",", "", " ;", "\u00e4 ", "x"])
                    fmt += s
                    inp += s if self.p(.9) else self.c([" ", "", ","])
                spec = ""
                if self.p(.25):
                    spec = self.c(["x", "d", ".2", "*>4", "*<3", "5", "[a-c]", "s", "u", "b", "L", "z", "o", ".1c", "i", "a"])
                fmt += "{:%s}" % spec if spec or self.p(.1) else "{}"
                inp += self.custom_text(t, spec)
            inp += self.tail()
            if self.p(.3) and inp:
                k = self.r.randrange(len(inp))
                inp = self.c([inp[:k], inp[:k] + inp[k + 1:], inp[:k] + self.c(" ,[](){}:x1-<>=") + inp[k:]])
            yield (job, 8, fmt, inp, "")

    # ------------------------------------------------------------ dates and times
    MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
              "November", "December"]
    DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
    CHRONO = ["Ttm", "Ttm", "Ttz", "Ttz", "Tdt", "Tdt", "Tdt", "Tday", "Tmon", "Tyear", "Twd", "Tmd", "Tym", "Tymd",
              "Ttp", "i32+Ttm", "Tdt+str", "str+Tymd"]
    CHR_FIELDS = {  # groups of specifiers of which a format has at most one
        "date": ["%Y-%m-%d", "%F", "%D", "%x", "%d/%m/%y", "%C%y-%m-%d", "%b %d %Y", "%d %B %Y", "%e.%m.%Y", "%Y%m%d",
                 "%h%d,%y", "%Ex", "%EY %Om %Od", "%m%d%Ey", "%EC%Oy%m%d", "%d%m%C", "%j %Y", "%Y %j", "%a %Y %b", "%A",
                 "%w", "%u", "%Oe %B %EY", "%y%j", "%a,"],
        "time": ["%H:%M:%S", "%T", "%X", "%R", "%r", "%I:%M %p", "%I%p", "%H%M", "%k.%M.%S", "%l:%M:%S%P", "%M:%S",
                 "%H", "%S", "%OH:%OM:%OS", "%OI %p", "%EX", "%I"],
        "sub": ["%.S", "%H:%M:%.S", "%M:%.S", "%.OS", "%R:%.S", "%I%M%.S%p"],
        "zone": ["%z", "%Z", "%Ez", "%Oz"],
        "all": ["%c", "%Ec"],
    }

    def chr_case(self, s):
        return self.c([s, s, s.lower(), s.upper(), "".join(self.c([c.lower(), c.upper()]) for c in s)])

    def chr_text(self, sp):
        """Text for one specifier's letter, sometimes out of range or misspelt."""
        n = self.r.randint

        def num(lo, hi, digits):
            v = n(lo, hi) if self.p(.85) else self.c([0, lo - 1 if lo else 0, hi + 1, hi, lo, 9, 10 ** digits - 1])
            return str(v).zfill(digits) if self.p(.7) else str(v)
        L = sp[-1]
        if L == "Y":
            return num(1000, 9999, 4) if self.p(.5) else num(1900, 2100, 4) if self.p(.8) else self.c(["0000", "12345", "199", "9999", "-500", "1969"])
        if L in "yC":
            return self.c([num(0, 99, 2), "68", "69", "00", "99", "70"])
        if L == "m":
            return num(1, 12, 2)
        if L in "bBh":
            m = self.c(self.MONTHS)
            return self.chr_case(self.c([m, m[:3], m[:3], m[:4], m[:-1], m + "s", m[:2]])) + ("\0" if self.p(.02) else "")
        if L in "aA":
            m = self.c(self.DAYS)
            return self.chr_case(self.c([m, m[:3], m[:3], m[:4], m[:-1], m[:2]])) + ("\0" if self.p(.02) else "")
        if L == "j":
            return num(1, 366, 3)
        if L in "de":
            return num(1, 31, 2)
        if L == "w":
            return num(0, 6, 1)
        if L == "u":
            return num(1, 7, 1)
        if L in "Hk":
            return num(0, 23, 2)
        if L in "Il":
            return num(1, 12, 2)
        if L == "M":
            return num(0, 59, 2)
        if L == "S" and sp.startswith("."):
            d = self.c([self.digits(10, n(1, 6)), "0", "5", "9" * n(1, 20), "000", "25", self.digits(10, n(10, 25)), "", "999999", "1e5"])
            return num(0, 60, 2) + self.c([".", ".", ".", ".", ".", ",", ""]) + d
        if L == "S":
            return num(0, 60, 2)
        if L in "pP":
            return self.chr_case(self.c(["am", "pm", "a.m.", "p.m.", "am", "pm", "a.m", "p", "a", "xm", "a.", "p.m"]))
        if L == "z":
            return self.c(["+", "-", "", "+", "-"]) + self.c([num(0, 14, 2), num(0, 14, 2) + num(0, 59, 2),
                           num(0, 14, 2) + ":" + num(0, 59, 2), num(0, 14, 1), "1:30", "05:3", "0530", "123", "9", "02:", "99:99", "0"])
        if L == "Z":
            return self.c(["UTC", "EET", "Europe/Helsinki", "Etc/GMT+5", "America/Port-au-Prince", "CEST", "Z", "a_b", "x1", "", "+03", "E T"])
        if L == "%":
            return "%"
        comp = {"F": ["Y", "-", "m", "-", "d"], "D": ["m", "/", "d", "/", "y"], "x": ["m", "/", "d", "/", "Y"],
                "T": ["H", ":", "M", ":", "S"], "X": ["H", ":", "M", ":", "S"], "R": ["H", ":", "M"],
                "r": ["I", ":", "M", ":", "S", " ", "p"],
                "c": ["a", " ", "b", " ", "d", " ", "H", ":", "M", ":", "S", " ", "Y"]}[L]
        return "".join(self.chr_text(x) if x.isalpha() else x for x in comp)

    def chr_fill(self, fmt):
        out = ""
        for m in re.finditer(r"%(\.?[EO]?[A-Za-z%])|(\s+)|([^%\s])", fmt):
            if m.group(1):
                s = m.group(1)
                if s in ("n", "t"):
                    out += self.ws(0, 2)
                else:
                    try:
                        out += self.chr_text(s)
                    except KeyError:
                        out += "1"
            elif m.group(2):
                out += self.ws(0, 2, .05)
            else:
                out += m.group(3)
        return out

    def chr_format(self, t):
        F = self.CHR_FIELDS
        if t == "Ttp":
            d = self.c(["%Y-%m-%d", "%F", "%D", "%x", "%d/%m/%Y", "%b %d %Y", "%d %B %Y", "%Y%m%d", "%m-%d-%C%y", "%c"])
            if d == "%c":
                return d
            return d + self.c(["", " ", "T", "-"]) + self.c([""] + F["time"] + ["%H:%M:%.S"]) + (self.c(F["zone"]) if self.p(.05) else "")
        one = {"Tday": ["%d", "%e", "%Od", "%Oe"], "Tmon": ["%m", "%b", "%B", "%h", "%Om"],
               "Tyear": ["%Y", "%y", "%C", "%C%y", "%EY", "%y%C", "%EC", "%Oy"], "Twd": ["%a", "%A", "%w", "%u", "%Ow"],
               "Tmd": ["%m-%d", "%b %d", "%d.%m", "%e%B", "%d %h", "%m%d"], "Tym": ["%Y-%m", "%m/%y", "%b %Y", "%C%y%m", "%C %B", "%y %h"],
               "Tymd": ["%F", "%D", "%x", "%Y-%m-%d", "%d%m%y", "%d %b %C%y", "%Y%m%d", "%e. %B %Y", "%C-%m-%d"]}
        if t in one:
            f = self.c(one[t])
            if self.p(.15):
                f += self.c([" %H", "%d", "%Y", "%m", "x", "%%", "%n", " ", "%t", "\u00e4", "%Z", "%a"])
            return f
        parts = []
        if self.p(.1):
            parts = [self.c(F["all"])]
        else:
            if self.p(.7):
                parts.append(self.c(F["date"]))
            if self.p(.6) or not parts:
                parts.append(self.c(F["time"] + (F["sub"] * 2 if t == "Tdt" or self.p(.05) else [])))
        if self.p(.3):
            parts.append(self.c(F["zone"]))
        if self.p(.1):
            parts.append(self.c(sum(F.values(), [])))
        if self.p(.2):
            self.r.shuffle(parts)
        f = parts[0]
        for x in parts[1:]:
            f += self.c([" ", " ", "T", "", ", ", "%n", "%t", " at ", "%%", "\u00e4", "\u2028", "-", "\u3042 "]) + x
        if not f.startswith("%") and self.p(.9):
            f = "%n" + f
        return f

    def chrono(self, n):
        for _ in range(n):
            job = self.c(self.CHRONO)
            fmt = inp = ""
            for k, t in enumerate(job.split("+")):
                if k:
                    s = self.c([" ", ",", " ;", "\u00e4 ", "|"])
                    if job.startswith("str"):
                        s = " " + s
                    fmt += s
                    inp += s
                if t == "i32":
                    fmt += "{}"
                    inp += self.c(["1", "-7", "x", "2024"])
                elif t == "str":
                    fmt += "{}"
                    inp += self.c(["abc", "1", "\u00e4", ""])
                else:
                    f = self.chr_format(t)
                    if self.p(.04):
                        k2 = self.r.randrange(len(f) + 1)
                        f = self.c([f[:k2], f[:k2] + self.c(["%", "%Q", "%q", "%s", "%E", "%O", "%g", "%U", "%.", "%.Y", "%Ed", "%OY", "%W", "x", "%+"]) + f[k2:], ""])
                    if t == "Ttp" and not re.search("%[FDxc]|%m|%b|%B", f):
                        continue
                    fmt += "{:%s}" % f if f or self.p(.5) else "{}"
                    inp += self.ws(0, 2) + self.chr_fill(f)
            inp += self.tail() if self.p(.5) else ""
            if self.p(.2) and inp:
                k = self.r.randrange(len(inp))
                inp = self.c([inp[:k], inp[:k] + inp[k + 1:], inp[:k] + self.c(" ,:-/.1a0\x0e\x0d`\xe4P\0") + inp[k:],
                              inp[:k] + chr(ord(inp[k]) ^ 32) + inp[k + 1:]])
            mode = 0 if ascii_only(fmt, inp) else self.c([8, 32])
            yield (job, mode, fmt, inp, "")

    def chrono_classic(self, n):
        """With the L flag, in the classic locale: well-formed text only"""
        two = lambda a, b: "%02d" % self.r.randint(a, b)
        for _ in range(n):
            ps = [[self.c(["%Y", "%EY"]), str(self.r.randint(1970, 2037))],
                  [self.c(["%m", "%Om"]), two(1, 12)],
                  [self.c(["%d", "%Od"]), two(1, 31)],
                  [self.c(["%H", "%OH"]), two(0, 23)],
                  [self.c(["%M", "%OM"]), two(0, 59)],
                  [self.c(["%S", "%OS"]), two(0, 59)]]
            if self.p(.3):
                ps[1] = ["%b", self.c(self.MONTHS)[:3]]
            if self.p(.3):
                ps[3:] = [[self.c(["%X", "%EX"]), two(0, 23) + ":" + two(0, 59) + ":" + two(0, 59)]]
            self.r.shuffle(ps)
            ps = ps[:self.r.randint(1, 6)]
            fmt = inp = ""
            for k, (a, b) in enumerate(ps):
                sep = self.c(["-", ":", " ", ",", " at ", "/"]) if k else ""
                fmt += sep + a
                inp += sep + b
            yield (self.c(["Ttm", "Tdt", "Ttz"]), 0, "{:L%s}" % fmt, inp + self.c(["", " ", "x", ";"]), "")

    # -------------------------------------------------------- regular expressions
    LOCALES = [("", "", ".", ".", "true", "false"), (",", ",", ".", ".", "true", "false"), (".", ".", ",", ",", "ja", "nein"),
               ("'", "'", ".", ".", "tosi", "to"), (" ", " ", ",", ",", "kyll\u00e4", "ei"), ("", "", ",", ",", "tr", "tru"),
               ("_", "\u00a0", ":", "\u066b", "\u00e4", "\u00f6")]

    def loc_int(self, ts, base=10):
        """Digits with separators, usually between them"""
        n = self.c([1, 2, 3, 4, 5, 7, 9, 10, 12])
        d = "".join(self.c("0123456789abcdefABCDEF"[:base if base < 16 else 22]) for _ in range(n))
        o = ""
        for k, ch in enumerate(d):
            if ts and k and (len(d) - k) % 3 == 0 and self.p(.7):
                o += ts
            o += ch
        if ts and self.p(.15):
            k = self.r.randint(0, len(o))
            o = o[:k] + ts + o[k:]
        return o

    def loc_text(self, t, ty, lc, wide):
        ts, dp = lc[1 if wide else 0], lc[3 if wide else 2]
        if self.p(.12):
            ts, dp = self.c([(",", "."), (".", ","), ("", "."), (" ", "."), ("'", ","), ("\0", ".")])
        sign = self.c(["", "", "-", "+"])
        if t == "bool":
            x = self.c([lc[4], lc[5], lc[4], lc[5], "true", "false", "0", "1", lc[4][:-1], lc[5][:-1], lc[4] + lc[5], lc[4].upper(), "2", ""])
            return x
        if t == "str":
            return self.loc_int(ts) + dp + "x"
        if t in ("i32", "u64", "i8", "Cwrap"):
            base = {"x": 16, "o": 8, "b": 2}.get(ty, 10)
            pre = ""
            if ty == "i" and self.p(.5):
                base, pre = self.c([(16, "0x"), (8, "0"), (2, "0b"), (8, "0o"), (10, "")])
            elif ty in ("x", "o") and self.p(.3):
                pre = {"x": "0x", "o": "0o"}[ty]
            x = self.loc_int(ts, base)
            return sign + pre + (x[-3:] if t == "i8" and self.p(.7) else x)
        k = self.r.random()
        if k < .06:
            return sign + self.c(["inf", "nan", "infinity", "nan(1)", "INF", "in"])
        hexa = ty == "a" or (ty == "" and k < .2)
        x = self.loc_int(ts, 16 if hexa else 10)
        if self.p(.75):
            x += dp + "".join(self.c("0123456789") for _ in range(self.r.randint(0, 4)))
        if self.p(.5 if ty == "e" else .2):
            x += self.c("pP" if hexa else "eE") + self.c(["", "-", "+"]) + str(self.r.randint(0, 12))
        return sign + ("0x" if hexa and self.p(.8) else "") + x

    def locales(self, n):
        jobs = ["i32", "i32", "u64", "i8", "f32", "f64", "f64", "f80", "bool", "bool", "Cwrap", "Cpoint", "str", "i32+f64", "f64+bool",
                "Cwrap+f64", "Cpoint+i32", "Rvec"]
        for _ in range(n):
            job = self.c(jobs)
            k = self.c([0, 1, 1, 2, 2, 2, 3, 4, 5, 6])
            lc = self.LOCALES[k]
            mode = self.c([8, 32])
            if job == "Rvec":
                mode = 8
            x = self.c("LLG") + str(k)
            fmt = inp = ""
            for j, t in enumerate(job.split("+")):
                if j:
                    sep = self.c([" ", " ", "", "|", "/"])
                    fmt += sep
                    inp += sep
                if t in ("Cpoint", "str"):
                    fmt += "{}"
                    inp += self.loc_text(t, "", lc, mode == 32) if t == "str" else ""
                    continue
                if t == "bool":
                    ty = self.c(["", "", "s", "d"])
                elif t[0] == "f":
                    ty = self.c(["", "", "", "a", "e", "f", "g"])
                else:
                    ty = self.c(["", "", "d", "i", "x", "o", "u", "b"])
                sp = ("L" if self.p(.75) and not (ty == "b" and self.p(.7)) else "") + ty
                if self.p(.12):
                    sp = self.c(["5", ".4", ".7", "*>6", "*<4", ".1"]) + sp
                if sp.startswith("*") and t in ("f32", "f64", "f80", "i32", "u64", "i8", "Cwrap", "bool"):
                    inp += self.c(["", "**"]) if sp[1] == ">" else ""
                fmt += "{:%s}" % sp if sp else "{}"
                if t == "Rvec":
                    inp += "[" + ", ".join(self.loc_text("i32", ty, lc, False) for _ in range(self.r.randint(0, 3))) + "]"
                else:
                    inp += self.ws(0, 2) * self.p(.2) + self.loc_text(t, ty, lc, mode == 32)
            inp += self.tail()
            if self.p(.1) and inp:
                z = self.r.randrange(len(inp))
                inp = self.c([inp[:z], inp[:z] + inp[z + 1:], inp[:z] + self.c(",.'_ x0") + inp[z:]])
            yield (job, mode, fmt, inp, x)

    def rx_atom(self, depth, cap, boost):
        """(pattern, a text it matches, can it be empty)"""
        x = self.r.random()
        if depth > 0 and x < .3:
            kind = self.c(["(", "(", "(?:"]) if cap else "(?:"
            if boost and kind == "(" and self.p(.4):
                kind = "(?<%s>" % self.c(["n", "ab", "x1", "name"])
                if kind in self._names:
                    kind = "("
                self._names.add(kind)
            p, t, e = self.rx_alt(depth - 1, cap, boost)
            return kind + p + ")", t, e
        if x < .36:
            return ".", self.c("abz19 -"), False
        if x < .5:
            k = self.c("dwsDWS")
            return "\\" + k, {"d": "7", "w": self.c("b_3"), "s": self.c(" \t"), "D": "x", "W": self.c("-. "), "S": "q"}[k], False
        if x < .68:
            cls, t = self.c([("a-c", "b"), ("abc", "c"), ("0-9", "4"), ("a-z0-9_", "k"), ("\\d", "8"), ("\\s\\d", " "), ("A-Z", "Q"),
                             ("-a", "-"), ("a-", "-"), ("\\]a", "]"), ("x\\w", "m"), (".,", "."), ("^a", "^") if False else ("+*", "*")])
            if self.p(.25):
                return "[^" + cls + "]", self.c("\u00e4Z!~ ") if not boost else self.c("Z!~ "), False
            return "[" + cls + "]", t, False
        if x < .72:
            return self.c([("\\.", "."), ("\\*", "*"), ("\\(", "("), ("\\[", "["), ("\\+", "+"), ("\\/", "/"), ("\\/", "/"), ("\\?", "?"), ("\\|", "|"), ("\\{", "{"), ("\\}", "}"), ("\\^", "^"), ("\\$", "$")]) + (False,)
        if x < .75 and not boost:
            ch = self.c(["\u00e4", "\u3042", "\U0001f600"])
            return ch, ch, False
        ch = self.c("aabbc1 -_XY,:=<>")
        return ch, ch, False

    def rx_quant(self, p, t, e, depth, boost):
        if e or self.p(.6) or (len(p) > 1 and not p.isascii()):
            return p, t, e
        if not p.isascii():
            return p, t, e
        if len(p) > 4 and any(ch in p for ch in "*+{"):
            # repetitions of repetitions take exponential time
            q, lo, hi = self.c([("?", 0, 1), ("{2}", 2, 2)])
            n = self.r.randint(lo, hi)
            return p + q, t * n, lo == 0
        q, lo, hi = self.c([("*", 0, 3), ("+", 1, 3), ("?", 0, 1), ("{2}", 2, 2), ("{1,2}", 1, 2), ("{1,}", 1, 3), ("{0,3}", 0, 3), ("{3}", 3, 3), ("{0}", 0, 0)])
        n = self.r.randint(lo, hi)
        return p + q + (self.c(["?", ""]) if self.p(.4) else ""), t * n, lo == 0

    def rx_seq(self, depth, cap, boost):
        ps = ts = ""
        empty = True
        for _ in range(self.r.randint(1, 3)):
            quant = self.p(.5)
            p, t, e = self.rx_atom(depth, cap and not quant, boost)
            if quant:
                p, t, e = self.rx_quant(p, t, e, depth, boost)
                if self.p(.1) and len(p) < 4 and cap:
                    p = "(" + p + ")"
            ps += p
            ts += t
            empty = empty and e
        return ps, ts, empty

    def rx_alt(self, depth, cap, boost):
        alts = [self.rx_seq(depth, cap, boost) for _ in range(self.c([1, 1, 1, 2, 2, 3]))]
        return "|".join(a[0] for a in alts), self.c(alts)[1], any(a[2] for a in alts)

    def regexes(self, n, boost=False):
        RX = "rxb" if boost else "rx"
        jobs = ["str", "str", "sv", RX, RX, RX, RX + "+str", "i32+" + RX, "str+str", "wstr"]
        for _ in range(n):
            job = self.c(jobs)
            fmt = inp = ""
            multi = False
            for k, t in enumerate(job.split("+")):
                if k:
                    s = self.c([" ", "", ",", "|", " -"])
                    fmt += s
                    inp += s
                if t == "i32" or (k and t == "str" and self.p(.5)):
                    fmt += "{}"
                    inp += self.c(["1", "-20", "x", "17"]) if t == "i32" else self.c(["ab", "x y", ""])
                    continue
                self._names = set()
                p, txt, _ = self.rx_alt(2, True, boost and t == RX)
                if self.p(.1):
                    p = self.c(["^" + p, p + "$", p + "(?=%s)" % self.c("a1 -"), p + "(?!%s)" % self.c("a1 -"), "^" + p + "$"])
                if self.p(.06):
                    p = self.c([p + "(", p + ")", ")" + p, "a" if boost else self.c(["[a", "[^", "[a-"]), "*" + p, "+", "[b-a]", "a{2,1}", p + "\\", "(?", "(" + p, "?a", ""])
                fl = self.c(["", "", "", "", "i", "n", "in", "m", "mi", "ni"])
                if self.p(.03):
                    fl += self.c(["i", "n", "z", "x", "1"] + ([] if boost else ["s"]))
                if "m" in fl and ("." not in p) and not boost:
                    multi = True
                pre = self.c(["5", "*<6", "*>5", "*^4", "1"]) if self.p(.1) else ""
                fmt += "{:%s/%s/%s}" % (pre, p, fl)
                if "i" in fl and self.p(.6):
                    txt = "".join(self.c([c.lower(), c.upper()]) if c.isascii() else c for c in txt)
                if pre.startswith("*"):
                    txt = self.c(["", "*", "**"]) + txt + self.c(["", "*", "***"])
                inp += txt
            inp += self.c(["", "", " ", "a", "1", "z9", "-", "bb", ",", "aaa"])
            if self.p(.25) and inp:
                k = self.r.randrange(len(inp))
                inp = self.c([inp[:k], inp[:k] + inp[k + 1:], inp[:k] + self.c("ab1 -XZ,") + inp[k:]])
            if multi and self.p(.5):
                k = self.r.randrange(len(inp) + 1)
                inp = inp[:k] + "\n" + inp[k:]
            if boost:
                inp = "".join(c if c.isascii() else "~" for c in inp)
            inp = inp[:14]
            if not fmt.isascii() or not inp.isascii():
                if "i" in fmt.split("/")[-1]:
                    continue
                mode = self.c([8, 32])
            else:
                mode = 0
            yield (job, mode, fmt, inp, "")

    # --------------------------------------------------------- compile time
    CT_JOBS = ["none", "i32+i32", "str+i32", "i32+str+f64", "sv+i32", "cp+ch", "rx", "rx+i32", "Ttm", "Tdt+i32", "i32+Ttm", "Cpt", "Cwrap", "Cpt+Cwrap+i32",
               "Cdiscard", "Rvec", "Rmap", "Rset", "Rpair", "Rvstr", "Rvv", "i32+Rvec"]

    def compile_time(self, n):
        from ct import SOURCES, NARROW_ONLY
        seen = set()
        for _ in range(n):
            job = self.c(self.CT_JOBS * 2 + self.ALL1 + self.TUPLES)
            ts = job.split("+") if job != "none" else []
            k = self.r.random()
            if k < .35:
                f = self.fmt_noise(len(ts))
            else:
                ids = list(range(len(ts)))
                man = self.p(.3)
                if man:
                    self.r.shuffle(ids)
                f = self.c(["", "", " ", "a", "{{", "\u00e4", "\u3042 "])
                for j in ids:
                    t = ts[j]
                    if t[0] == "T":
                        sp = ":" + self.chr_format(t) if self.p(.97) else ""
                        if self.p(.2):
                            x = self.r.randrange(len(sp) + 1)
                            sp = sp[:x] + self.c(["%", "%Q", "%q", "%s", "%E", "%O", "%g", "%U", "%.", "%.Y", "%Ed", "%OY", "%W", "x", "%+", "L", "\u00e4"]) + sp[x:]
                    elif t == "rx" or (t in ("str", "sv", "wstr", "Rvstr") and self.p(.25)):
                        self._names = set()
                        p = self.rx_alt(1, True, False)[0]
                        sp = ":%s/%s/%s" % (self.c(["", "", "", "5", "*<", ".3"]), p, self.c(["", "", "i", "m", "n", "in", "ii", "z", "s"]))
                    elif t[0] in "CR":
                        sp = self.c(["", "", self.any_spec("i32"), ":d", ":", ":L", ":s", ":5", ":x", ":[a]"])
                    else:
                        sp = self.any_spec(t if self.p(.75) else self.c(self.ALL1))
                    if self.p(.1) and len(sp) > 1:
                        x = self.r.randrange(1, len(sp) + 1)
                        sp = self.c([sp[:x], sp[:x] + self.c("{}:[]./0<>^L *9-\u00e4") + sp[x:]])
                    f += "{" + (str(j) if man else "") + sp + "}" + self.c(["", "", " ", ",", "}}", "\u3042", "\u2028"])
                if self.p(.08):
                    x = self.r.randrange(len(f) + 1)
                    f = self.c([f[:x], f[:x] + self.c("{}:[]./0<>^L *") + f[x:], f + self.c(["{}", "{0}", "}", "{"])])
            w = 8 if self.p(.6) or set(ts) & NARROW_ONLY else 32
            src = self.c(list(SOURCES) + ["svl", "deque"])
            if w == 32 and src == "file":
                src = "deque"
            u = list(f.encode()) if w == 8 else [ord(c) for c in f]
            if self.p(.03):
                x = self.r.randrange(len(u) + 1)
                u = u[:x] + self.c(self.BADBYTES if w == 8 else self.BADWIDE) + u[x:]
            key = (job, w, tuple(u), src)
            if key not in seen:
                seen.add(key)
                yield (job, w, u, src)

    def compile_time_exhaustive(self, maxlen):
        import itertools
        for n in range(maxlen + 1):
            for tup in itertools.product("{}:0.<dL*", repeat=n):
                f = "".join(tup)
                if n == maxlen:
                    yield ("i32", self.c([8, 32]), "{:" + f + "}", "svl")
                else:
                    yield ("i32", self.c([8, 32]), f + "{}", "deque")
                    yield ("i32+i32", self.c([8, 32]), "{" + f + "}{1}", "str")
        for n in range(maxlen):
            for tup in itertools.product("[]^-a/sc<9. ", repeat=n):
                yield ("str", self.c([8, 32]), "{:" + "".join(tup) + "}", self.c(["svl", "deque"]))
        for t in self.ALL1 + ["rx", "Cpt", "Cwrap", "Ttm"]:
            for f in "bBdiuoxXrRaAeEfFgGsc?pLPSy%/[]{}<0.9":
                yield (t, self.c([8, 32]), "{:" + f + "}", "svl")
                yield (t, self.c([8, 32]), "{:*^9.9" + f + "}", "svl")
