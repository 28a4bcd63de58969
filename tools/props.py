"""What each property's check consists of."""
import json, os, random
import vlib, ct
from gen import G, INTS, FLOATS

J1 = [("jobs1.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3)]
J3 = [("jobs3.cpp", [])]
J2 = [("jobs2.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3, 4)]
MAIN = [("main.cpp", [])]


class Check:
    """model checking of `mc` configurations + conformance of `gen()` scans"""
    mc = []              # (module, cfg) model-checked every time
    mc_thorough = []     # deeper configurations
    units = MAIN + J1 + J2
    trace = "Trace_Scan"
    level = "model_checking"
    build = {}
    stretch = 0          # items to be repeated with longer texts
    drive_env = {}       # for the driver
    nproc = vlib.NPROC
    rule = ""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.scale = 1 if tier == "quick" else 12
        self.scratch = vlib.scratch_root()

    # -- to be overridden
    def gen(self, g):
        return []

    # -- machinery
    def rng(self):
        return G("%s/%d/%s" % (self.pid, self.seed, self.tier))

    def run_mc(self):
        for m, cfg in self.mc + (self.mc_thorough if self.tier == "thorough" else []):
            out, gen, distinct = vlib.tlc(m, cfg)
            self.states += distinct
            self.transitions += gen
            self.notes.setdefault("models", []).append("%s: %d distinct states" % (cfg or m, distinct))

    def conform(self, binary, items):
        lines = vlib.drive(binary, items, self.scratch, "w", self.drive_env, self.nproc)
        bad, distinct = vlib.check_events(self.trace, lines, self.scratch)
        self.states += distinct
        self.transitions += len(lines)
        self.traces += len(lines)
        rnd = random.Random(self.seed)
        self.samples += [self.show(json.loads(x)) for x in rnd.sample(lines, min(3, len(lines)))]
        if not bad:
            return []
        # report only what happens again: alone, or after the same scans as before
        again = {}
        for b in bad[:40]:
            ev = json.loads(lines[b])
            again[ev["i"]] = ev
        redo = [items[i] for i in again]
        lines2 = vlib.drive(binary, redo, self.scratch, "again", self.drive_env, self.nproc)
        bad2, _ = vlib.check_events(self.trace, lines2, self.scratch)
        if bad2:
            return [self.save(redo[json.loads(lines2[b])["i"]], json.loads(lines2[b])) for b in bad2]
        if len(items) == 1:
            return []
        lines3 = vlib.drive(binary, items, self.scratch, "again", self.drive_env, self.nproc)
        lines3 = [x for x in lines3 if json.loads(x)["i"] in again]
        bad3, _ = vlib.check_events(self.trace, lines3, self.scratch)
        n = vlib.workers(items, self.nproc)
        out = []
        for b in bad3:
            ev = json.loads(lines3[b])
            out.append(self.save(items[ev["i"]], ev, [items[k] for k in range(ev["i"] % n, ev["i"] + 1, n)]))
        return out

    def save(self, item, ev, history=None):
        d = os.path.join(vlib.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, self._n()))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "item": item, "observed": ev, "shown": self.show(ev), "build": self.build, "mode": self.mode,
                       "history": history}, f)
        print("  rejected by the specification: " + self.show(ev))
        return p

    _k = 0

    def _n(self):
        self._k += 1
        return self._k

    @staticmethod
    def show(ev):
        def d(u):
            try:
                return bytes(u).decode() if ev["w"] == 8 else "".join(map(chr, u))
            except Exception:
                return str(u)
        return "%s w=%d fmt=%r input=%r %s -> %s" % (
            "+".join(ev["t"]), ev["w"], d(ev["f"]), d(ev["s"]), ev.get("x", ""),
            "; ".join("[%s] e=%d n=%d v=%s" % (r["src"], r["e"], r["n"], json.dumps(r["v"])) for r in ev["r"]))

    mode = 0             # which part of the check, where it has several

    def set_mode(self, mode):
        self.mode = mode

    def make(self):
        return vlib.Build(self.scratch, **self.build).link("drv", self.units)

    def run(self):
        binary = self.make()
        self.run_mc()
        g = self.rng()
        items = list(self.gen(g))
        items += g.stretched([x for x in items if self.stretchable(x)], self.stretch * self.scale)
        return self.conform(binary, items)

    def stretchable(self, item):
        return True

    def replay(self, path):
        d = json.load(open(path))
        self.build = d.get("build", self.build)
        self.set_mode(d.get("mode", 0))
        binary = self.make()
        if d.get("history"):
            self.nproc = 1
            return self.conform(binary, [tuple(x) for x in d["history"]])
        return self.conform(binary, [tuple(d["item"])])

    def write_evidence(self, wall, nviol):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples, "rule": self.rule}
        cov.update(self.notes)
        d = os.path.join(vlib.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": cov, "wall_s": round(wall, 1), "violations": nviol}, f, indent=1)


PROPS = {}


def prop(pid):
    def deco(cls):
        PROPS[pid] = cls
        return cls
    return deco



# ---------------------------------------------------------------- scanning --
class ScanCheck(Check):
    """scans through the format-string interface from every kind of source"""
    mix = 250
    stretch = 500

    def gen(self, g):
        yield from self.focus(g, self.scale)
        for k in (g.ints, g.strings, g.scalars, g.widths, g.lits, g.formats, g.general, g.broken):
            yield from k(self.mix * self.scale)
        yield from g.floats(self.mix // 2, types=["f32", "f80", "f64"])
        yield from g.long_texts(30 * self.scale)


@prop("C01")
class Partition(ScanCheck):
    mc = [("MC", "MC_formats")]
    mc_thorough = [("MC", "MC_formats_deep")]

    def focus(self, g, k):
        yield from g.general(5000 * k)
        yield from g.formats(2000 * k)
        yield from g.exhaustive([("i32+str", "{} {}"), ("i32+i32", "{},{}"), ("str", " a{} {{"), ("cp+cp+cp", "{}{} {}")],
                                "1a -,{", 4 if k == 1 else 6)


@prop("C02")
class Sources(ScanCheck):
    mc = [("MC_Source", "MC_Source")]
    mc_thorough = [("MC_Source", "MC_Source_deep")]

    def focus(self, g, k):
        for it in g.general(2500 * k):
            yield it[:4] + ("files",)
        for it in g.strings(1200 * k):
            yield it[:4] + ("files",)
        for it in g.widths(1200 * k):
            yield it[:4] + ("files",)
        for it in g.lits(800 * k):
            yield it[:4] + ("files",)
        for it in g.floats(300 * k, types=["f32", "f80"]):
            yield it[:4] + ("files",)
        for it in g.ints(1500 * k):
            yield it[:4] + ("files",)
        for it in g.long_texts(250 * k):
            yield it[:4] + ("files",)
        for gen in (g.general, g.strings, g.lits, g.widths, g.ints):
            yield from g.other_sources(gen(1500 * k))
    units = MAIN + J1 + J2 + [("jobs_src.cpp", ["-DPART=%d" % k]) for k in (1, 2)]


@prop("C05")
class Formats(ScanCheck):
    mc = [("MC", "MC_formats")]
    mc_thorough = [("MC", "MC_formats_deep")]

    def focus(self, g, k):
        yield from g.formats(9000 * k)
        yield from g.format_exhaustive(3 if k == 1 else 4)
        yield from g.many_args(60 * k)
    units = MAIN + J1 + J2 + J3


@prop("C06")
class Literals(ScanCheck):
    mc = [("MC", "MC_formats")]
    mc_thorough = [("MC", "MC_formats_deep")]

    def focus(self, g, k):
        yield from g.lits(9000 * k)
        yield from g.exhaustive([("none", " "), ("none", "a b"), ("none", "\u00e4 \u3042"), ("none", "{{ }}"), ("none", "a\u2028b"),
                                 ("none", "aa"), ("i32", " {} "), ("str", "a{}b")], "ab \n\u00e4\u2028{", 4 if k == 1 else 5)


@prop("C07")
class Integers(ScanCheck):
    mc = [("MC", "MC_ints"), ("MC_Num", "MC_Num")]
    mc_thorough = [("MC", "MC_ints_deep"), ("MC_Num", "MC_Num_deep")]

    def focus(self, g, k):
        yield from g.ints(13000 * k)
        yield from g.digit_runs(4000 * k)
        yield from g.exhaustive([(t, "{:%s}" % s) for t in ("i8", "u8") for s in ("", "i", "x", "b", "o", "u")],
                                "01 -x9b", 4 if k == 1 else 5)


@prop("C08")
class FloatSyntax(ScanCheck):
    mc = [("MC", "MC_floats")]
    mc_thorough = [("MC", "MC_floats_deep")]

    def focus(self, g, k):
        yield from g.float_shapes(7000 * k)
        yield from g.exhaustive([("f32", "{:%s}" % s) for s in ("", "a", "e", "f")], "01.e-xp", 4 if k == 1 else 5)
        yield from g.exhaustive([("f64", "{}")], "infatyINF(1)", 3 if k == 1 else 4)


@prop("C09")
class FloatValues(ScanCheck):
    mc = [("MC_Num", "MC_Num")]
    mc_thorough = [("MC_Num", "MC_Num_deep")]
    mix = 60

    def focus(self, g, k):
        yield from g.floats(2500 * k, types=["f32"], specs=("", "", "e", "g", "a"))
        yield from g.floats(600 * k, types=["f64"], specs=("", "", "e", "g", "a"))
        yield from g.floats(1200 * k, types=["f80"], specs=("", "", "e", "g", "a"))


@prop("C10")
class StringsSets(ScanCheck):
    mc = [("MC", "MC_strings")]
    mc_thorough = [("MC", "MC_strings_deep")]

    def focus(self, g, k):
        yield from g.strings(10000 * k)
        yield from g.charset_clusters(4000 * k)
        yield from g.exhaustive([(t, f) for t in ("str", "sv") for f in ("{}", "{:[a-c]}", "{:[^a]}", "{:[^]]}", "{:[\u00e4-\u00fc]}", "{:[a\u3042]}", "{:.2c}")],
                                "ac ]\u00e4\u3042\n", 4 if k == 1 else 5)
        yield from g.long_texts(150 * k)


@prop("C11")
class Widths(ScanCheck):
    mc = [("MC", "MC_widths")]
    mc_thorough = [("MC", "MC_widths_deep")]

    def focus(self, g, k):
        yield from g.widths(12000 * k)
        yield from g.width_table(1500 * k)
        yield from g.exhaustive([(t, "{:%s}" % s) for t in ("i32", "str", "cp") for s in ("*<3", "*>3", "*^.3", "3", ".3", "*^2.3", ">2", "\u3042<4")],
                                "*1a \u3042", 4 if k == 1 else 5)


@prop("C12")
class Scalars(ScanCheck):
    mc = [("MC", "MC_scalars")]
    mc_thorough = [("MC", "MC_scalars_deep")]

    def focus(self, g, k):
        yield from g.scalars(14000 * k)
        yield from g.exhaustive([("bool", "{}"), ("bool", "{:s}"), ("bool", "{:d}")], "true01fals", 3)
        yield from g.exhaustive([("ptr", "{}"), ("ch", "{:d}"), ("wc", "{:x}"), ("cp", "{}"), ("wc", "{}")], "0x1f -\u00e4", 4)


@prop("C13")
class Encoding(ScanCheck):
    mc = [("MC_Utf", "MC_Utf"), ("MC", "MC_strings")]
    mc_thorough = [("MC_Utf", "MC_Utf_deep"), ("MC", "MC_strings_deep")]

    def focus(self, g, k):
        yield from g.broken(9000 * k)
        yield from g.byte_exhaustive(k)
        yield from g.strings(3000 * k)
        yield from g.transcode(3000 * k)


# ---------------------------------------------------------- stream histories --
@prop("C03")
class Streams(Check):
    mc = [("MC_Source", "MC_Source"), ("MC_File", "MC_File")]
    mc_thorough = [("MC_Source", "MC_Source_deep"), ("MC_File", "MC_File_deep")]
    units = MAIN + [("jobs_file.cpp", [])]
    trace = "Trace_File"

    def gen(self, g):
        hists, n = vlib.simulate("MC_File", "Gen_File", 3200 * self.scale, 40, self.seed)
        self.transitions += n
        for h in hists:
            yield ("hist", 8, "", h["t"], ";".join("%s%d" % (o[0], o[1]) for o in h["h"]))
        yield from g.long_histories(64 * self.scale)

    @staticmethod
    def show(ev):
        return "history %s on %r -> %s" % (ev["x"], bytes(ev["s"]), "; ".join(
            "[%s] %s" % (r["src"], " ".join("%s%d:e%d:%s" % (o["o"], o["a"], o["e"], json.dumps(o["v"])) for o in r["v"])
                         if r["e"] == 0 else "e=%d" % r["e"]) for r in ev["r"]))


@prop("C04")
class Chains(Check):
    mc = [("MC", "MC_formats")]
    mc_thorough = [("MC", "MC_formats_deep")]
    units = MAIN + [("jobs_chain.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3)]
    trace = "Trace_Chain"

    def gen(self, g):
        yield from g.chains(9000 * self.scale)


@prop("C18")
class EntryPoints(Check):
    stretch = 400
    mc = [("MC", "MC_ints")]
    mc_thorough = [("MC", "MC_ints_deep")]
    units = MAIN + [("jobs_api.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3, 4, 5)]

    def gen(self, g):
        yield from g.api(12000 * self.scale)

    def stretchable(self, item):          # (those have a precondition on the text)
        return not item[0].startswith("xval")


@prop("C14")
class CustomScanners(Check):
    stretch = 400
    mc = [("MC", "MC_customs")]
    mc_thorough = [("MC", "MC_customs_deep")]
    units = MAIN + [("jobs_custom.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3, 4, 5)]

    def gen(self, g):
        yield from g.customs(9000 * self.scale)


@prop("C15")
class DatesTimes(Check):
    stretch = 400
    mc = [("MC", "MC_chrono")]
    mc_thorough = [("MC", "MC_chrono_deep")]
    units = MAIN + [("jobs_chrono.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3)]

    def gen(self, g):
        yield from g.chrono(9000 * self.scale)
        yield from g.chrono_classic(600 * self.scale)

    def stretchable(self, item):          # (judged on well-formed text only)
        return "L" not in item[2]


@prop("C16")
class Regexes(Check):
    mc = [("MC", "MC_regex")]
    mc_thorough = [("MC", "MC_regex_deep")]
    units = MAIN + [("jobs_regex.cpp", [])]

    def run(self):
        bad = Check.run(self)
        # the same with the other backend
        self.build = dict(backend=1, extra=["-DSCN_REGEX_BOOST_USE_ICU=1"], libs=["-lboost_regex", "-licuuc", "-licui18n", "-licudata"])
        binary = self.make()
        return bad + self.conform(binary, list(self.rng().regexes(4000 * self.scale, True)))

    def gen(self, g):
        yield from g.regexes(6000 * self.scale)


@prop("C17")
class Locales(Check):
    stretch = 400
    mc = [("MC", "MC_locales")]
    mc_thorough = [("MC", "MC_locales_deep")]
    units = MAIN + [("jobs_locale.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3)]

    def gen(self, g):
        yield from g.locales(16000 * self.scale)


@prop("C19")
class CompileTime(Check):
    """what the compiler accepts as a format string is what the specification accepts"""
    mc = [("MC", "MC_formats")]
    mc_thorough = [("MC", "MC_formats_deep")]

    def make(self):
        return None

    def gen(self, g):
        yield from g.compile_time(8000 * self.scale)
        yield from g.compile_time_exhaustive(3 if self.scale == 1 else 4)

    def conform(self, binary, items):
        items = [tuple(i) for i in items]

        def events(its):
            out = []
            for k in range(0, len(its), 20000):
                part = its[k:k + 20000]
                for it, ok in zip(part, ct.judge(self.scratch, part)):
                    job, w, fmt, src = it
                    out.append(json.dumps({"i": len(out), "x": "CT", "t": [] if job == "none" else job.split("+"), "w": w,
                                           "f": vlib.units(fmt, w), "s": [],
                                           "r": [{"src": src, "c": ct.SOURCES[src][1], "e": 0 if ok else 2, "n": 0, "v": []}]}))
            return out
        lines = events(items)
        bad, distinct = vlib.check_events(self.trace, lines, self.scratch)
        self.states += distinct
        self.transitions += len(lines)
        self.traces += len(lines)
        self.samples += [self.show(json.loads(x)) for x in random.Random(self.seed).sample(lines, min(3, len(lines)))]
        return [self.save(items[b], json.loads(lines[b])) for b in bad[:40]]


@prop("C20")
class Threads(Check):
    """mode 0: two threads on one stream; mode 1: any scans at the same time"""
    mc = [("MC_Threads", "MC_Threads")]
    mc_thorough = [("MC_Threads", "MC_Threads_deep")]

    def set_mode(self, mode):
        self.mode = mode
        if mode == 0:
            self.trace = "Trace_Thr"
            self.units = MAIN + [("jobs_thr.cpp", [])]
            self.build = dict(libs=["-ldl", "-pthread"])
            self.drive_env, self.nproc = {}, vlib.NPROC
        else:
            self.trace = "Trace_Scan"
            self.units = MAIN + [("jobs_regex.cpp", []), ("jobs_chrono.cpp", ["-DPART=1"]),
                                 ("jobs_custom.cpp", ["-DPART=3"]), J2[1]] + J1   # of two jobs with a name, the latter stays
            self.build = dict(sanitize=False, extra=["-fsanitize=thread"], libs=["-pthread"])
            self.drive_env, self.nproc = {"PAR": "1"}, max(1, vlib.NPROC // 2)

    def run(self):
        self.set_mode(0)
        bad = Check.run(self)
        self.set_mode(1)
        binary = self.make()
        try:
            self.names()
        except Exception:    # no ThreadSanitizer here: the outcomes alone have to tell
            self.build = dict(libs=["-pthread"])
            self.notes["threads"] = "without ThreadSanitizer"
            binary = self.make()
        return bad + self.conform(binary, list(self.mixed(self.rng())))

    def gen(self, g):
        yield from g.threads(1500 * self.scale)

    def mixed(self, g):
        k = self.scale
        items = []
        for gen in (g.ints, g.strings, g.scalars, g.widths, g.formats, g.general):
            items += gen(300 * k)
        items += g.floats(300 * k)
        items += g.chrono(600 * k)
        items += g.customs(600 * k)
        items += [i for i in g.regexes(700 * k) if "rx" in i[0]]
        names = self.names()
        g.r.shuffle(items)
        return [i for i in items if i[0] in names]

    def names(self):
        return set(vlib.run_out([os.path.join(self.scratch, "drv"), "--names"]).split())


@prop("C21")
class Surroundings(Check):
    """scans under other locales of the program, and after other scans"""
    mc = [("MC", "MC_scalars")]
    mc_thorough = [("MC", "MC_scalars_deep")]
    units = MAIN + J1 + J2 + [("jobs_chrono.cpp", ["-DPART=%d" % k]) for k in (1, 2, 3)]
    drive_env = {"AMBIENT": "1"}
    nproc = 4 * vlib.NPROC    # each with other surroundings at its start

    def gen(self, g):
        k = self.scale
        for it in self.all(g, k):
            if "L" not in it[2]:    # asks for the program's locale
                yield it

    def all(self, g, k):
        for gen in (g.ints, g.strings, g.scalars, g.widths, g.lits):
            yield from gen(900 * k)
        yield from g.general(2500 * k)
        yield from g.formats(600 * k)
        yield from g.floats(1200 * k)
        yield from g.float_shapes(500 * k)
        yield from g.chrono(2000 * k)
