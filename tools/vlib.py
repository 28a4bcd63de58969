"""Build the real library and the drivers, run work items, check events with TLC."""
import json, os, re, shutil, subprocess, sys, time, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCN_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (not a violation)."""


# ------------------------------------------------------------------- build --
COMMON = ["-g0", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARNESS,
          "-DSCN_DISABLE_FAST_FLOAT=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class Build:
    """Objects of one check, compiled in parallel from the current tree."""

    def __init__(self, scratch, sanitize=True, std="c++17", backend=0, opt="-O0", extra=(), libs=()):
        self.dir = scratch
        self.flags = ["-std=" + std, opt] + COMMON + ["-DSCN_REGEX_BACKEND=%d" % backend] + list(extra)
        if sanitize:
            self.flags += SAN
        self.libs = list(libs)
        self.cxx = None

    def _try(self, cxx, units, out):
        tag = os.path.basename(cxx)
        jobs = []
        for k, (src, defs) in enumerate(units):
            o = os.path.join(self.dir, "%s-%s-%d.o" % (os.path.basename(out), tag, k))
            jobs.append((o, [cxx] + self.flags + list(defs) + ["-c", src, "-o", o]))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: subprocess.run(j[1], capture_output=True, text=True), jobs))
        for r in res:
            if r.returncode:
                return r.stderr
        r = subprocess.run([cxx] + self.flags + [j[0] for j in jobs] + self.libs + ["-o", out],
                           capture_output=True, text=True)
        for j in jobs:
            os.unlink(j[0])
        return r.stderr if r.returncode else None

    def link(self, name, units):
        out = os.path.join(self.dir, name)
        units = [(REPO + "/src/scn/impl.cpp", [])] + \
                [(os.path.join(HARNESS, s), d) for s, d in units]
        errs = []
        for cxx in ("clang++", "g++"):
            err = self._try(cxx, units, out)
            if err is None:
                self.cxx = cxx
                return out
            errs.append(err[:3000])
        raise CheckError("build failed:\n" + "\n".join(errs))


# ------------------------------------------------------------------- drive --
def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:suppressions=" + HARNESS + "/tsan.supp"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def run_out(cmd):
    return subprocess.run(cmd, env=env(), capture_output=True, text=True, check=True).stdout


def units(text, mode):
    """Code units of a str (valid text), or a list given as it is."""
    if isinstance(text, (list, tuple)):
        return list(text)
    return list(text.encode("utf-8")) if mode != 32 else [ord(c) for c in text]


def work_line(idx, it):
    job, mode, fmt, inp, extra = it
    return "%d\t%s\t%d\t%s\t%s\t%s\n" % (
        idx, job, mode, ",".join(map(str, units(fmt, mode))),
        ",".join(map(str, units(inp, mode))), extra)


def workers(items, nproc):
    return max(1, min(nproc, (len(items) + 199) // 200))


def drive(binary, items, scratch, tag="w", extra_env=None, nproc=NPROC):
    """Run the items on the real library; returns the recorded events (dicts' JSON lines)."""
    n = workers(items, nproc)
    procs = []
    for k in range(n):
        w = os.path.join(scratch, "%s%d.work" % (tag, k))
        o = os.path.join(scratch, "%s%d.ev" % (tag, k))
        with open(w, "w") as f:
            for idx in range(k, len(items), n):
                f.write(work_line(idx, items[idx]))
        e = open(os.path.join(scratch, "%s%d.err" % (tag, k)), "w")
        procs.append((subprocess.Popen([binary, w, o, scratch], env=dict(env(), **(extra_env or {})), stdout=e, stderr=e,
                                       stdin=subprocess.DEVNULL), w, o, e))
    lines = []
    for p, w, o, e in procs:
        rc = p.wait()
        e.close()
        if rc != 0:
            raise CheckError("driver failed (%d): %s" % (rc, open(e.name).read()[-2000:]))
        got = open(o).read().splitlines()
        lines += got
        os.unlink(w)
        os.unlink(o)
    seen = 0
    out = []
    for ln in lines:
        if ln.startswith('{"skip"'):
            seen += 1
            continue
        seen += 1
        out.append(ln)
    if seen != len(items):
        raise CheckError("driver recorded %d events for %d items" % (seen, len(items)))
    return out


# --------------------------------------------------------------------- TLC --
def tlc(module, cfg=None, env_extra=None, workers=NPROC, timeout=800, args=(), heap="6g"):
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch_root())
    e = dict(os.environ)
    e.update(env_extra or {})
    cmd = ["java", "-Xss128m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if r.returncode != 0 or not m or "No error has been found" not in out:
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, out[-6000:]))
    return out, int(m[-1][0]), int(m[-1][1])


def simulate(module, cfg, num, depth, seed, workers=4, timeout=300):
    """Behaviours of the specification: what it prints in simulation mode, as (tag, parsed JSON)."""
    md = tempfile.mkdtemp(prefix="sim", dir=scratch_root())
    cmd = ["java", "-Xss128m", "-Xmx4g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-simulate", "num=%d" % max(1, num // workers), "-depth", str(depth), "-seed", str(seed),
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg + ".cfg", module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out simulating " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    got = [json.loads(json.loads('"' + x + '"')) for x in
           re.findall(r'<<"HIST", "((?:[^"\\]|\\.)*)">>', r.stdout)]
    if r.returncode != 0 or not got:
        raise CheckError("TLC simulation of %s failed:\n%s" % (module, (r.stdout + r.stderr)[-3000:]))
    m = re.findall(r"states generated: (\d+)", r.stdout)
    return got, int(m[-1]) if m else 0


_root = None


def scratch_root():
    global _root
    if _root is None:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        _root = tempfile.mkdtemp(prefix="run", dir=base)
    return _root


def cleanup():
    global _root
    if _root:
        shutil.rmtree(_root, ignore_errors=True)
        _root = None


def check_events(module, lines, scratch, extra_env=None):
    """Indices (into lines) of the events the specification rejects, and the state count."""
    if not lines:
        return [], 0
    f = os.path.join(scratch, "events.ndjson")
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    # small chunks: TLC's queue hands them to the workers evenly
    chunks = max(1, min(256, len(lines) // 8))
    size = (len(lines) + chunks - 1) // chunks
    used = (len(lines) + size - 1) // size
    env_extra = {"EVENTS": f, "CHUNKS": str(chunks)}
    env_extra.update(extra_env or {})
    out, gen, distinct = tlc(module, env_extra=env_extra)
    os.unlink(f)
    bad = sorted(set(int(x) - 1 for x in re.findall(r'<<"BAD", (\d+)>>', out)))
    if distinct != len(lines) + used:
        raise CheckError("TLC consumed %d of %d events" % (distinct - used, len(lines)))
    return bad, distinct
