"""Search for a failing input on the real code: the library, compiled with sanitizers, is driven by
pseudo random scripts and its trace is compared with the contracts executed as programs (oracle.py)."""
import os, subprocess, time, sys, re
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
import chartgen, chartlist, oracle
from unit import REPO, VERIF

CXX = ["clang++", "-std=c++17", "-g1", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-I" + REPO + "/include", "-I" + VERIF + "/inst", "-DBOOST_DISABLE_THREADS"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
CHUNK = 1500


class Driver:
    def __init__(self, chart, tr=False, relaxed=False, flags=(), groups=()):
        self.groups = tuple(groups)
        self.chart, self.tr, self.relaxed = chart, tr, relaxed
        self.flags = list(flags) + (["-DVC_TRANSLATOR"] if tr else []) + (["-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT"] if relaxed else [])
        self.name = chart.name + "".join(re.sub(r"\W", "_", f[2:]) for f in self.flags) + "".join("_" + g for g in groups)

    def compile(self, out):
        self.src = "%s/drive_%s.cpp" % (out, self.name)
        self.exe = self.src[:-4]
        open(self.src, "w").write(chartgen.driver(self.chart, self.groups))
        r = subprocess.run(CXX + self.flags + [self.src, "-o", self.exe], capture_output=True, text=True)
        self.error = r.stderr[-2000:] if r.returncode else None
        return self

    def play(self, first, count, live=False, timeout=60):
        try:
            r = subprocess.run([self.exe, str(first), str(count)] + (["live"] if live else []), capture_output=True, timeout=timeout, env=ENV)
            return r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as x:
            return (x.stdout or b"").decode(errors="replace"), "does not come to an end", -1

    def chunk(self, first):
        """first seed in [first, first + CHUNK) whose trace is wrong, or None"""
        o = oracle.Oracle(self.chart, self.tr, self.relaxed, self.groups)
        got, err, rc = self.play(first, CHUNK)
        parts = got.split("== ")[1:]
        for i, b in enumerate(parts):
            want, ok = o.run(first + i)
            if ok and ("== " + b).rstrip("\n").split("\n") != want:
                return first + i
        return first + max(len(parts) - 1, 0) if rc else None

    def explain(self, seed):
        want, ok = oracle.Oracle(self.chart, self.tr, self.relaxed, self.groups).run(seed)
        got, err, rc = self.play(seed, 1, True, 20)
        g = got.rstrip("\n").split("\n")
        n = next((i for i in range(max(len(g), len(want))) if i >= len(g) or i >= len(want) or g[i] != want[i]), None)
        if n is None and not rc:
            return None         # not reproducible
        n = len(want) if n is None else n
        o = ["chart %s%s, script %d (inst/driver.hpp, inst/drivermain.hpp)" % (self.chart.name, " with " + " ".join(self.flags) if self.flags else "", seed),
             "reproduce: the program below, run with arguments: %d 1 live" % seed,
             "  " + " ".join(CXX + self.flags), "", "trace up to the first difference:"]
        o += ["  " + l for l in want[:n][-60:]]
        o += ["  the contract demands: " + (want[n] if n < len(want) else "the end"),
              "  the code does:        " + (g[n] if n < len(g) else "crashes or stops" if rc else "the end")]
        if err.strip():
            o += ["", "diagnostics:"] + ["  " + l for l in err.split("\n")[:30]]
        o += ["", "chart program:"] + ["  " + l for l in chartgen.driver(self.chart, self.groups).split("\n") if l.strip()]
        return "\n".join(o)


class SelfDriver:
    """a program that runs scripts and compares with its own reference model"""
    def __init__(self, name, src, flags=(), libs=(), count=300):
        self.name, self.file, self.count = name, src, count
        self.cmd = [c for c in CXX if not ("-fsanitize=thread" in flags and "sanitize" in c)] + list(flags)
        if "-fsanitize=thread" in flags or "-pthread" in flags:
            self.cmd.remove("-DBOOST_DISABLE_THREADS")
        self.libs = list(libs)

    def compile(self, out):
        self.src = "%s/inst/%s" % (VERIF, self.file)
        self.exe = "%s/drive_%s" % (out, self.name)
        r = subprocess.run(self.cmd + [self.src, "-o", self.exe] + self.libs, capture_output=True, text=True)
        self.error = r.stderr[-2000:] if r.returncode else None
        self.got = {}
        return self

    def play(self, first, count, live=False):
        try:
            r = subprocess.run([self.exe, str(first), str(count)] + (["live"] if live else []), capture_output=True, timeout=60,
                               env=dict(ENV, TSAN_OPTIONS="halt_on_error=1"))
            return r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as x:
            return (x.stdout or b"").decode(errors="replace"), "does not come to an end", -1

    def chunk(self, first):
        out, err, rc = self.play(first * self.count // CHUNK, self.count)
        if not rc:
            return None
        s = [x for x in re.findall(r"^== (\d+)", out, re.M)]
        return int(s[-1]) if s else first * self.count // CHUNK

    def explain(self, seed):
        for i in range(3):
            out, err, rc = self.play(seed, 1, True)
            if rc:
                break
        else:
            return None
        return "\n".join(["program inst/%s, script %d" % (self.file, seed), "reproduce: " + " ".join(self.cmd + [self.src, "-o", "driver"] + self.libs) +
                          " && ./driver %d 1 live" % seed, "", "trace:"] + ["  " + l for l in out.split("\n")[-80:]] +
                         ["", "diagnostics:"] + ["  " + l for l in err.split("\n")[:40]])


def _work(a):
    return a[0].chunk(a[1])


def drivers(viol):
    """drivers for the units in which an obligation failed"""
    import registry
    out = {}
    for k, fn, v in viol:
        for d in registry.drivers(k):
            out.setdefault(d.name, d)
    return list(out.values())


def search(pid, viol, out, seed, budget):
    ds = drivers(viol)
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(lambda d: d.compile(out), ds))
    bad = [d for d in ds if d.error]
    if bad:
        return "the following program, valid according to the documentation, no longer compiles:\n%s\n\n%s" % (bad[0].error, open(bad[0].src).read())
    rounds = 0
    with mp.Pool(8) as pool:
        while ds and time.time() - t0 < budget and rounds < (8 if len(ds) < 6 else 3):
            base = (seed - 1) * 1000000 + rounds * 4 * CHUNK
            jobs = [(d, base + i * CHUNK) for i in range(4) for d in ds]
            for (d, _), s in zip(jobs, pool.imap(_work, jobs)):
                if s is not None:
                    x = d.explain(s)
                    if x:
                        pool.terminate()
                        return x
            rounds += 1
    return None
