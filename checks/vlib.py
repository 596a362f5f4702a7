"""Shared machinery of the checks: build from /repo, drive, run TLC, report."""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NSASM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = ":".join(["/opt/veriftools/tla/tla2tools.jar",
                   "/opt/veriftools/tla/CommunityModules-deps.jar"])
CXXFLAGS = ("-std=c++20 -g1 -O1 -w -fno-omit-frame-pointer "
            "-fsanitize=address").split()
ABSL_PC = ("absl_flat_hash_map absl_flat_hash_set absl_strings "
           "absl_str_format absl_inlined_vector absl_span absl_memory "
           "absl_optional absl_variant").split()
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"


class CheckError(Exception):
    """The check itself could not run: an error exit, never a violation."""


class Crash:
    def __init__(self, why, stderr):
        self.why, self.stderr = why, stderr


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, capture_output=True, **kw)


# ---------------------------------------------------------------- building --

class Build:
    """Compiles /repo's sources (working tree) and the drivers of /verif."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        r = sh([sys.executable, f"{HARNESS}/absl_compat.py", f"{BUILD}/absl"])
        if r.returncode:
            raise CheckError("absl_compat: " + r.stdout + r.stderr)
        self.libs = sh(["pkg-config", "--libs", *ABSL_PC]).stdout.split()

    def repo_sources(self):
        out = []
        for d in ("nsasm",):
            for base, _, files in os.walk(os.path.join(REPO, d)):
                for f in sorted(files):
                    if f.endswith((".cc", ".cpp")) and not f.endswith("_test.cc"):
                        out.append(os.path.join(base, f))
        return out

    @staticmethod
    def _obj(src):
        rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else \
            os.path.relpath(src, VERIF)
        return f"{BUILD}/obj/" + rel.replace("/", "_") + ".o"

    def ninja(self, sources, keep_going=False):
        """Compiles sources; returns {src: obj or None}, error text."""
        lines = ["rule cxx",
                 "  command = g++ " + " ".join(CXXFLAGS) +
                 f" -iquote {REPO} -iquote {HARNESS} -I{BUILD}/absl -MMD -MF $out.d"
                 " -c $in -o $out",
                 "  depfile = $out.d", "  deps = gcc", ""]
        objs = {}
        for s in sources:
            objs[s] = self._obj(s)
            lines.append(f"build {objs[s]}: cxx {s}")
        os.makedirs(f"{BUILD}/obj", exist_ok=True)
        tag = hashlib.sha1("\n".join(sources).encode()).hexdigest()[:8]
        nf = f"{BUILD}/obj/{tag}.ninja"
        with open(nf, "w") as f:
            f.write(f"builddir = {BUILD}/obj/{tag}\n" + "\n".join(lines) + "\n")
        os.makedirs(f"{BUILD}/obj/{tag}", exist_ok=True)
        for s in sources:   # never link a stale object of a failing compile
            pass
        r = sh(["ninja", "-f", nf] + (["-k", "0"] if keep_going else []))
        if r.returncode:
            for s in sources:
                q = sh(["ninja", "-f", nf, "-n", objs[s]])
                if "no work to do" not in q.stdout:
                    objs[s] = None
        return objs, (r.stdout + r.stderr if r.returncode else "")

    def driver(self, name, stems=(), main=None):
        """Links driver `name` (harness/<name>.cc) with the named repository
        sources; with all of them if that is not enough."""
        main = main or f"{HARNESS}/{name}.cc"
        exe = f"{BUILD}/bin/{name}"
        os.makedirs(f"{BUILD}/bin", exist_ok=True)
        if os.path.exists(exe):
            os.unlink(exe)
        srcs = self.repo_sources()
        core = [s for s in srcs
                if os.path.splitext(os.path.basename(s))[0] in stems]
        err = ""
        for group, kg in ((core, False), (srcs, True)):
            if not stems and group is core:
                continue
            objs, err = self.ninja([main] + group, keep_going=kg)
            if objs[main] is None or (group is core and None in objs.values()):
                if objs[main] is None and group is srcs:
                    break
                continue
            use = [o for o in objs.values() if o]
            arch = use[1:]
            lib = f"{BUILD}/bin/{name}.a"
            if os.path.exists(lib):
                os.unlink(lib)
            cmd = []
            if arch:
                sh(["ar", "rcs", lib] + arch)
                cmd = [lib]
            r = sh(["g++", "-fsanitize=address", "-o", exe, use[0]] + cmd +
                   self.libs + ["-lpthread"])
            if r.returncode == 0:
                return exe
            err = err + r.stdout + r.stderr
        raise CheckError(f"building {name} failed:\n" + err[-6000:])


def run_prog(argv, stdin=None, timeout=120, cwd=None, env=None):
    """Runs a program of the code under test.  Returns (rc, out, err)."""
    e = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C")
    e.update(env or {})
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=e,
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin.encode() if stdin is not None else None,
                                 timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def run_driver(exe, commands, timeout=120, cwd=None):
    """Feeds command lines; the driver answers each with one JSON line.
    Returns (answers, crash or None); len(answers) < len(commands) on crash."""
    rc, out, err = run_prog([exe], "\n".join(commands) + "\n", timeout, cwd)
    answers = []
    for line in out.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            answers.append(json.loads(line))
        except ValueError:
            break
    crash = None
    if rc != 0 or len(answers) != len(commands):
        if rc == 3:
            raise CheckError(f"driver {exe} rejected its input: {err[-500:]}")
        first = [l for l in err.split("\n") if "ERROR" in l or "ssert" in l
                 or "terminate" in l][:2]
        crash = Crash(f"exit {rc}, {len(answers)} of {len(commands)} calls "
                      f"answered: {' '.join(first)[:300]}", err[-4000:])
    return answers, crash


# --------------------------------------------------------------------- TLC --

class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def printed(self, tag):
        """JSON payloads of PrintT("<tag> ...json...") lines."""
        res = []
        pre = f'"{tag} '
        for line in self.out.split("\n"):
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res


def tlc(module, cfg, workers=1, env=None, timeout=800, extra=(), heap="6g",
        label=None):
    """Runs TLC on spec/<module>.tla with config text or file cfg."""
    label = label or module
    work = os.path.join(BUILD, "tlc", f"{label}.{os.getpid()}")
    if os.path.exists(work):
        shutil.rmtree(work)
    os.makedirs(work)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".json")):
            os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
    if cfg.endswith(".cfg"):
        shutil.copy(os.path.join(SPEC, cfg), f"{work}/M.cfg")
    else:
        with open(f"{work}/M.cfg", "w") as f:
            f.write(cfg)
    # many run side by side: keep the small ones small
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", gc, "-cp",
           TLA_CP, "tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir",
           f"{work}/states", "-config", "M.cfg", *extra, f"{module}.tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=work, env=e, text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = Tlc(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as x:
        raise CheckError(f"TLC {label}: over {timeout} s") from x
    finally:
        shutil.rmtree(f"{work}/states", ignore_errors=True)
    if os.environ.get("VERIF_DEBUG"):
        with open(f"{BUILD}/tlc/{label}.out", "w") as f:
            f.write(t.out)
    shutil.rmtree(work, ignore_errors=True)
    return t


# ------------------------------------------------------------------ checks --

class Check:
    current = None

    def __init__(self, pid):
        Check.current = self
        self.id = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}/{self.seed}/{self.tier}")
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.violations = []
        self.known_hits = []
        self.work = os.path.join(BUILD, "work", pid)
        if os.path.exists(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        self._b = None
        self.known = load_known(pid)

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def b(self):
        if self._b is None:
            self._b = Build()
        return self._b

    def log(self, msg):
        print(f"[{self.id} {time.time() - self.t0:6.1f}s] {msg}", flush=True)

    # -- design: exhaustive TLC runs
    def model(self, module, cfg, workers=8, **kw):
        t = tlc(module, cfg, workers=workers, **kw)
        if t.rc != 0 or "No error has been found" not in t.out:
            raise CheckError(f"TLC on the specification {module} failed (rc {t.rc}):\n"
                             + t.out[-5000:])
        self.states += t.distinct
        self.transitions += t.generated
        self.log(f"TLC {kw.get('label') or module}: {t.distinct} distinct states, "
                 f"{t.generated} transitions")
        return t

    # -- conformance: traces of the code against the specification
    def validate(self, module, events, cfg=None, label=None, timeout=800, heap="6g"):
        """Validates events (list of dicts, "begin" events start independent
        traces) with Trace spec `module`.  Returns list of mismatches."""
        t = self.judge(module, events, cfg, label, timeout, heap)
        n = sum(1 for e in events if e["op"] == "begin") or 1
        bad = t.printed("MISMATCH")
        self.log(f"trace validation {label or module}: {len(events)} events, "
                 f"{n} traces, {len(bad)} mismatches")
        return bad

    def judge(self, module, events, cfg=None, label=None, timeout=800, heap="6g"):
        """Runs Trace spec `module` over events; returns TLC's output."""
        path = os.path.join(self.work, f"{label or module}.ndjson")
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        cfg = cfg or ("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"
                      "CHECK_DEADLOCK FALSE\n")
        t = tlc(module, cfg, workers=1, env={"TRACE": path}, timeout=timeout,
                label=label or module, heap=heap)
        if t.rc != 0 or "No error has been found" not in t.out:
            raise CheckError(f"TLC could not evaluate trace {path} (rc {t.rc}):\n"
                             + t.out[-5000:])
        self.traces += sum(1 for e in events if e["op"] == "begin") or 1
        self.events += len(events)
        self.states += t.distinct
        self.transitions += t.generated
        return t

    # -- reporting
    def violation(self, what, detail, key=None):
        """Reports a violation unless the committed file lists it as known."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        n = len(self.violations)
        path = os.path.join(VERIF, "build", "replay", f"{self.id}-{n}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property {self.id}\n{what}\n\n{detail}\n")
        self.violations.append((what, path))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (str, dict)) else str(s))

    def finish(self, level="model_checking"):
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events,
                "samples": self.samples or ["(none)"], **self.notes},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.id} {k['what']}")
        for what, path in self.violations[:5]:
            print(f"{what[:600]}")
            print(f"VIOLATION property={self.id} replay={path}")
        self.log("violated" if self.violations else "held")
        return 1 if self.violations else 0


def load_known(pid):
    """Lines 'known: property=<id> key=<key> <what>' of known-findings.txt."""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                out.append({"key": m[2], "what": m[3]})
    return out


def history(events, l):
    """The events of the trace that contains event number l (1-based), up to it."""
    i = l - 1
    while i > 0 and events[i]["op"] != "begin":
        i -= 1
    return events[i:l]


def show(events, limit=60):
    ev = events if len(events) <= limit else events[:1] + [{"...": len(events) - limit}] + events[-limit + 1:]
    return "\n".join(json.dumps(e)[:2000] for e in ev)
