"""Shared machinery of the checks: run TLC, build harnesses from /repo, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work" if REPO == "/repo" else ".work-alt")   # another tree, another build
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(WORK, "target")


class ToolError(Exception):
    """The machinery itself failed: the check gives no answer (exit 2)."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None, inp=None, check=False):
    """Runs cmd; returns (rc, stdout, stderr). rc is -1 on a timeout."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         shell=isinstance(cmd, str), start_new_session=True)
    try:
        o, e = p.communicate(inp.encode() if isinstance(inp, str) else inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = -1
    o, e = o.decode(errors="replace"), e.decode(errors="replace")
    if check and rc != 0:
        raise ToolError(f"command failed ({rc}): {cmd}\n{o[-3000:]}\n{e[-6000:]}")
    return rc, o, e


_env = None


def rust_env():
    """The environment /opt/vp/env.sh sets, with our own target directory."""
    global _env
    if _env is None:
        _, o, _ = sh(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], check=True)
        e = dict(x.split("=", 1) for x in o.split("\0") if "=" in x)
        e["CARGO_TARGET_DIR"] = TARGET
        e["CARGO_NET_OFFLINE"] = "true"
        e.pop("BASH_FUNC_build_cpp%%", None)
        rc, sysroot, _ = sh(["rustc", "--print", "sysroot"], env=e, check=True)
        e["VF_SYSROOT"] = sysroot.strip()
        e["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
        _env = e
    return dict(_env)


def cargo_build(manifest, args=(), timeout=800, env=None, target=None):
    e = rust_env()
    if env:
        e.update(env)
    if target:
        e["CARGO_TARGET_DIR"] = target
    rc, o, err = sh(["cargo", "build", "--offline", "--manifest-path", manifest, *args],
                    timeout=timeout, env=e)
    if rc != 0:
        raise ToolError(f"cargo build of {manifest} failed:\n{err[-8000:]}")
    return e["CARGO_TARGET_DIR"]


def harness_bin(name, bins=None, timeout=800, env=None, profile="debug"):
    """Builds /verif/harness/<name> (its own workspace) and returns the binary's path."""
    d = os.path.join(VERIF, "harness", name)
    t = cargo_build(os.path.join(d, "Cargo.toml"), timeout=timeout, env=env)
    return os.path.join(t, profile, (bins or name))


def cxx_harness(name, sources, flags=(), includes=(), opt="-O0", std="c++20", compiler="clang++", libs=()):
    """Compiles /verif/harness/<name>/<sources> (and absolute paths) against /repo's headers."""
    d = ensure(os.path.join(WORK, "cxx", name))
    out = os.path.join(d, "driver")

    def one(src):
        p = src if src.startswith("/") else os.path.join(VERIF, "harness", name, src)
        o = os.path.join(d, os.path.basename(p) + ".o")
        cmd = [compiler, "-std=" + std, opt, "-g1", "-Wno-everything", "-fno-color-diagnostics", "-I", REPO, *[x for i in includes for x in ("-I", i)], *flags, "-c", p, "-o", o]
        rc, _, e = sh(cmd, timeout=600)
        if rc != 0:
            raise ToolError(f"{p} does not compile against /repo: {e[:3000]}")
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources))
    rc, _, e = sh([compiler, *flags, *objs, "-o", out, "-lpthread", *libs], timeout=300)
    if rc != 0:
        raise ToolError(f"linking {name} failed: {e[:3000]}")
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = self.distinct = self.transitions = 0
        self.histories = []
        self.raw = ""
        self.wall = 0.0
        self.module = ""
        self.depth = 0


_tlc_sem = threading.Semaphore(4)


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def tlc(module, consts=None, invariants=(), properties=(), spec="Spec", emit=None, view=None,
        constraint=None, simulate=None, depth=None, seed=1, workers=1, timeout=600,
        overrides=None, deadlock=False, postcondition=None, extra_files=None, heap="4g",
        maximal=True, prune=True):
    """Runs TLC on spec/<module>.tla.

    emit: name of an ACTION_CONSTRAINT printing "@@" \\o ToJson(history).
    simulate: None for exhaustive search, or the number of random behaviours.
    Raises ToolError when the specification itself violates one of its invariants:
    the specification is the reference, so that is a defect of the machinery.
    """
    d = tempfile.mkdtemp(prefix="tlc-", dir=ensure(os.path.join(WORK, "tmp")))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, content in (extra_files or {}).items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(content)
        mc = "MC_" + module
        defs, cfg = [], [f"SPECIFICATION {spec}"]
        for k, v in (consts or {}).items():
            # structured values go through a definition in the MC module
            if isinstance(v, str) and v.startswith("="):
                defs.append(f"c_{k} == {v[1:]}")
            else:
                defs.append(f"c_{k} == {tla_value(v)}")
            cfg.append(f"CONSTANT {k} <- c_{k}")
        for k, v in (overrides or {}).items():
            cfg.append(f"CONSTANT {k} <- {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        if view:
            cfg.append(f"VIEW {view}")
        if emit:
            cfg.append(f"ACTION_CONSTRAINT {emit}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(d, mc + ".tla"), "w") as fh:
            fh.write(f"---- MODULE {mc} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
        with open(os.path.join(d, mc + ".cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP,
               "tlc2.TLC", "-config", mc + ".cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(mc + ".tla")
        t0 = time.time()
        outp = os.path.join(d, "out.txt")
        with _tlc_sem, open(outp, "wb") as oh:
            p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=oh,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                raise ToolError(f"TLC timed out on {module} after {timeout}s")
        r = TlcResult()
        r.module = module
        r.wall = time.time() - t0
        hist, text = [], []
        with open(outp, errors="replace") as fh:
            for line in fh:
                if line.startswith('"@@'):
                    hist.append(line)
                else:
                    text.append(line)
        r.raw = "".join(text)
        r.printed = [] if emit else [json.loads(json.loads(l)[2:]) for l in hist]
        if rc != 0 or "Error:" in r.raw:
            raise ToolError(f"TLC failed on {module} (rc {rc}):\n{r.raw[-6000:]}")
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.raw)
        if m:
            r.states = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
            r.transitions = r.states
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", r.raw)
            if m:
                r.states = r.distinct = r.transitions = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", r.raw)
        if m:
            r.depth = int(m.group(1))
        if emit:
            if not hist:
                raise ToolError(f"TLC printed no history for {module}:\n{r.raw[-3000:]}")
            hs = [json.loads(json.loads(l)[2:]) for l in hist]
            r.histories = one_per_parent(hs) if prune == "last" else maximal_only(hs) if prune else hs
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_per_parent(hs):
    """The simulator prints every candidate for the last step: keeps one of each behaviour."""
    seen = {}
    for h in hs:
        seen.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
    return [v[len(k) % len(v)] for k, v in seen.items()]


def maximal_only(hs):
    """Drops the histories that are proper prefixes of another one, and duplicates."""
    if not hs or not isinstance(hs[0], list):
        seen, out = set(), []
        for h in hs:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(h)
        return out
    ks = [tuple(json.dumps(s, sort_keys=True) for s in h) for h in hs]
    prefixes = set()
    for k in ks:
        if k:
            prefixes.add(k[:-1])
    # BFS emits one history per transition, so "the parent of something" is enough
    # for exhaustive runs; simulation emits every prefix of every behaviour too.
    seen, out = set(), []
    for h, k in zip(hs, ks):
        if k in prefixes or k in seen:
            continue
        seen.add(k)
        out.append(h)
    return out


# ---------------------------------------------------------------- checks

def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.exhaustive_parts = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, note=None):
        self.states += r.distinct
        self.transitions += r.transitions
        self.extra.setdefault("specs", []).append(
            {"module": r.module, "distinct_states": r.distinct, "transitions": r.transitions,
             "histories": len(r.histories), "wall_s": round(r.wall, 2), "note": note or ""})
        log(f"[{self.prop}] TLC {r.module}{' ' + note if note else ''}: {r.distinct} distinct states, "
            f"{r.transitions} transitions, {len(r.histories)} histories, {r.wall:.1f}s")

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, data, key=None):
        """Records one violation (deduplicated by `what`); key identifies known findings."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hit.setdefault(key, k)
                    return
        if len(self.violations) < 12:
            self.violations.append((what, data))
        else:
            self.extra["more_violations"] = self.extra.get("more_violations", 0) + 1

    def finish(self):
        d = ensure(os.path.join(VERIF, "evidence"))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        for k in self.known_hit.values():
            log(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            rd = ensure(os.path.join(WORK, "replay"))
            for i, (what, data) in enumerate(self.violations):
                p = os.path.join(rd, f"{self.prop}-{i}.json")
                with open(p, "w") as fh:
                    json.dump({"property": self.prop, "what": what, "data": data}, fh, indent=1,
                              default=str)
                log(f"[{self.prop}] {what}")
                log(f"VIOLATION property={self.prop} replay={p}")
            return 1
        log(f"[{self.prop}] held: {self.states} states, {self.transitions} transitions, "
            f"{self.traces} traces on the real code, {time.time() - self.t0:.1f}s")
        if self.traces == 0:
            raise ToolError("no behaviour reached the real code: the check is vacuous")
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == prop and k["status"] == "open"]


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        return c.finish()
    except Exception as e:
        if type(e).__name__ == "GeneratedCodeError":
            c.violation(f"generated code is not accepted: {e}", {"error": str(e)})
            c.traces = max(c.traces, 1)
            return c.finish()
        if not isinstance(e, ToolError):
            import traceback
            e = ToolError(traceback.format_exc())
        # violations found before the machinery failed are still violations
        log(f"[{prop}] TOOL ERROR: {e}")
        if c.violations:
            c.extra["tool_error"] = str(e)[:500]
            return c.finish()
        return 2


def run_lines(binary, lines, timeout=600, env=None, cwd=None):
    """Feeds lines to a driver, returns its output lines (and rc)."""
    rc, o, e = sh([binary] if isinstance(binary, str) else binary, timeout=timeout,
                  inp="\n".join(lines) + "\n", env=env, cwd=cwd)
    return rc, o.splitlines(), e


def shards(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def run_sharded(binary, lines, n=8, timeout=600, env=None):
    """Runs the driver on shards of the lines in parallel.

    The driver answers each input line with exactly one output line.  A driver that
    dies (crash, abort, sanitizer report) is restarted after the line it died on,
    which is answered with "CRASH <reason>".  Returns one answer per line.
    """
    if not lines:
        return []

    def work(part):
        out, i, crashes = [], 0, 0
        while i < len(part):
            rc, o, e = run_lines(binary, part[i:], timeout=timeout, env=env)
            o = [x[3:] for x in o if x.startswith("=> ")]
            out += o[:len(part) - i]
            i += len(o)
            if i < len(part):
                tail = (e.strip().splitlines() or [""])
                why = next((x for x in tail if "ERROR" in x or "panicked" in x or "runtime error" in x or "Sanitizer" in x), tail[-1] if tail else "")
                out.append(f"CRASH rc={rc} {why[:300]}")
                i += 1
                crashes += 1
                if crashes > 25:
                    out += ["SKIPPED"] * (len(part) - i)
                    break
        return out

    parts = shards(lines, n)
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(work, parts))
    return [x for r in res for x in r]
