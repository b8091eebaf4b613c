"""S08: futures polled from C++ and the C++ wakers they keep (spec/Future.tla, harness/future)."""
import random
from vf import *
from e2e import *

KINDS = {"val", "me", "echo", "twice", "byte", "wide", "big", "text", "unit", "ref"}
ALLC = {"base", "release", "new", "poll", "move", "drop", "discard", "ask", "take", "handle"}
WAKES = {"base", "release", "new", "poll", "drop", "handle"}


def ops(*names):
    """The operations of a script, as a TLA+ set: letters and the handles they write."""
    return "={" + ", ".join(f'<<"{x[0]}", {x[1:] or 0}>>' for x in names) + "}"


def dyn_future():
    """support/rs_std/dyn_future.rs, with the one type of cpp_waker's bindings it names."""
    g = generator()
    d = g["dir"]
    stub = os.path.join(d, "cpp_waker.rs")
    with open(stub, "w") as f:
        f.write("pub mod rs_std { #[repr(C)] pub struct CppWaker { _p: [u8; 0] } }\n")
    out = []
    for name, src in (("cpp_waker", stub), ("dyn_future", REPO + "/support/rs_std/dyn_future.rs")):
        rc, o, e = sh(["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", name, "-Awarnings", src,
                       "-o", f"{d}/lib{name}.rlib", "-L", d, *out], env=rust_env(), timeout=300)
        if rc != 0:
            raise ToolError(f"{name} does not compile: {first_errors(e)}")
        out += ["--extern", f"{name}={d}/lib{name}.rlib"]
    return out


def run(c):
    generator(); stdlib()
    full = ops("r", "w", "d", "c1", "c2", "u1", "u2")
    base = dict(NS=1, NH=1, Bases={1}, MaxVals=1, MaxObjs=1, MaxLen=9, MaxOps=1, Kinds={"val"}, OpSet=full, Cmds=ALLC)
    runs = [
        ("every kind of result, every script of up to two operations", {**base, "Kinds": KINDS, "NH": 2, "MaxLen": 6, "MaxOps": c.pick(2, 3), "MaxObjs": c.pick(4, 5), "Cmds": {"base", "release", "new", "poll", "drop"}}, None),
        ("two futures, moved and dropped", {**base, "NS": 2, "MaxVals": 2, "Kinds": {"val", "echo"}, "MaxLen": c.pick(9, 11), "MaxOps": 1, "OpSet": ops("c1", "u1"), "MaxObjs": 3}, None),
        ("two suspensions, two handles, counted waker", {**base, "NH": 2, "MaxVals": 2, "Kinds": {"twice"}, "MaxLen": c.pick(8, 11), "MaxObjs": 4, "MaxOps": 1, "Cmds": WAKES}, None),
        ("copied waker", {**base, "Bases": {2}, "NH": 2, "Kinds": {"val"}, "MaxLen": c.pick(7, 8), "MaxObjs": c.pick(5, 6), "MaxOps": 2, "OpSet": ops("r", "w", "c1", "u1", "u2"), "Cmds": WAKES}, None),
        ("a counted and a copied waker", {**base, "Bases": {1, 2}, "NH": 2, "Kinds": {"val"}, "MaxLen": c.pick(7, 8), "MaxObjs": 5, "OpSet": ops("c1", "u1", "u2"), "Cmds": WAKES}, None),
        ("DynFuture", {**base, "Bases": {3, 4}, "NS": 2, "NH": 1, "MaxVals": 2, "Kinds": {"dyn"}, "MaxLen": c.pick(7, 9), "MaxObjs": 4, "OpSet": ops("w", "c1", "u1")}, None),
        ("random", {**base, "Bases": {1, 2, 3, 4}, "NS": 4, "NH": 4, "MaxVals": 12, "MaxObjs": 60, "MaxLen": c.pick(30, 60), "Kinds": KINDS | {"dyn"},
                    "OpSet": ops("r", "w", "d", "c1", "c2", "u3", "u4")}, c.pick(120, 1500)),
    ]

    def spec(r):
        what, K, num = r
        return tlc("Future", K, ["Counted", "Unique", "Alive", "OneOwner", "LiveHasArg"], ["NoRevival"], view="View", emit="EmitLast" if num else "Emit",
                   simulate=num, depth=K["MaxLen"] if num else None, seed=c.seed, workers=4)

    cr = Crate("future_user", open(os.path.join(VERIF, "harness/future/user.rs")).read(), extra=["--crate-feature=self=async_fn_send_modulo_regions"], rustc_args=[*support_externs(), *dyn_future()])
    cc = open(os.path.join(VERIF, "harness/future/driver.cc")).read().replace("MOD", cr.name)
    try:
        with ThreadPoolExecutor(5) as ex:
            fb = ex.submit(cr.build, cc, ("-O0",), (), SUPPORT_SRC + [REPO + "/support/rs_std/waker.cc", REPO + "/support/rs_std/cpp_waker.cc"])
            res = list(ex.map(spec, runs))
            try:
                drv = fb.result()
            except GeneratedCodeError as e:
                return c.violation(f"the bindings of the crate of async functions cannot be used: {e}", {"error": str(e)})
        rng = random.Random(c.seed)
        seen = set()
        for (what, _, num), r in zip(runs, res):
            c.add_tlc(r, what)
            todo = []
            for h in r.histories:
                k = tuple(map(tuple, h))
                if k in seen:
                    continue
                seen.add(k)
                moved = rng.random() < 0.3      # some histories run partly on other threads
                line = ";".join(("~" if moved and rng.random() < 0.5 else "") + x[0] for x in h)
                todo.append((h, line, ";".join(x[1] for x in h) + ";left 0 live 0"))
            for (h, line, want), o in zip(todo, run_sharded(drv, [t[1] for t in todo])):
                c.traces += 1
                if o != want:
                    c.violation(f"{explain(h, want, o)} [commands: {line}]", {"history": h, "commands": line, "expected": want, "observed": o})
            if todo:
                t = todo[len(todo) // 2]
                c.sample(f"{what}: {t[1]} -> {t[2]}")
    finally:
        cr.clean()


NAME = {"C": "clone of waker", "R": "wake by reference of waker", "X": "wake of waker", "D": "destruction of waker", "F": "end of waker", "v": "end of value", "=": "the result", "?": "pending"}


def explain(h, want, got):
    w, g = want.split(";"), got.split(";")
    for i, (a, b) in enumerate(zip(w, g)):
        if a != b:
            if i < len(h):
                return f"{h[i][0]!r} must say {a.strip()!r}, observed {b.strip()!r}"
            return f"afterwards {b.strip()!r} wakers and values are left"
    return f"the program ended early: {got[-120:]}"
