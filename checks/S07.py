"""S07: callables across the boundary (spec/Callable.tla, harness/callable)."""
from vf import *
from e2e import *

H = os.path.join(VERIF, "harness", "callable")
SIGS = ["fn", "mut", "once"]
SHAPES = ["int", "void", "mref", "tok", "mix"]
OPS = ["new", "assign", "makebox", "default", "nullptr", "movenew", "moveassign", "selfmove", "null", "swap", "stdswap", "adlswap", "destroy",
       "call", "callconst", "reset", "unmake", "callspent", "toany", "callany", "moveany", "destroyany", "anytorust", "torust", "callbox", "calldud",
       "dropbox", "boxtocpp"]
# shape -> (Rust closure type, its parameters, Rust result, C++ signature, Rust thunk parameters, the arguments it passes, thunk result,
#           closure body from `add`, a call from Rust of `f` with `x`)
RS = {
    "int": ("(i32) -> i32", "x: i32", "i32", "int(int)", ", p0: i32", "p0", "x + add", "f(x)"),
    "void": ("()", "", "()", "void()", "", "", "unsafe { RESULT = ARG + add }", "{ set_arg(x); f(); get_result() }"),
    "mref": ("(*mut i32)", "x: *mut i32", "()", "void(int&)", ", p0: *mut i32", "p0", "unsafe { *x += add }", "{ let mut y = x; f(&raw mut y); y }"),
    "tok": ("(Tok) -> Tok", "x: Tok", "Tok", "Tok(Tok)", ", p0: *mut Tok, out: *mut Tok", "unsafe { core::ptr::read(p0) }", "x.add(add)", "f(Tok::new(x)).v"),
    "mix": ("(i32, Tok, *mut i32) -> i32", "a: i32, b: Tok, c: *mut i32", "i32", "int(int, Tok, int&)", ", p0: i32, p1: *mut Tok, p2: *mut i32",
            "p0, unsafe { core::ptr::read(p1) }, p2", "{ unsafe { *c += b.v }; a + 3 + add }",
            "{ let mut y = 1000; let r = f(x - 3, Tok::new(x + 4), &raw mut y); if y == 1004 + x { r } else { -99 } }"),
}
# shape -> (C++ thunk declaration parameters, lambda parameters, lambda body, result)
CC = {
    "int": (", int p0", ", FP<int> p0", "return @INV(state, p0);", "int", "int"),
    "void": ("", "", "@INV(state);", "void", "void"),
    "mref": (", int& p0", ", FP<int&> p0", "@INV(state, p0);", "void", "void"),
    "tok": (", Tok* p0, Tok* out", ", FP<Tok> p0",
            "::crubit::Slot<Tok> sp(std::move(p0)); ::crubit::Slot<Tok> out; @INV(state, sp.Get(), out.Get()); return std::move(out).AssumeInitAndTakeValue();", "Tok", "void"),
    "mix": (", int p0, Tok* p1, int& p2", ", FP<int> p0, FP<Tok> p1, FP<int&> p2",
            "::crubit::Slot<Tok> sp(std::move(p1)); return @INV(state, p0, sp.Get(), p2);", "int", "int"),
}
TRAIT = {"fn": "Fn", "mut": "FnMut", "once": "FnOnce"}
QUAL = {"fn": " const", "mut": "", "once": " &&"}

RUST = """
static mut BOX_@N: [Option<Box<@D>>; 4] = [const { None }; 4];
unsafe extern "C" { fn take_@N(f: *const u8, slot: i32, op: i32); fn ret_@N(buf: *mut u8, slot: i32); }
#[unsafe(no_mangle)] unsafe extern "C" fn mgr_@N(op: dyn_callable_rs::FunctionToCall, from: *mut Box<@D>, to: *mut Box<@D>) { unsafe { dyn_callable_rs::manager(op, from, to) } }
#[unsafe(no_mangle)] unsafe extern "C" fn inv_@N(f: *mut Box<@D>@TP) -> @TR { @INVOKE }
fn closure_@N(t: i32) -> Box<@D> { let cap = Captured::new(t); @STATE Box::new(move |@P| { @PRE let add = 10 * cap.id() @MORE; @BODY }) }
fn to_cpp_@N(f: Box<@D>, slot: i32, op: i32) { unsafe { take_@N(bridge_rust::unstable_encode!(@dyn_callable_rs::DynCallableAbi::<@D>::new(Box::new(|@W| -> @R { panic!("moved-from value") })), dyn_callable_rs::DynCallableAbi<@D>, f).as_ptr() as *const u8, slot, op) } }
#[unsafe(no_mangle)] unsafe extern "C" fn give_@N(t: i32, slot: i32, op: i32) { to_cpp_@N(closure_@N(t), slot, op) }
#[unsafe(no_mangle)] unsafe extern "C" fn makebox_@N(t: i32, b: i32) { unsafe { BOX_@N[b as usize] = Some(closure_@N(t)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn boxgive_@N(b: i32, slot: i32, op: i32) { to_cpp_@N(unsafe { BOX_@N[b as usize].take().unwrap() }, slot, op) }
#[unsafe(no_mangle)] unsafe extern "C" fn back_@N(slot: i32, b: i32) { unsafe { BOX_@N[b as usize] = Some(bridge_rust::unstable_return!(@dyn_callable_rs::DynCallableAbi::<@D>::new(Box::new(|@W| -> @R { panic!("moved-from value") })), dyn_callable_rs::DynCallableAbi<@D>, |buf| ret_@N(buf as *mut u8, slot))) } }
#[unsafe(no_mangle)] unsafe extern "C" fn anyback_@N(state: *mut Box<@D>, b: i32) { unsafe { BOX_@N[b as usize] = Some(core::ptr::read(state)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn dropbox_@N(b: i32) { unsafe { BOX_@N[b as usize] = None } }
#[unsafe(no_mangle)] unsafe extern "C" fn callbox_@N(b: i32, x: i32) -> i32 {
    let slot = unsafe { &mut BOX_@N[b as usize] };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let f = @TAKE; @CALL })).unwrap_or(-77)
}
"""
CPP = """
extern "C" @XR inv_@N(TypeErasedState* state@XP);
extern "C" void mgr_@N(FunctionToCall op, TypeErasedState* from, TypeErasedState* to) noexcept;
extern "C" { void give_@N(int, int, int); void makebox_@N(int, int); void boxgive_@N(int, int, int); void back_@N(int, int); void anyback_@N(void*, int); void dropbox_@N(int); int callbox_@N(int, int); }
#define ABI_@N ::rs_std::internal_dyn_callable::DynCallableAbi<@S>(mgr_@N, [](TypeErasedState* state@LP) noexcept -> @LR { @LB })
extern "C" void take_@N(const unsigned char* f, int slot, int op) {
  ::crubit::Decoder d(::rs_std::internal_dyn_callable::DynCallableAbi<@S>::kSize, f);
  W<@S>::accept(ABI_@N.Decode(d), slot, op);
}
extern "C" void ret_@N(unsigned char* buf, int slot) { ::crubit::internal::Encode<::rs_std::internal_dyn_callable::DynCallableAbi<@S>>(ABI_@N, buf, std::move(*W<@S>::slot[slot].p())); }
"""


def write(p, t):
    with open(p, "w") as f:
        f.write(t)


def fill(t, d):
    for k in sorted(d, key=len, reverse=True):
        t = t.replace("@" + k, d[k])
    return t


def build(c):
    d = ensure(os.path.join(WORK, "callable"))
    rs, cc, worlds = "", "template <class T> using FP = ForwardedParameterType<T>;\n", ""
    for k in SIGS:
        for s in SHAPES:
            n = f"{k}_{s}"
            ty, params, ret, sig, tp, args, body, call = RS[s]
            callee = {"fn": "(unsafe { &*f })", "mut": "(unsafe { &mut *f })",
                      "once": '(unsafe { core::ptr::replace(f, Box::new(|%s| { core::unreachable!("Called FnOnce after it was moved") })) })'
                      % ", ".join("_" for _ in params.split(",") if params)}[k]
            inv = f"{callee}({args})"
            rs += fill(RUST, dict(N=n, D=f"dyn ::core::ops::{TRAIT[k]}{ty} + Send + Sync + 'static", TP=tp, TR="()" if s == "tok" else ret,
                                  INVOKE=f"match {inv} {{ result => unsafe {{ core::ptr::write(out, result) }} }}" if s == "tok" else inv,
                                  STATE="let mut n = 0;" if k == "mut" else "", PRE={"fn": "", "mut": "n += 100;", "once": "unsafe { running() }; let cap = cap;"}[k],
                                  P=params, MORE="+ n" if k == "mut" else "", BODY=body, W=", ".join("_: " + p.split(": ")[1] for p in params.split(", ") if p), R=ret,
                                  TAKE="slot.take().unwrap()" if k == "once" else "slot.as_mut().unwrap()", CALL=call))
            xp, lp, lb, lr, xr = CC[s]
            cc += fill(CPP, dict(N=n, S=sig + QUAL[k], XR=xr, XP=xp, LP=lp, LB=lb.replace("@INV", "inv_" + n), LR=lr))
            worlds += f'  if (n == "{n}") {{ static W<{sig + QUAL[k]}> w(Glue{{give_{n}, makebox_{n}, boxgive_{n}, back_{n}, anyback_{n}, callbox_{n}, dropbox_{n}}}); return &w; }}\n'
    write(f"{d}/glue.inc", cc + "static World* world(const std::string& n) {\n" + worlds + "  std::abort();\n}\n")
    write(f"{d}/glue_all.rs", open(H + "/glue.rs").read() + rs)
    support = support_externs()

    def rust(name, kind, path, more=()):
        rc, _, e = sh(["rustc", "--edition", "2024", "--crate-type", kind, "--crate-name", name, "-Awarnings", "-Cdebuginfo=1", "-Copt-level=1", path, "--out-dir", d,
                       *support, *more], env=rust_env(), timeout=300)
        if rc:
            raise ToolError(f"{path} does not compile: {e[:3000]}")
    rust("dyn_callable_rs", "rlib", f"{REPO}/support/rs_std/dyn_callable.rs")
    rust("glue", "staticlib", f"{d}/glue_all.rs", ["--extern", f"dyn_callable_rs={d}/libdyn_callable_rs.rlib"])
    rc, _, e = sh(["clang++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wno-everything", "-fno-color-diagnostics", "-I", H, "-I", REPO, "-I", d,
                   f"{H}/driver.cc", f"{d}/libglue.a", "-lpthread", "-ldl", "-o", f"{d}/driver"], timeout=300)
    if rc:
        raise ToolError(f"the callable harness does not compile: {e[:3000]}")
    return f"{d}/driver"


def run(c):
    drv = build(c)
    runs = [
        ("every short history of two slots", dict(NS=2, NA=0, NB=0, NT=2, MaxLen=c.pick(4, 5)), None),
        ("every short history of a slot, an AnyInvocable and a box", dict(NS=1, NA=1, NB=1, NT=2, MaxLen=c.pick(4, 5)), None),
        ("moving a spent callable about", dict(NS=2, NA=1, NB=1, NT=1, MaxLen=c.pick(6, 7), Sigs={"once"},
                                              Ops={"new", "default", "movenew", "moveassign", "adlswap", "call", "toany", "torust", "callbox", "calldud", "dropbox"}), None),
        ("random", dict(NS=3, NA=2, NB=2, NT=8, MaxLen=30), c.pick(1000, 20000)),
    ]
    for what, k, num in runs:
        K = dict(dict(MaxCalls=3, Ops=set(OPS), Sigs=set(SIGS), Shapes=set(SHAPES) if num else c.pick({"int", "tok"}, set(SHAPES))), **k)
        r = tlc("Callable", K, invariants=["TypeOK", "OneOwner", "OnceCalledOnce"], properties=["DeadStaysDead", "CallsOnlyLive"], view="View",
                emit="EmitLast" if num else "Emit", simulate=num, depth=K["MaxLen"] + 1, seed=c.seed, prune="last" if num else True)
        c.add_tlc(r, f"{what}")
        lines = [f"{h[0]['sig']}_{h[0]['shape']} {K['NT']} " + " ".join(f"{e['op']} {e['i']} {e['j']} {e['x']}" for e in h[1:]) for h in r.histories]
        for h, l, o in zip(r.histories, lines, run_sharded(drv, lines)):
            c.traces += 1
            if (bad := wrong(h, K["NT"], o)):
                c.violation(f"{h[0]['sig']} callable of shape {h[0]['shape']}: {bad}", dict(history=h, driver_line=l, observed=o), "callable")
        c.sample(f"{what}: {lines[len(lines) // 2]}")


def wrong(h, nt, o):
    if o.startswith("CRASH"):
        return "the program crashed: " + o[:1500]
    steps = o.split(";")
    for n, (e, s) in enumerate(zip(h[1:], steps)):
        at = f"step {n + 1} ({e['op']} {e['i']} {e['j']} {e['x']}): "
        r, drops, slots, tok = s.split("/")
        if r != str(e["ret"]):
            return at + f"result {r}, expected {e['ret']}"
        want = [0] + [int(x) for x in e["dead"]]
        if [int(x) for x in drops.split(",")] != want:
            return at + f"captured states destroyed {drops}, expected {want}"
        if tok != "0,0":
            return at + f"arguments or results leaked, destroyed twice or damaged ({tok})"
        for kind, part, off in (("slot", e["slots"], 0), ("AnyInvocable", e["anys"], 3)):
            for i, k in enumerate(part):
                g = slots[off + i]
                if g == "?":
                    return at + "bool() and comparison with nullptr disagree"
                if k != "spent" and g != {"absent": "-", "none": "e", "val": "v"}[k]:
                    return at + f"{kind} {i + 1} is {g}, expected {k}"
    last = steps[-1].split("/")
    made = {e["j"] for e in h[1:] if e["op"] in ("new", "assign", "makebox")}
    want = [int(t in made) for t in range(nt + 1)]
    if [int(x) for x in last[1].split(",")] != want or last[2] != "0,0":
        return f"after everything was destroyed: destroyed {last[1]} (expected {want}), {last[2]}"
