"""E13: panics at the boundary (spec/Panic.tla, harness/panic)."""
from vf import *
from e2e import *

# what C++ does in each kind of call; every one runs exactly one Rust hook (or the destructor named)
CALLS = {
    "free": "ARM; M::free();",
    "value": "ARM; want(M::value(5, 2) == 7);",
    "Option": "ARM; want(M::opt(7) == 7u);",
    "Option with Drop": "std::optional<M::O> o(M::O::quiet()); ARM; auto r = M::optd(std::move(o)); want(r->v == 7);",
    "tuple": "ARM; auto r = M::tup({7, 1}); want(std::get<1>(r) == 7);",
    "tuple with Drop": "std::tuple<M::O, uint8_t> t(M::O::quiet(), 1); ARM; auto r = M::tupd(std::move(t)); want(std::get<1>(r).v == 7);",
    "array": "ARM; auto r = M::arr({1, 2, 7}); want(r[2] == 7);",
    "String": "ARM; auto r = M::string();",
    "Vec": "ARM; auto r = M::vector(); want(r.size() == 1);",
    "slice": "ARM; want(M::slice(rs_std::SliceRef<const uint32_t>(s, 3)) == 3);",
    "str": "auto t = rs_std::StrRef::FromUtf8(\"abc\").value(); ARM; want(M::text(t) == 3);",
    "two references": "ARM; want(M::two(x, y) == 8);",
    "returned reference": "auto p = M::P::new_(7); ARM; want(M::back(&p).v == 7);",
    "Result": "ARM; auto r = M::res(7); want(r.has_value());",
    "unsafe fn": "ARM; want(M::unsafe_fn(&x) == 7);",
    "extern C fn": "ARM; want(M::c_abi(7) == 7);",
    "no_mangle extern C fn": "ARM; want(M::c_named(7) == 7);",
    "no_mangle fn": "ARM; want(M::rust_named(7) == 7);",
    "fn given back": "auto& f = M::pointer(); ARM; want(f(7) == 7);",
    "fn as a parameter": "auto& f = M::pointer(); ARM; want(M::via(f) == 7);",
    "char": "ARM; auto r = M::chr(rs_std::char_(U'x')); want(r == rs_std::char_(U'x'));",
    "bool": "ARM; want(M::boolean(true));",
    "static constructor": "ARM; auto o = M::O::make(); want(o.v == 7);",
    "&self": "auto o = M::O::quiet(); ARM; want(o.look() == 7);",
    "&mut self": "auto o = M::O::quiet(); ARM; want(o.touch() == 7);",
    "self": "auto o = M::O::quiet(); ARM; want(std::move(o).eat() == 7);",
    "drop of self": "auto o = M::O::quiet(); ARM_('d'); want(std::move(o).swallow() == 7);",
    "Copy self": "auto p = M::P::new_(6), q = M::P::new_(1); ARM; want(p.by(q) == 7);",
    "default": "ARM_('n'); M::O o; want(o.v == 7);",
    "clone": "auto o = M::O::quiet(); ARM; M::O p(o); want(p.v == 7);",
    "clone_from": "auto o = M::O::quiet(), p = M::O::quiet(); ARM; p = o; want(p.v == 7);",
    "move construction": "auto o = M::O::quiet(); ARM_('*'); M::O p(std::move(o)); want(p.v == 7);",
    "move assignment": "auto o = M::O::quiet(), p = M::O::quiet(); ARM_('*'); p = std::move(o); want(p.v == 7);",
    "destructor": "std::optional<M::O> o(M::O::quiet()); ARM_('d'); o.reset();",
    "from": "ARM; M::O o(uint64_t{7}); want(o.v == 7);",
    "into": "auto o = M::O::quiet(); ARM; want(static_cast<uint16_t>(o) == 7);",
    "eq": "auto o = M::O::quiet(), p = M::O::quiet(); ARM; want(o == p);",
    "partial_cmp": "auto o = M::O::quiet(), p = M::O::quiet(); ARM; want((o <=> p) == std::partial_ordering::equivalent);",
    "cmp": "auto p = M::P::new_(1), q = M::P::new_(2); ARM; want((p <=> q) < 0);",
    "trait cmp": "auto p = M::P::new_(1), q = M::P::new_(2); ARM; auto r = rs_std::impl<M::P, rs::core::cmp::Ord>::cmp(p, q);",
    "display": "auto o = M::O::quiet(); std::ostringstream t; ARM; t << o; want(t.str() == \"7\");",
    "add": "auto p = M::P::new_(3), q = M::P::new_(4); ARM; want((p + q).v == 7);",
    "add_assign": "auto p = M::P::new_(3), q = M::P::new_(4); ARM; p += q; want(p.v == 7);",
    "neg": "auto p = M::P::new_(-7); ARM; want((-p).v == 7);",
    "not": "auto p = M::P::new_(0); ARM; want(!p);",
    "shl": "auto p = M::P::new_(3), q = M::P::new_(1); ARM; want((p << q).v == 6);",
    "index": "auto p = M::P::new_(7); ARM; want(p[0] == 7);",
    "next": "auto i = M::It::new_(); ARM; auto r = rs_std::impl<M::It, rs::core::iter::Iterator>::next(i); want(r == 1u);",
    "range for": "auto i = M::It::new_(); uint32_t n = 0; ARM; for (auto v : i) n += v + 1; want(n == 3);",
    "into_iter": "auto b = M::Bag::new_(); ARM; auto i = std::move(b).into_iter(); want(i.n == 2);",
    "trait method": "auto p = M::P::new_(1); ARM; want(rs_std::impl<M::P, M::Tr>::m(p, 7) == 7);",
    "static trait method": "ARM; want(rs_std::impl<M::P, M::Tr>::s() == 7);",
    "drop of a future": "{ auto f = M::later_with(M::O::quiet()); ARM_('d'); }",
    
    "drop of a Vec": "std::optional<rs_std::Vec<M::O>> v(M::many()); ARM_('d'); v.reset();",
    "clone of a Vec": "auto v = M::many(); ARM; rs_std::Vec<M::O> w(v); want(w.size() == 2);",
    "assignment of a Vec": "auto v = M::many(), w = M::many(); ARM; w = v; want(w.size() == 2);",
    "drop of a Result": "{ auto r = M::ro(); ARM_('d'); }",
    "clone of a Result": "auto r = M::ro(); ARM; auto q = r; want(q->v == 7);",
    "drop of a struct with fields": "{ auto r = M::H::new_(); ARM_('d'); }",
    "drop of an Option field": "auto r = M::H::new_(); ARM_('d'); r.o = std::nullopt;",
    "drop of an enum": "{ auto r = M::En::new_(); ARM_('d'); }",
    "poll": "auto f = M::later(7); ARM; auto r = poll(f); want(r == 7u);",
}
ALL = list(CALLS)


def kind(k):
    return f"{ALL.index(k):02d}"




def line(h):
    """The script the driver runs, and the events it must report."""
    prog, ev = "", ""
    for x in h:
        if x in ("x", "y", "h"):
            ev += x
        elif x[0] == "k":
            prog += x
            ev += "k"
        else:
            prog += x
            ev += x
    return prog, ev


def run(c):
    generator(); stdlib()
    allk, some = set(map(kind, ALL)), {kind(k) for k in ("value", "destructor", "fn as a parameter", "poll")}
    one = kind("value")
    P = {"p", "u", "i"}
    runs = [
        ("every kind, every panic, alone", dict(Kinds=allk, Panics=P, MaxSteps=6, MaxDepth=2, MaxRegions=1), None),
        ("every kind below and above a callback", dict(Kinds=allk, Panics={"p"}, MaxSteps=6, MaxDepth=4, MaxRegions=0), None),
        ("every nesting of frames and regions", dict(Kinds={one}, Panics={"p"}, MaxSteps=c.pick(11, 14), MaxDepth=6, MaxRegions=2), None),
        ("a few kinds, deep", dict(Kinds=some, Panics={"u"}, MaxSteps=c.pick(8, 9), MaxDepth=6, MaxRegions=1), None),
        ("random", dict(Kinds=allk, Panics=P, MaxSteps=40, MaxDepth=9, MaxRegions=2), c.pick(1000, 20000)),
    ]
    cr = Crate("panic_user", open(os.path.join(VERIF, "harness/panic/user.rs")).read(), rustc_args=support_externs())
    cc = open(os.path.join(VERIF, "harness/panic/driver.cc")).read().replace("MOD", cr.name)
    cc = cc.replace("CASES", "\n".join(f"    case {i}: {{ {CALLS[k]} break; }}" for i, k in enumerate(ALL)))

    def spec(r):
        what, K, num = r
        return tlc("Panic", K, ["Alternate", "CppKeepsNothing"], ["Over", "OwnPanics"], view="View", emit="Emit",
                   simulate=num, depth=60 if num else None, seed=c.seed, workers=4)
    try:
        with ThreadPoolExecutor(6) as ex:
            fb = ex.submit(cr.build, cc, ("-O0",), (), SUPPORT_SRC + [REPO + "/support/rs_std/waker.cc"])
            res = list(ex.map(spec, runs))
            try:
                drv = fb.result()
            except GeneratedCodeError as e:
                return c.violation(f"the bindings of the panicking crate cannot be used: {e}", {"error": str(e)})
        seen = set()
        for (what, _, num), r in zip(runs, res):
            c.add_tlc(r, what)
            hs = []
            for h in r.histories:
                if tuple(h) not in seen:
                    seen.add(tuple(h))
                    hs.append(h)
            todo = [(h, *line(h[:-1]), h[-1]) for h in hs]
            for (h, prog, ev, end), o in zip(todo, run_sharded(drv, [t[1] for t in todo])):
                c.traces += 1
                want = f"{ev} signal 6" if end == "abort" else f"{ev}. exit 0"
                if o != want:
                    ks = ", ".join(ALL[int(x[1:])] for x in h if x[0] == "k")
                    c.violation(f"{explain(o, ev, end)} [calls: {ks}; script {prog}]", {"history": h, "script": prog, "expected": want, "observed": o})
            if todo:
                c.sample(f"{what}: {todo[len(todo) // 2][1]} -> {todo[len(todo) // 2][3]}")
    finally:
        cr.clean()
    c.extra["kinds_of_call"] = ALL


def explain(o, ev, end):
    got = o.split(" ")[0]
    if "C" in got:
        return "a panic reached the C++ caller as an exception"
    if "G" in got:
        return "a panic unwound a C++ frame"
    if end == "abort" and not o.endswith("signal 6"):
        return "the process went on or ended otherwise after a panic at the boundary: " + o[-40:]
    return f"expected events {ev} ({end}), observed {o}"
