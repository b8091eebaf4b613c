"""E07: constants have the value they have in Rust (spec/Const.tla)."""
from vf import *
from e2e import *

PRELUDE = r'''
#include <cstdio>
#include <cstring>
#include <type_traits>
#include "support/rs_std/char.h"
#include "support/rs_std/str_ref.h"
#include "%s.h"
namespace fallback { struct Missing {}; %s }
namespace %s { using namespace fallback; }
template <class Want, class T> void show(int i, const T& v) {
  if constexpr (std::is_enum_v<T>) show<Want>(i, static_cast<std::underlying_type_t<T>>(v));
  else if constexpr (std::is_same_v<T, fallback::Missing>) printf("%%d missing\n", i);
  else if constexpr (!std::is_same_v<T, Want>) printf("%%d another type\n", i);
  else if constexpr (std::is_same_v<T, rs_std::StrRef>) {
    printf("%%d", i);
    for (size_t k = 0; k < v.size(); ++k) printf(" %%d", (unsigned char)v.data()[k]);
    puts("");
  } else {
    unsigned char b[sizeof(T)];
    memcpy(b, &v, sizeof(T));
    printf("%%d", i);
    for (unsigned char x : b) printf(" %%d", x);
    puts("");
  }
}
'''


def value(t, v):
    if t == "str":
        return '"' + "".join("\\u{%x}" % c for c in v) + '"'
    if t == "bool":
        return ["false", "true"][v[0]]
    n = int.from_bytes(bytes(v), "little")
    if t in ("f32", "f64"):
        return f"{t}::from_bits({n:#x})"
    if t == "char":
        return "'\\u{%x}'" % n
    return f"{n:#x}u{8 * len(v)} as {t}"


TYPE = {"str": "&'static str"}
HOLDERS = {"struct": "pub struct H{i} {{ pub x: u8 }}", "enum": "pub enum H{i} {{ A, B }}", "repr": "#[repr(C)] #[derive(Clone, Copy)] pub enum H{i} {{ A(u8), B }}", "union": "#[repr(C)] pub union H{i} {{ pub x: u8 }}"}

ENUMS = {"enumerator": "enum class", "plain enumerator": "enum"}


def crate(name, decls):
    src, cc, top = [], [], []
    for i, ((place, t, v), _) in enumerate(decls):
        ty = TYPE.get(t, t)
        d = f"pub const K{i}: {ty} = {value(t, v)};"
        if place in HOLDERS:
            src.append(HOLDERS[place].format(i=i) + f" impl H{i} {{ {d} }}")
        elif place in ENUMS:
            src.append(f'#[doc = "CRUBIT_ANNOTATE: cpp_enum={ENUMS[place]}"] #[repr(transparent)] pub struct H{i}(pub {ty}); impl H{i} {{ pub const K{i}: H{i} = H{i}({value(t, v)}); pub const A{i}: H{i} = H{i}(K0_ as {ty}); }}'.replace("K0_", "1u8" if t != "bool" else "true"))
        elif place == "mod":
            src.append(f"pub mod m{i} {{ {d} }}")
        elif place == "alias":
            src.append(f"pub type T{i} = {ty}; " + d.replace(ty, f"T{i}", 1))
        elif place == "computed":
            src.append(f"const fn f{i}() -> {ty} {{ {value(t, v)} }} const P{i}: ({ty}, u8) = (f{i}(), 1); pub const K{i}: {ty} = P{i}.0;")
        else:
            src.append(d)
    for i, ((place, t, v), want) in enumerate(decls):
        if place in HOLDERS:
            top.append(f"template <class S> void k{i}() {{ if constexpr (requires {{ S::K{i}; }}) {{ static constexpr auto c = S::K{i}; show<{want['cpp']}>({i}, c); }} else printf(\"{i} missing\\n\"); }}")
            cc.append(f"k{i}<{name}::H{i}>();")
        elif place in ENUMS:
            cc.append(f"{{ using H = {name}::H{i}; static_assert(std::is_enum_v<H> && {'!' if place == 'enumerator' else ''}std::is_convertible_v<H, {want['cpp']}>); static constexpr auto c = H::K{i}; show<{want['cpp']}>({i}, c); }}")
        else:
            q = f"{name}::m{i}" if place == "mod" else name
            cc.append(f"{{ static constexpr auto c = {q}::K{i}; show<{want['cpp']}>({i}, c); }}")
    miss = "".join(f"constexpr Missing K{i}{{}};" for i in range(len(decls)))
    pre = PRELUDE % (name, miss, name) + "".join(f"namespace {name}::m{i} {{ using namespace fallback; }}\n" for i, ((p, _, _), _) in enumerate(decls) if p == "mod")
    return "\n".join(src), pre + "\n".join(top) + "\n#include <cstdint>\nint main() {\n" + "\n".join(cc) + "\n}\n"


def run(c):
    ints = dict(Low={0, 1, 254, 255}, Next8={0, 127, 128, 255}, Fill={0, 255}, Top={0, 127, 128, 255})
    base = dict(ints, Types=["i8"], Places=["top"], Exps32={0, 1, 100, 126, 127, 128, 149, 150, 151, 254, 255}, Mants32={0, 1, 0x2AAAAA, 0x333333, 0x400000, 0x7FFFFF},
                Exps64={0, 1, 1022, 1023, 1024, 1075, 1076, 1086, 2046, 2047}, Nibbles={0, 8, 15} if not c.thorough else {0, 5, 8, 15}, Fill64={0, 255} if not c.thorough else {0, 0x55, 255}, Low64={0, 1, 255},
                Chars={0, 9, 10, 34, 49, 63, 92, 97, 127, 233, 0x20AC, 0x1F600}, MaxChars=c.pick(2, 3), MaxLen=1, Pick=False)
    allp = ["top", "mod", "alias", "computed"] + list(HOLDERS) + list(ENUMS)
    wide = {0, 1, 2, 7, 9, 10, 13, 27, 31, 32, 34, 39, 48, 55, 63, 92, 97, 102, 126, 127, 128, 160, 233, 0x300, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}
    byte = set(range(256))
    runs = [("integers and booleans", {**base, "Types": ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize"], "Places": ["top", "enumerator"]}, None),
            ("floating-point numbers", {**base, "Types": ["f32", "f64"]}, None),
            ("strings", {**base, "Types": ["str"]}, None),
            ("every place", {**base, "Types": ["bool", "i8", "u16", "i64", "f32", "str", "char", "i128", "u128"], "Places": allp, "Chars": {0, 49, 97}, "MaxChars": 1, "Exps32": {0, 127, 255}, "Mants32": {0, 1},
                             "Low": {0, 255}, "Next8": {128}, "Fill": {0}, "Top": {0, 255}}, None),
            ("random crates", {**base, "Types": ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "f32", "f64", "str", "char", "i128", "u128"], "Places": allp, "Low": byte, "Next8": byte, "Fill": byte, "Top": byte,
                               "Exps32": set(range(255)), "Exps64": set(range(2047)), "Nibbles": set(range(16)), "Fill64": byte, "Low64": byte,
                               "Chars": wide, "MaxChars": 2, "MaxLen": 60, "Pick": True}, c.pick(2, 25))]

    def tla(v):
        return "{" + ", ".join(f'"{x}"' for x in v) + "}"

    def spec(r):
        what, K, num = r
        return tlc("Const", dict(K, Types="=" + tla(K["Types"]), Places="=" + tla(K["Places"])), ["Sized", "OneToOne"], view="View", emit="EmitLast" if num else "Emit", simulate=num, depth=K["MaxLen"] if num else None,
                   seed=c.seed, workers=2)

    generator()
    stdlib()
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(spec, runs))
    jobs = []
    for (what, K, num), r in zip(runs, res):
        c.add_tlc(r, what)
        ds = [h for hs in r.histories for h in hs] if num else [h[0] for h in r.histories]
        for i in range(0, len(ds), 300):
            jobs.append((what, ds[i:i + 300]))

    def do(k):
        what, ds = jobs[k]
        name = f"consts{k}"
        src, cc = crate(name, ds)
        cr = Crate(name, src)
        try:
            b = cr.build(cc)
            rc, o, e = sh([b], timeout=120)
            return rc, dict((int(x.split()[0]), x.split()[1:]) for x in o.splitlines())
        except GeneratedCodeError as e:
            return None, str(e)
        finally:
            cr.clean()

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(do, range(len(jobs))))
    for (what, ds), (rc, got) in zip(jobs, outs):
        c.traces += len(ds)
        if rc != 0:
            c.violation(f"{what}: bindings of constants do not work: {str(got)[:600]}", {"constants": [[p, t, value(t, v)] for (p, t, v), _ in ds][:40], "error": str(got)[:3000]})
            continue
        for i, ((p, t, v), want) in enumerate(ds):
            g = got.get(i, ["nothing"])
            if g == ["missing"] and not want["must"]:
                continue
            if g != [str(x) for x in want["mem"]]:
                c.violation(f"{what}: const of type {t} with value {value(t, v)} (in: {p}) is {' '.join(g)} in C++, expected {want['cpp']} {want['mem']}",
                            {"place": p, "type": t, "value": value(t, v), "got": g, "expected": want})
        if ds:
            (p, t, v), _ = ds[len(ds) // 2]
            c.sample({"run": what, "place": p, "type": t, "value": value(t, v)})
