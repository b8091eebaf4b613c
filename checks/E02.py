"""E02: special members of generated classes (spec/Special.tla)."""
import random
from own_run import *


def F(name, ty, copy=0, clone=0, dflt=0, drop=0, unpin=1, zst=0, mdrop=0):
    return dict(name=name, ty=ty, copy=bool(copy), clone=bool(clone), dflt=bool(dflt), drop=bool(drop), unpin=bool(unpin), zst=bool(zst),
                mdrop=bool(mdrop))


FIELDS = [
    F("int", "i32", 1, 1, 1), F("ref", "&'static i32", 1, 1), F("mutref", "&'static mut i32"), F("ptr", "*const u8", 1, 1),
    F("nonnull", "std::ptr::NonNull<u8>", 1, 1), F("string", "String", 0, 1, 1, 1), F("box", "Box<i32>", 0, 1, 1, 1),
    F("mdrop", "std::mem::ManuallyDrop<String>", 0, 1, 1, mdrop=1), F("file", "std::fs::File", drop=1), F("cell", "std::cell::Cell<i32>", 0, 1, 1),
    F("vec", "Vec<u8>", 0, 1, 1, 1), F("pinned", "std::marker::PhantomPinned", 1, 1, 1, unpin=0, zst=1),
    F("phantom", "std::marker::PhantomData<String>", 1, 1, 1, zst=1), F("fnptr", "fn()", 1, 1), F("optbox", "Option<Box<u8>>", 0, 1, 1, 1),
    F("optint", "Option<u32>", 1, 1, 1), F("strings", "[String; 2]", 0, 1, 1, 1), F("pair", "(u8, String)", 0, 1, 1, 1),
    F("pinnedbox", "(Box<u8>, std::marker::PhantomPinned)", 0, 1, 1, 1, unpin=0), F("local", "Leaf", drop=1), F("localcopy", "LeafCopy", 1, 1),
    F("slice", "&'static [u8]", 1, 1, 1), F("str", "&'static str", 1, 1, 1), F("rc", "std::rc::Rc<i32>", 0, 1, 1, 1),
    F("pinbox", "std::pin::Pin<Box<std::marker::PhantomPinned>>", 0, 1, 1, 1), F("arr0", "[u8; 3]", 1, 1, 1)]
KINDS = {"struct", "tuple", "enum", "transparent", "reprc", "union"}
PRE = "#![allow(dead_code)]\npub struct Leaf(i32);\nimpl Drop for Leaf { fn drop(&mut self) {} }\n#[derive(Clone, Copy)] pub struct LeafCopy(u16);\n"
MEMBERS = {"default_ctor": "std::is_default_constructible_v<T>", "copy_ctor": "std::is_copy_constructible_v<T>", "copy_assign": "std::is_copy_assignable_v<T>",
           "move_ctor": "std::is_move_constructible_v<T>", "move_assign": "std::is_move_assignable_v<T>",
           "trivial_copy": "(std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_assignable_v<T>)",
           "trivial_move": "(std::is_trivially_move_constructible_v<T> && std::is_trivially_move_assignable_v<T>)",
           "trivial_dtor": "std::is_trivially_destructible_v<T>", "bytes_ok": "std::is_trivially_copyable_v<T>"}


def source(n, t, vis):
    k, fs = t["kind"], [f["ty"] for f in t["fields"]]
    v = ["pub " if (vis >> i) & 1 else "" for i in range(len(fs))]
    s = "#[derive(Clone, Copy)]\n" if t["copy"] else ""
    if k == "struct" or k == "reprc" or k == "union":
        s += ("#[repr(C)]\n" if k == "reprc" else "") + f"pub {'union' if k == 'union' else 'struct'} {n} {{ " + \
            ", ".join(f"{v[i]}f{i}: {f}" for i, f in enumerate(fs)) + " }\n"
    elif k == "enum":
        s += f"pub enum {n} {{ Empty, Full({', '.join(fs)}) }}\n"
    else:
        s += ("#[repr(transparent)]\n" if k == "transparent" else "") + f"pub struct {n}({', '.join(v[i] + f for i, f in enumerate(fs))});\n"
    if t["clone"] and not t["copy"]:
        s += f"impl Clone for {n} {{ fn clone(&self) -> Self {{ unimplemented!() }} }}\n"
    if t["dflt"]:
        s += f"impl Default for {n} {{ fn default() -> Self {{ unimplemented!() }} }}\n"
    if t["drop"]:
        s += f"impl Drop for {n} {{ fn drop(&mut self) {{}} }}\n"
    return s


def run(c):
    generator(); stdlib()
    FF = [{k: v for k, v in f.items() if k != "ty"} for f in FIELDS]
    byname = {f["name"]: f for f in FIELDS}
    T = "={" + ", ".join(tla_value(f) for f in FF) + "}"
    r = tlc("Special", dict(Fields=T, MaxFields=1, Kinds=KINDS), ["Sane"], emit="Emit", workers=4, prune=False)
    c.add_tlc(r, "all one-field types")
    cases = r.histories
    rnd = random.Random(c.seed)
    # two fields: TLC enumerates a sample of the field types in each run
    for i in range(c.pick(3, 12)):
        sub = rnd.sample(FF, 5)
        r = tlc("Special", dict(Fields="={" + ", ".join(tla_value(f) for f in sub) + "}", MaxFields=2, Kinds=KINDS), ["Sane"], emit="Emit", workers=4,
                prune=False)
        c.add_tlc(r, "two-field types")
        two = [h for h in r.histories if len(h["t"]["fields"]) == 2]
        cases = cases + rnd.sample(two, min(len(two), 300))
    for h in cases:
        h["t"]["fields"] = [byname[f["name"]] for f in h["t"]["fields"]]
    groups = [cases[i:i + 100] for i in range(0, len(cases), 100)]

    def one(gi):
        g = groups[gi]
        src = PRE + "".join(source(f"T{i}", h["t"], rnd.randrange(4)) for i, h in enumerate(g))
        cr = Crate(f"sp{gi}", src)
        try:
            cr.lib()
            cr.generate()
            cr.rust_impl()
            # one probe per class: a wrong member is reported by its own line
            probe = f'#include "sp{gi}.h"\n#include <cstdio>\n#include <type_traits>\n#define P(X) std::printf("%d", (int)X);\n' + \
                "template <class T> void probe(int i) { std::printf(\"%d \", i); " + " ".join(f"P(({MEMBERS[m]}))" for m in sorted(MEMBERS)) + \
                " std::printf(\"\\n\"); }\nint main() {\n" + "".join(f"probe<sp{gi}::T{i}>({i});\n" for i in range(len(g))) + "}\n"
            with open(cr.dir + "/p.cc", "w") as f:
                f.write(probe)
            cr.cxx(cr.dir + "/p.cc", cr.dir + "/p.o", ["-O0", "-ffunction-sections"], what="a probe of the special members")
            rc, o, e = sh(["clang++", "-fuse-ld=" + LD, "-Wl,--gc-sections", cr.dir + "/p.o", "-o", cr.dir + "/p"], env=rust_env())
            if rc:
                raise ToolError("probe does not link: " + e[-800:])
            return g, src, sh([cr.dir + "/p"], env=rust_env())[1].split("\n")
        except GeneratedCodeError as e:
            return g, src, e
        finally:
            cr.clean()

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(groups))))
    for g, src, out in res:
        if isinstance(out, Exception):
            c.violation(f"classes of these types are unusable: {out}", {"crate": src, "error": str(out)})
            continue
        for i, h in enumerate(g):
            c.traces += 1
            got = dict(zip(sorted(MEMBERS), out[i].split()[1])) if i < len(out) and out[i] else {}
            for m in sorted(MEMBERS):
                if got.get(m) != str(int(h["e"][m])):
                    t = h["t"]
                    c.violation(f"{t['kind']} of {[f['ty'] for f in t['fields']]} with "
                                f"{[x for x in ('copy', 'clone', 'dflt', 'drop') if t[x]]}: {m} is {got.get(m)} in C++, should be {int(h['e'][m])}",
                                {"type": source('T', t, 0), "expected": h["e"], "got": got})
    # what the members do
    own_run(c, {"make", "default", "copynew", "movenew", "copyto", "moveto", "destroy"}, c.pick(20, 200), 15)
    c.sample({"type": source("T", cases[0]["t"], 0), "expected": cases[0]["e"]})
    c.extra["types_compiled"] = len(cases)
