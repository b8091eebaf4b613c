"""End-to-end machinery: Rust crate -> real generator -> C++ and Rust compilers -> executable.

generator()            builds the binding generator and its support crates from /repo.
stdlib(features)       bindings of core, alloc and std, made by the generator.
Crate(...).build(cc)   generates, compiles and links one crate with a C++ driver.

A failure of the *generated* code to compile is reported as GeneratedCodeError; anything
else that fails is a ToolError.
"""
import hashlib, os, shutil, subprocess, threading
from vf import *

_lock = threading.RLock()
_gen = {}


SUPPORT_CRATES = [("bridge_rust", "support/crubit_bridge_rust/src/bridge.rs", []),
                  ("ffi_11", "support/ffi_11/src/lib.rs", []),
                  ("erased_future", "support/rs_std/erased_future.rs", []),
                  ("dyn_erased_future", "support/rs_std/dyn_erased_future.rs", ["erased_future"])]


class GeneratedCodeError(Exception):
    def __init__(self, stage, msg):
        super().__init__(f"{stage}: {msg}")
        self.stage, self.msg = stage, msg


def first_errors(text, n=4):
    import re
    ls = [l for l in text.splitlines() if re.search(r"\berror(\[E\d+\])?:|panicked|undefined (reference|symbol)", l)]
    return " | ".join(x.strip()[:300] for x in ls[:n]) or text[-400:]


def generator():
    with _lock:
        if "bin" not in _gen:
            t = cargo_build(REPO + "/Cargo.toml", ["--locked", "-p", "cc_bindings_from_rs", "-p", "crubit_annotate"])
            d = os.path.join(t, "debug")
            _gen["bin"] = os.path.join(d, "cc_bindings_from_rs")
            _gen["annotate"] = os.path.join(d, "libcrubit_annotate.so")
            sd = _gen["dir"] = ensure(os.path.join(WORK, "support_rlibs"))
            shutil.copy2(_gen["annotate"], sd)     # found there by name, as crates that use it require
            for name, path, deps in SUPPORT_CRATES:
                cmd = ["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", name, "-Awarnings",
                       os.path.join(REPO, path), "-o", f"{sd}/lib{name}.rlib", "-L", sd]
                for x in deps:
                    cmd += ["--extern", f"{x}={sd}/lib{x}.rlib"]
                rc, o, e = sh(cmd, env=rust_env(), timeout=300)
                if rc != 0:
                    raise ToolError(f"support crate {name} does not compile: {first_errors(e)}")
                _gen[name] = f"{sd}/lib{name}.rlib"
        return _gen


def support_externs():
    g = generator()
    return [a for n, _, _ in SUPPORT_CRATES for a in ("--extern", f"{n}={g[n]}")] + ["-L", g["dir"]]


def gen_cmd(name, h, rs, features, externs, headers, namespaces, extra=()):
    g = generator()
    c = [g["bin"], f"--h-out={h}", f"--rs-out={rs}", "--crubit-support-path-format=<support/{header}>",
         f"--default-features={features}", f"--source-crate-name={name}"]
    for k, v in externs.items():
        c += ["--extern", f"{k}={v}"]
    for k, v in headers.items():
        c.append(f"--crate-header={k}={v}")
    for k, v in namespaces.items():
        c.append(f"--crate-namespace={k}={v}")
    return c + list(extra)


def stdlib(features="supported"):
    """Generates the bindings of core, alloc and std; returns the directory holding crubit/*.h."""
    g = generator()
    with _lock:
        h = hashlib.sha256(b"".join(open(p, "rb").read() for p in [g["bin"]] + [g[n] for n, _, _ in SUPPORT_CRATES])).hexdigest()[:16]
        d = os.path.join(WORK, f"stdlib-{features}-{h}")
        if os.path.exists(d + "/done"):
            return d
        for f in os.listdir(ensure(WORK)):
            if f.startswith(f"stdlib-{features}-"):
                shutil.rmtree(os.path.join(WORK, f), ignore_errors=True)
        ensure(d + "/crubit")
        headers, ns = {}, {}
        for c in ("core", "alloc", "std"):
            ns = dict(ns)
            cmd = gen_cmd(c, f"{d}/crubit/{c}.h", f"{d}/{c}_impl.rs", features, {}, headers,
                          {**{p: f"rs::{p}" for p in headers}, "self": f"rs::{c}", c: f"rs::{c}"})
            rc, o, e = sh(cmd, env=rust_env(), timeout=300)
            if rc != 0:
                raise GeneratedCodeError(f"generating bindings of {c}", (o + e)[-1500:])
            headers[c] = f"crubit/{c}.h"
        g_, ext_ = rust_env(), support_externs()

        def impl(c):
            cmd = ["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", f"{c}_impl", "-Awarnings",
                   f"{d}/{c}_impl.rs", "-o", f"{d}/lib{c}_impl.rlib", *ext_]
            rc, o, e = sh(cmd, env=g_, timeout=300)
            if rc != 0:
                raise GeneratedCodeError(f"compiling the generated Rust bindings of {c}", first_errors(e))
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(impl, ["core", "alloc", "std"]))
        open(d + "/done", "w").close()
        return d


class Crate:
    """One Rust crate with generated C++ bindings."""

    def __init__(self, name, src, features="supported", deps=(), std=True, dir=None, namespace=None, extra=(), annotate=False,
                 rustc_args=()):
        self.name, self.src, self.features, self.deps = name, src, features, list(deps)
        self.std, self.ns, self.extra, self.annotate = std, namespace, list(extra), annotate
        self.dir = dir or tempfile.mkdtemp(prefix=f"e2e-{name}-", dir=ensure(os.path.join(WORK, "tmp")))
        self.h = os.path.join(self.dir, name + ".h")
        self.rs = os.path.join(self.dir, name + "_impl.rs")
        self.rustc_args = list(rustc_args)
        ensure(self.dir)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def lib(self):
        """Compiles the crate itself: a failure here is ours."""
        g = generator()
        p = os.path.join(self.dir, self.name + ".rs")
        with open(p, "w") as f:
            f.write(self.src)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", self.name, p, "-Awarnings",
               "-o", os.path.join(self.dir, f"lib{self.name}.rlib"), *self.rustc_args]
        for d in self.deps:
            cmd += ["--extern", f"{d.name}={d.dir}/lib{d.name}.rlib", "-L", d.dir]
        cmd += ["--extern", f"crubit_annotate={g['annotate']}", "-L", g["dir"]]
        rc, o, e = sh(cmd, env=rust_env(), timeout=300)
        if rc != 0:
            raise ToolError(f"rustc rejected the synthesised crate {self.name}: {first_errors(e)}\n{e[-3000:]}")

    def generate(self, h=None, rs=None, extra=(), check=True, env={}):
        g = generator()
        headers, ns = {}, {}
        if self.std:
            for c in ("core", "alloc", "std"):
                headers[c], ns[c] = f"crubit/{c}.h", f"rs::{c}"
        ext = {self.name: os.path.join(self.dir, f"lib{self.name}.rlib")}
        for d in self.deps:
            headers[d.name] = f"{d.name}.h"
            ext[d.name] = os.path.join(d.dir, f"lib{d.name}.rlib")
        if self.ns:
            ns["self"] = ns[self.name] = self.ns
        args = [a for d in self.deps for a in ("-L", d.dir)] + ["-L", g["dir"]]
        ext["crubit_annotate"] = g["annotate"]
        cmd = gen_cmd(self.name, h or self.h, rs or self.rs, self.features, ext, headers, ns, args + self.extra + list(extra))
        rc, o, e = sh(cmd, env={**rust_env(), **env}, timeout=300)
        if check and rc != 0:
            raise GeneratedCodeError("generator", first_errors(o + e))
        return rc, o + e

    def rust_impl(self):
        g = generator()
        cmd = ["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", f"{self.name}_impl", "-Awarnings",
               self.rs, "-o", os.path.join(self.dir, f"lib{self.name}_impl.rlib"),
               "--extern", f"{self.name}={self.dir}/lib{self.name}.rlib",
               "--extern", f"crubit_annotate={g['annotate']}", *support_externs()]
        for d in self.deps:
            cmd += ["--extern", f"{d.name}={d.dir}/lib{d.name}.rlib", "-L", d.dir]
        rc, o, e = sh(cmd, env=rust_env(), timeout=300)
        if rc != 0:
            raise GeneratedCodeError("compiling the generated Rust file", first_errors(e))

    def include_args(self):
        a = ["-I", REPO, "-I", self.dir]
        for d in self.deps:
            a += ["-I", d.dir]
        if self.std:
            a += ["-I", stdlib(self.features)]
        return a

    def cxx(self, src, obj, flags=(), syntax_only=False, what="the generated header"):
        cmd = ["clang++", "-std=c++20", "-w", "-fno-color-diagnostics", *self.include_args(), *flags, src]
        cmd += ["-fsyntax-only"] if syntax_only else ["-c", "-o", obj]
        rc, o, e = sh(cmd, env=rust_env(), timeout=600)
        if rc != 0:
            raise GeneratedCodeError(f"compiling {what}", first_errors(e))

    def link(self, objs, out, flags=()):
        """Links objects with the Rust side (crate, generated thunks, thunks of std and of the dependencies)."""
        root = os.path.join(self.dir, "root.rs")
        crates = [self.name + "_impl"] + [d.name + "_impl" for d in self.deps]
        args = []
        for d in [self] + self.deps:
            args += ["--extern", f"{d.name}_impl={d.dir}/lib{d.name}_impl.rlib", "-L", d.dir]
        if self.std:
            sd = stdlib(self.features)
            for c in ("core", "alloc", "std"):
                crates.append(c + "_impl")
                args += ["--extern", f"{c}_impl={sd}/lib{c}_impl.rlib"]
        with open(root, "w") as f:
            f.write("".join(f"pub extern crate {c};\n" for c in crates))
        a = os.path.join(self.dir, "libroot.a")
        cmd = ["rustc", "--edition", "2021", "--crate-type", "staticlib", "-Awarnings", root, "-o", a,
               "-L", generator()["dir"], *args]
        rc, o, e = sh(cmd, env=rust_env(), timeout=300)
        if rc != 0:
            raise GeneratedCodeError("linking the generated Rust file", first_errors(e))
        cmd = ["clang++", "-fuse-ld=" + LD, *objs, a, "-o", out, "-lpthread", "-ldl", "-lm", *flags]
        rc, o, e = sh(cmd, env=rust_env(), timeout=300)
        os.unlink(a)
        if rc != 0:
            raise GeneratedCodeError("linking", first_errors(e))

    def build(self, cc_src, flags=("-O0",), link_flags=(), sources=()):
        """Everything: returns the executable. cc_src includes the generated header."""
        self.lib()
        self.generate()
        main = os.path.join(self.dir, "main.cc")
        with open(main, "w") as f:
            f.write(cc_src)
        if self.std:
            stdlib(self.features)
        objs = [os.path.join(self.dir, "main.o")]
        jobs = [lambda: self.rust_impl(), lambda: self.cxx(main, objs[0], flags, what="a use of the generated header")]
        for i, s in enumerate(sources):
            o = os.path.join(self.dir, f"src{i}.o")
            objs.append(o)
            jobs.append(lambda s=s, o=o: self.cxx(s, o, flags, what=s))
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()
        out = os.path.join(self.dir, "driver")
        self.link(objs, out, [*flags, *link_flags])
        return out


LD = "lld" if shutil.which("ld.lld") or shutil.which("lld") else "bfd"
SUPPORT_SRC = [REPO + "/support/internal/check_no_mutable_aliasing.cc"]
