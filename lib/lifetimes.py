"""Builds the lifetime analysis (lifetime_annotations, lifetime_analysis) against LLVM 18."""
import os
from concurrent.futures import ThreadPoolExecutor
from vf import *

ANN = ["lifetime", "lifetime_symbol_table", "lifetime_substitutions", "pointee_type", "function_lifetimes", "type_lifetimes", "lifetime_annotations"]
ANA = ["lifetime_constraints", "lifetime_lattice", "object", "object_set", "points_to_map", "pointer_compatibility", "object_repository",
       "builtin_lifetimes", "template_placeholder_support", "lifetime_analysis", "analyze"]
LLVM = "/usr/lib/llvm-18"


def lifetime_tool(name, source, ann=ANN, ana=ANA):
    """Compiles harness/lifetimes/<source> with the given files of the analysis."""
    d = ensure(os.path.join(WORK, "lifetimes"))
    h = os.path.join(VERIF, "harness/lifetimes")
    shim = os.path.join(d, "shim")
    rc, o, e = sh(["python3", h + "/mkshim.py", shim])
    if rc != 0:
        raise ToolError("shim: " + e)
    flags = ["-std=c++20", "-O0", "-w", "-fno-rtti", "-I" + shim, "-I" + REPO, "-I" + LLVM + "/include"]
    # one precompiled header of the LLVM headers; /repo's own headers are read by every file
    pch = shim + "/compat.h.pch"
    if not os.path.exists(pch):
        rc, o, e = sh(["clang++", *flags, "-x", "c++-header", shim + "/compat.h", "-o", pch + f".{os.getpid()}"], timeout=600)
        if rc != 0:
            raise ToolError("pch: " + e[:2000])
        os.rename(pch + f".{os.getpid()}", pch)
    srcs = [f"{REPO}/lifetime_annotations/{x}.cc" for x in ann] + [f"{REPO}/lifetime_analysis/{x}.cc" for x in ana] + [f"{h}/{source}"]

    def one(src):
        out = f"{d}/{name}-{os.path.basename(src)}.o"
        rc, o, e = sh(["clang++", *flags, "-include-pch", pch, "-c", src, "-o", out], timeout=600)
        if rc != 0:
            raise ToolError(f"{src} does not compile: " + "\n".join(l for l in e.splitlines() if "error" in l)[:2000])
        return out
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(srcs, key=lambda s: -os.path.getsize(s))))
    out = f"{d}/{name}"
    import glob
    rc, o, e = sh(["clang++", *objs, "-o", out, LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,--start-group",
                   *sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")), "-Wl,--end-group"], timeout=600)
    if rc != 0:
        raise ToolError("link: " + e[:2000])
    return out
