"""S05: lossy formatting (spec/Lossy.tla, harness/lossy)."""
import random, re
from vf import *
BYTES = [0x41, 0x00, 0x80, 0x90, 0xA0, 0xBF, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xFF]


def build():
    d = ensure(os.path.join(WORK, "lossy"))
    e = rust_env()
    pre = ["rustc", "--edition", "2024", "-Awarnings", "-C", "debuginfo=1", "-L", d]
    rl = lambda n, p, ex: sh([*pre, "--crate-type", "rlib", "--crate-name", n, REPO + "/" + p, "-o", f"{d}/lib{n}.rlib",
                              *[a for x in ex for a in ("--extern", f"{x}={d}/lib{x}.rlib")]], env=e, check=True)
    rl("ffi_11", "support/ffi_11/src/lib.rs", [])
    rl("lossy_formatter", "support/rs_std/lossy_formatter.rs", [])
    rl("lossy_formatter_for_bindings", "support/rs_std/lossy_formatter_for_bindings.rs", ["lossy_formatter", "ffi_11"])
    sh(["clang++", "-std=c++20", "-Wno-everything", "-I", REPO, "-c", f"{VERIF}/harness/lossy/c.cc", "-o", f"{d}/c.o"], env=e, check=True)
    src = open(f"{VERIF}/harness/lossy/main.rs").read().replace("/repo/", REPO + "/")
    with open(f"{d}/main.rs", "w") as f:
        f.write("extern crate lossy_formatter_for_bindings;\n" + src)
    sh([*[x if x != "2024" else "2021" for x in pre], f"{d}/main.rs", "-o", f"{d}/driver", "-C", f"link-arg={d}/c.o", "-C", "link-arg=-lstdc++",
        *[a for x in ("lossy_formatter", "lossy_formatter_for_bindings") for a in ("--extern", f"{x}={d}/lib{x}.rlib")]], env=e, check=True)
    return f"{d}/driver"


def text(cps):
    return "".join(map(chr, cps))


ESC = {0: "\\0", 0x41: "A", 0xFF: "\\xff"}


def debug_text(bs, cps_of):
    """debug_bytes on the whole input: escapes of every character and of every invalid byte."""
    out, i = '"', 0
    while i < len(bs):
        for n in (4, 3, 2, 1):
            try:
                ch = bytes(bs[i:i + n]).decode()
                if len(ch) == 1 and len(bs[i:i + n]) == n:
                    break
            except UnicodeDecodeError:
                pass
        else:
            n, ch = 1, None
        out += f"\\x{bs[i]:02x}" if ch is None else PRINT.get(ch, ch)
        i += n
    return out + '"'


PRINT = {"\0": "\\0"}


def run(c):
    rnd = random.Random(c.seed)
    S = lambda xs: "={" + ",".join(map(str, sorted(xs))) + "}"
    jobs = [("every chunk in every state", dict(Bytes=S(BYTES), MaxSlice=2, MaxFill=3, MaxLen=3), None),
            ("long chunks from the start", dict(Bytes=S(BYTES), MaxSlice=c.pick(3, 4), MaxFill=0, MaxLen=1), None),
            ("random", dict(Bytes=S(BYTES), MaxSlice=6, MaxFill=5, MaxLen=10), c.pick(500, 8000))]

    def one(j):
        kw = dict(emit="Emit", view="view") if j[2] is None else dict(emit="EmitLast", simulate=j[2], depth=90, prune="last", seed=c.seed)
        return tlc("Lossy", j[1], ["Pending", "ChunkIndependent"], workers=4, **kw)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build)
        res = list(ex.map(one, jobs))
        binp = fb.result()
    hs = []
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[0])
        hs += r.histories
    work = []
    for h in hs:
        enc = " ".join(f"{s['op']}:{bytes(s['b']).hex()}" for s in h)
        full = len(text([x for s in h for e in s["em"] for x in e]).encode())
        inf = 10 ** 9
        for mode in ("rust", "ffi", "absl", "ostream", "display", "debug"):
            if mode == "absl" and any(s["op"] == "flush" for s in h) or mode in ("display", "debug") and any(s["op"] == "flush" for s in h):
                continue
            caps = [(inf, inf)]
            if mode not in ("debug",):
                caps += [(rnd.randrange(full + 2), inf), (inf, rnd.randrange(full + 2))] if mode == "rust" else [rnd.choice([(rnd.randrange(full + 2), inf), (inf, rnd.randrange(full + 2))])]
            for cap, calls in caps:
                work.append((h, mode, f"{mode} {rnd.randrange(4)} {cap} {calls} {enc}", cap == inf and calls == inf))
    for (h, mode, line, nofail), a in zip(work, run_sharded(binp, [w[2] for w in work])):
        c.traces += 1
        bad = judge(h, mode, a, nofail)
        if bad:
            c.violation(f"{line.replace('1000000000', 'inf')}: {bad}", {"history": h, "input": line, "answer": a})
    c.sample({"line": work[-1][2], "history": work[-1][0][:3]})


def judge(h, mode, a, nofail):
    if not a or a[0] not in "01":
        return f"the program died: {a}"
    ok, failed, rets, *hexs = a.split(" ")
    out = bytes.fromhex(hexs[0] if hexs else "").decode()
    rets = [int(x) for x in rets[1:-1].split(",") if x]
    em = [e for s in h for e in s["em"]]
    total = text([x for e in em for x in e])
    if ok != ("0" if failed == "1" else "1"):
        return f"the sink {'failed' if failed == '1' else 'accepted everything'} but formatting reports {'success' if ok == '1' else 'an error'}"
    if nofail and failed == "1":
        return "wrote more than everything"
    if mode in ("absl", "ostream", "display"):
        # these end with a flush
        total += "\ufffd" if h[-1]["pend"] else ""
        if failed == "0" and out != total:
            return f"wrote {out!r}, the bytes mean {total!r}"
        if not total.startswith(out):
            return f"before the sink failed {out!r} was written, which is not the beginning of {total!r}"
        return None
    if mode == "debug":
        w = debug_text([b for s in h for b in s["b"]], None)
        # which characters std escapes depends on its Unicode version
        plain = re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m[1], 16)), out)
        return None if plain == w else f"debug text {out!r}, expected {w!r}"
    pos = ""
    for i, s in enumerate(h):
        n = len(s["b"]) if s["op"] in ("slice", "fill") else 1
        if i >= len(rets):
            return f"stopped after {i} steps without an error"
        if rets[i] == n:
            pos += text([x for e in s["em"] for x in e])
            if i + 1 == len(rets) and failed == "0" and i + 1 < len(h):
                return "stopped without an error"
            continue
        # the step that reports an error
        if failed == "0":
            return f"step {i + 1} ({s['op']}) reports {rets[i]} of {n} although the sink accepted everything"
        k = rets[i] if s["op"] in ("slice", "fill") else 0
        if k < 0 or k > n:
            return f"step {i + 1} reports {k} of {n}"
        done = text([x for e in s["em"][:k] for x in e])
        alt = {pos + done}
        # a pending sequence may already have been replaced on behalf of the next byte
        pending = h[i - 1]["pend"] if i and not k else bool(k) and (s["em"][k - 1] == [] or 0xC2 <= s["b"][k - 1] <= 0xF4)
        if k < len(s["em"]) and pending and s["em"][k][:1] == [0xFFFD]:
            alt.add(pos + done + chr(s["em"][k][0]))
        return None if out in alt else f"step {i + 1} reports {k} of {n} bytes, but {out!r} was written instead of {sorted(alt)}"
    if failed == "1":
        return "the sink failed but no step reported it"
    return None if out == pos else f"wrote {out!r}, the bytes mean {pos!r}"
