"""C06: errors keep every message (spec/Errs.tla, harness/errs)."""
import errs


def run(c):
    S = lambda xs: set(xs)
    B = dict(Items="={0}", MaxWeight=99)
    errs.run(c, [
        ("every short history of one error, every root", dict(B, NH=1, NE=1, Roots=S(errs.ROOTS), MaxLen=c.pick(4, 5), MaxMsg=4, Ops=S(errs.E_OPS)), None),
        ("every short history of two errors", dict(B, NH=2, NE=1, Roots={"fmt", "std2"}, MaxLen=c.pick(4, 5), MaxMsg=4, Ops=S(errs.E_OPS)), None),
        ("random", dict(B, NH=4, NE=2, Roots=S(errs.ROOTS), MaxLen=30, MaxMsg=30, MaxWeight=12, Ops=S(errs.E_OPS)), c.pick(600, 10000)),
    ], False)
