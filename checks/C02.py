"""C02: the error report (spec/Errs.tla, harness/errs)."""
import errs


def run(c):
    S = lambda xs: set(xs)
    ops = [o for o in errs.E_OPS + errs.R_OPS if o not in ("pass", "discard", "dropc")]
    B = dict(Items="={0, 1, 2}", MaxWeight=99, NE=1)
    errs.run(c, [
        ("every short history, every root", dict(B, NH=1, Roots=S(errs.ROOTS), MaxLen=c.pick(3, 4), MaxMsg=3, Ops=S(ops)), None),
        ("items, scopes and categories", dict(B, NH=1, Roots={"fmt"}, MaxLen=c.pick(5, 6), MaxMsg=2, Ops={"new", "report", "enter", "enterwrong", "exit", "in", "cat", "consolidate_on"}), None),
        ("random", dict(B, NH=3, Roots=S(errs.ROOTS), MaxLen=30, MaxMsg=30, MaxWeight=10, Ops=S(ops)), c.pick(500, 10000)),
    ], True)
