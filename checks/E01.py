"""E01: ownership of Rust values held by C++ objects (spec/Own.tla, spec/OwnTrace.tla, lib/own_types.py)."""
from own_run import *


def run(c):
    own_run(c, OPS, c.pick(60, 500))
