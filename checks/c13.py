"""C13"""
from vlib import dump, effects
from vlib.report import Check

RULE = ('Every function reachable from parse (direct calls, closures, trait impls library code may call back) is checked for calls that read or write anything but its arguments, for mutable or interior-mutable statics, and for addresses turned into numbers.')


def run():
    chk = Check("C13", RULE, level="proof")
    for c in ("default", "keep", "regex"):
        prog = dump.load(c, "postgresql_cst_parser-lib")
        chk.guard(c, effects.report_pure, chk, prog, c + ":")
    return chk
