"""C14"""
from vlib import dump, effects
from vlib.report import Check

RULE = ('Every unsafe construct of the crate (from the typed HIR, macro expansions included), every static and the auto traits of every public result type are enumerated; the one conversion from raw numbers is checked on the partitions of its MIR.')


def run():
    chk = Check("C14", RULE, level="proof")
    for c in ("default", "keep", "regex"):
        prog = dump.load(c, "postgresql_cst_parser-lib")
        chk.guard(c, effects.report_safe, chk, prog, c + ":")
    return chk
