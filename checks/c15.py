"""C15: the regex build tokenises like the default build."""
from vlib import dump, regexcmp
from vlib.report import Check

RULE = ("The patterns of the rule list (evaluated from its constructor) are turned into leftmost-first automata; the product of all "
        "rules of a mode over valid UTF-8 is compared with the flex automaton of the mode (which C06 compares with the default "
        "tables), the loop of the matching function is summarised and compared with 'first longest match among the rules of the "
        "state', every action is compared with the prescription the default build's action is compared with, and all functions "
        "outside the scanner must have the same MIR in both builds.")


def run():
    chk = Check("C15", RULE, level="proof", assumptions=[
        "the default build matches like the flex automata (C06)",
        "the regex crate implements its documented leftmost-first semantics",
        "the input contains no NUL byte (rejected before matching: C02/C10)"])
    a = dump.load("default", "postgresql_cst_parser-lib")
    b = dump.load("regex", "postgresql_cst_parser-lib")
    chk.guard("regex", regexcmp.report, chk, a, b)
    return chk
