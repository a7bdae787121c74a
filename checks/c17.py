"""C17: call depth."""
from vlib import dump, depth
from vlib.report import Check

RULE = ("The call graph of parse is decomposed into strongly connected components and the ownership graph of its types likewise: "
        "every cycle is a depth that follows the input.")


def run():
    chk = Check("C17", RULE, level="proof")
    chk.guard("default", depth.report, chk, dump.load("default", "postgresql_cst_parser-lib"))
    chk.guard("regex", depth.report, chk, dump.load("regex", "postgresql_cst_parser-lib"), "regex:")
    return chk
