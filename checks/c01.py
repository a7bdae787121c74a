"""C01: the tree's tokens are the input."""
from vlib import dump, driver, compare, lexloop
from vlib.report import Check

RULE = ("lex(), the LR loop of parse(), its tail loop and the tree emission are summarised with loop summaries; every partition has "
        "to hand each token on exactly once with its own span, and the emitter to fill the gaps between spans with exactly the "
        "text of the gap. The scanner's partitions have to deliver ordered spans inside the input (rule obligations, "
        "shared with C26).")


def run():
    chk = Check("C01", RULE, level="proof", assumptions=["rowan/cstree GreenNodeBuilder keeps text and order of what is pushed"])
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("driver", driver.report, chk, prog, "C01")
    chk.guard("spans", compare.report, chk, prog, "C26", compare.values_table, "spans:")
    chk.guard("lex", lexloop.report, chk, prog, "C01")
    return chk
