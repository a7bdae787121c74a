"""C10: comments and whitespace."""
from vlib import dump, driver, tokfilter
from vlib.report import Check

RULE = ("The driver's summaries: a comment token in the LR loop changes neither the state stack nor the node stack and is queued "
        "once for the emitter with its own kind and span; the emitter's whitespace tokens cover exactly the gap between the last "
        "position written and the next token. The token filter's search passes over comments.")


def run():
    chk = Check("C10", RULE, level="proof")
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("driver", driver.report, chk, prog, "C10")
    chk.guard("filter", tokfilter.report, chk, prog, "C10")
    return chk
