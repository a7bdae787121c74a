"""C11: position of a syntax error."""
from vlib import dump, driver
from vlib.report import Check

RULE = ("parse()'s LR loop is summarised; every partition that returns a parse error must do so because the table lookup for the "
        "current state and token (or the token's missing terminal number) says error, before anything else happened in the step, "
        "and its start, end and message position must be the span of that token; the end marker's span is the end of the input.")


def run():
    chk = Check("C11", RULE, level="proof")
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("driver", driver.report, chk, prog, "C11")
    return chk
