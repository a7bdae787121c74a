"""C25: where operators end."""
from vlib import dump, operators
from vlib.report import Check

RULE = ("The operator rule's action is summarised (substring searches, the qualifying-character search and the sign-dropping loop "
        "included); every partition is compared with the cut and token kind PostgreSQL prescribes.")


def run():
    chk = Check("C25", RULE, level="proof", assumptions=["an operator match never starts with a comment start (C06)"])
    chk.guard("operator", operators.report, chk, dump.load("default", "postgresql_cst_parser-lib"))
    return chk
