"""C07: scanner actions."""
from vlib import dump, compare, lexloop
from vlib.report import Check

RULE = ("parse_token is summarised by abstract interpretation once per scanner mode and flex rule, with the text length and "
        "leading bytes constrained to the rule's language; every partition is compared with the effect PostgreSQL prescribes.")


def make(pid, text, level="proof", **kw):
    chk = Check(pid, text, level=level, **kw)
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("rules", compare.report, chk, prog, pid)
    if pid in ("C07", "C26"):
        chk.guard("lex", lexloop.report, chk, prog, pid)
    return chk


def run():
    return make("C07", RULE)
