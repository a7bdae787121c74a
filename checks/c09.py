"""C09: the two-token keywords."""
from vlib import dump, driver, tokfilter
from vlib.report import Check

RULE = ("init_tokens is summarised; the search for the next token has to pass over comments and nothing else, and every "
        "partition of the reclassification is compared with the table in PostgreSQL's base_yylex (parser.c). The driver's "
        "summary shows the filter is applied once, to all tokens, before parsing.")


def run():
    chk = Check("C09", RULE, level="proof")
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("filter", tokfilter.report, chk, prog, "C09")
    chk.guard("driver", driver.report, chk, prog, "C09")
    return chk
