"""C12"""
from vlib import dump, driver, lexloop
from .c07 import make

RULE = 'Every partition of parse_token whose prescribed or actual outcome is an error is compared with the error PostgreSQL prescribes; lex() and parse() are summarised to show that an error result is returned unchanged.'


def run():
    chk = make('C12', RULE)
    chk.guard("driver", driver.report, chk, dump.load("default", "postgresql_cst_parser-lib"), "C12")
    chk.guard("lex", lexloop.report, chk, dump.load("default", "postgresql_cst_parser-lib"), "C12")
    return chk
