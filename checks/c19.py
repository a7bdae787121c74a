"""C19: how the table generator resolves conflicts."""
from vlib import conflict, dump
from vlib.report import Check

RULE = ("One pass of the conflict-resolving loop, of the reduce-action choice and of the declaration reader is explored from an arbitrary "
        "state; every partition of (rule precedence, token precedence, associativity) must store the action bison prescribes.")


def run():
    chk = Check("C19", RULE)
    prog = dump.load("gen", "parser_generator-bin")
    chk.guard("conflict", conflict.report, chk, prog)
    return chk
