"""C20: the table generator writes what the parser reads."""
from vlib import driver, dump, encoding
from vlib.report import Check

RULE = ("One pass of every loop of the compression functions is explored from an arbitrary state: the code of each entry, the default marker, "
        "the conditions under which an offset is accepted, what is stored; the template's text ties vectors to statics; the lookups' partitions "
        "are evaluated on every code the generator can write; the driver's partitions give the meaning of the looked-up code.")


def run():
    chk = Check("C20", RULE, level="proof", assumptions=["state and rule numbers fit the table's integer type"])
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("encoding", encoding.report, chk, dump.load("gen", "parser_generator-bin"), prog)
    chk.guard("driver", driver.report, chk, prog, "C04")
    return chk
