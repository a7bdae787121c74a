"""C16: the remove-empty-node feature."""
from vlib import dump, driver
from vlib.report import Check

RULE = ("The tree emission and the driver are summarised in both builds. With the feature a node is skipped exactly on the paths "
        "where its start equals its end, and nothing else differs; without it no path skips a node.")


def run():
    chk = Check("C16", RULE, level="proof")
    chk.guard("default", driver.report, chk, dump.load("default", "postgresql_cst_parser-lib"), "C16")
    chk.guard("keep", driver.report, chk, dump.load("keep", "postgresql_cst_parser-lib"), "C16", True, "keep:")
    return chk
