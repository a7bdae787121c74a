"""C02: parsing never panics."""
from vlib import dump, panics
from vlib.report import Check

RULE = ("No operation that panics is reachable in parse(): every panicking partition of the summarised functions is contradicted by "
        "facts derived from the source. For each scanner mode the matcher's walk over its tables stays inside them, some rule "
        "matches every text and a match ends between characters; for each mode and rule the panicking partitions of the action are "
        "compared with the texts the rule's automaton accepts (lengths, first and last bytes, digits, character boundaries), and "
        "the scan position, token bounds and nesting depth those facts rest on are shown to be kept; the token loop and the token "
        "filter; in the LR driver the decoded tables give every lookup inside its table, rule indexes and names that exist and at "
        "least as many stack entries in every state as the rules reduced there pop; tree builder calls are balanced; every syntax "
        "kind number that is converted exists. A partition is refuted when all its facts hold for a sample text of the rule or in "
        "a configuration the tables reach on a sample text.")


def run():
    chk = Check("C02", RULE, level="proof", assumptions=[
        "texts are shorter than 2 GB and memory suffices; recursion depth is C17's subject",
        "library functions named in the notes do not panic; cstree's builder panics only on unbalanced calls",
        "token texts lie in the input in order, each on character boundaries (shown per rule here and in C01/C05)"])
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("panics", panics.report, chk, prog)
    chk.guard("keep", panics.keep_region, chk, dump.load("keep", "postgresql_cst_parser-lib"))
    return chk
