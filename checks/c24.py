"""C24: the WebAssembly binding."""
from vlib import dump, wasm
from vlib.report import Check

RULE = ("The entry point is partitioned by abstract interpretation of its MIR, panicking outcomes included: every partition passes the "
        "text itself to the parser and returns a text built from the tree or from the error the parser answered.")


def run():
    chk = Check("C24", RULE, level="proof")
    chk.guard("wasm", wasm.report, chk, dump.load("gen", "postgresql_cst_parser_wasm-cdylib"))
    return chk
