"""C21: the generators are deterministic."""
from vlib import dump, order
from vlib.report import Check

RULE = ("Every function reachable from the generators' entry points is classified by its effects on MIR (environment, clock, randomness, "
        "addresses); every value that enumerates a hash collection is followed through the program (types, locals, fields, closures, "
        "returns) to the operations that consume it, which must not depend on the order, and loops over it must only have commuting effects.")


def run():
    chk = Check("C21", RULE, level="proof", assumptions=[
        "a sort makes a sequence filled in hash order deterministic: its keys differ for different elements",
        "rustfmt, which the generators run on their output, is deterministic"])
    for unit, main in (("lexer_generator-bin", "main"), ("parser_generator-bin", "main"), ("automata-lib", None)):
        prog = dump.load("gen", unit)
        roots = [k for k, f in prog.fns.items() if main is None or f["def"] == prog.crate + "::main"]
        if not roots:
            chk.undecided(unit, "", "no entry point")
            continue
        chk.guard(unit, order.report, chk, prog, roots, unit.split("-")[0] + ":")
    return chk
