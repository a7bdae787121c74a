"""C22: the regular-expression compiler honours its operators."""
from vlib import dump, nfa
from vlib.report import Check

RULE = ("Every function of the compiler is summarised from MIR (one transfer per partition and per loop pass). The Thompson summary of each operator is "
        "instantiated for small operands and the language of the graph it describes compared with what the operator denotes, together with the "
        "condition that lets a fragment stand for a letter (no edge into its own start, none out of its own end); the pattern parser's summaries "
        "are compared, per construct, with the syntax tree the dialect prescribes; the closure, the subset construction and the per-state "
        "assembly are compared on small automata and rule sets with the sets of states they must reach.")


def run():
    chk = Check("C22", RULE, level="other", assumptions=[
        "loops are uniform in their counters: what the summary does for small operands, sets and automata it does for larger ones",
        "BTreeSet, BTreeMap, HashMap, RefCell and the arena behave as documented; add_transition and set_accept store what they are given",
        "patterns keep to the dialect the specification uses: at most two hexadecimal or three octal digits, no anchors, no trailing context"])
    prog = dump.load("gen", "automata-lib")
    chk.guard("operators", nfa.thompson, chk, prog)
    chk.guard("patterns", nfa.patterns, chk, prog)
    chk.guard("determinise", nfa.determinise, chk, prog)
    chk.guard("compile", nfa.compiling, chk, prog)
    chk.guard("states", nfa.states, chk, prog)
    return chk
