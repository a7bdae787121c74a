"""C03: lexing and parsing terminate."""
from vlib import dump, driver, term
from vlib.eng import loops_of
from vlib.report import Check
from vlib.rules import Scanner, reaches

RULE = ("Every loop reachable from parse() has to take an item from a finite iterator (whose end leaves the loop) or move a counter "
        "towards a tested bound on each round. The scanner's loops advance by the per-rule summaries: each partition moves "
        "the position forward or enters, without reading, a mode from which it does. The LR loop reads a token, "
        "leaves, or reduces; chains of reductions over the decoded tables are acyclic. Recursion only descends into children.")


def run():
    chk = Check("C03", RULE, level="proof", assumptions=["library calls other than closures of this crate return"])
    prog = dump.load("default", "postgresql_cst_parser-lib")
    chk.guard("driver", driver.report, chk, prog, "C03")
    chk.guard("reductions", term.lr, chk, prog)
    chk.guard("scanner", term.scanner, chk, prog)
    chk.guard("loops", loops, chk, prog)
    return chk


def loops(chk, prog):
    special = {}
    sc = Scanner(prog)
    for x in sc.flat:
        special[x] = "scanner"
    look = reaches(prog, prog.one("lookup_parser_action")["def"])
    for fn in prog.fns.values():
        for h, body in loops_of(fn).items():
            if h == "irreducible":
                continue
            for b in body:
                t = fn["blocks"][b]["t"]
                if t["k"] == "call" and t.get("f") and t["f"].get("res") in look:
                    special[(fn["def"], h)] = "LR loop"
    root = prog.one("cst::parse")
    d = None
    for c, names in term.loops(chk, prog, [root], special):
        oid = "recursion:" + "+".join(n.rsplit("::", 1)[-1] if "{closure" not in n else n.rsplit("::", 2)[-2] + "-closure" for n in names)
        emit = [n for n in names if n.endswith("parse_rec")]
        if emit and all(n.startswith(emit[0]) for n in names):
            if d is None:
                d = driver.Driver(prog)
                d.run()
            rel = [o for o in d.obs if "children:" in o[1]]
            bad = [o for o in rel if o[2] is not True]
            chk.decide(oid, True if rel and not bad else None, names[0],
                       "recursion only visits children of the node" if not bad else bad[0][4])
        else:
            chk.undecided(oid, names[0], "recursion without a known measure")
