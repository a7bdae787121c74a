"""C23: the scanner embedded in the parser generator behaves like the shipped one."""
from vlib import compare, dump, flex, lexloop, operators
from vlib.report import Check
from . import c06, c08

RULE = ("Both copies of the scanner are compiled and summarised on their own: the scan tables of every mode are compared with the "
        "flex automata, the matching loop, every rule's action per partition, the operator rule, the token loop, the keyword map and "
        "its lookup with their prescriptions. An obligation both copies meet holds; one that a single copy breaks is a difference "
        "between them; one that both break is left undecided.")
UNITS = (("default", "postgresql_cst_parser-lib"), ("gen", "parser_generator-bin"))


def one(prog):
    """Every obligation about one copy: {id: (verdict, where, detail)}."""
    out, counts = {}, {}

    def part(name, f, *a):
        c = Check(name, "")
        c.guard(name, f, c, prog, *a)
        for o, v, w, d in c.obs:
            o = o.split("::")[-1] if "::" in o else o
            k = name + ":" + o
            old = out.get(k)
            rank = {"proved": 0, "undecided": 1, "refuted": 2}
            if old is None or rank[v] > rank[old[0]]:
                out[k] = (v, w, d)
        for k, v in c.counts.items():
            counts[k] = counts.get(k, 0) + v
    defs, states, rules, trees, dfas = flex.mode_dfas()
    part("tables", c06.body, states, rules, dfas)
    part("rules", compare.report, "C23")
    part("operator", operators.report)
    for pid in ("C07", "C12", "C26"):
        part("lex" + pid, lexloop.report, pid)
    kw = c08.kwlist()
    part("map", c08.check_map, kw)
    part("lookup", c08.check_lookup, kw)
    part("installed", c08.check_installed)
    return out, counts


def body(chk):
    (a, ca), (b, cb) = [one(dump.load(*u)) for u in UNITS]
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            z = x or y
            # an obligation that exists for one copy only (a keyword just one of them maps, for instance)
            if z[0] == "refuted":
                chk.refuted(k, z[1], "only in the %s: %s" % ("shipped scanner" if x else "generator's scanner", z[2]))
            else:
                chk.undecided(k, z[1], "this obligation arises in one copy only: " + z[2])
        elif x[0] == y[0] == "proved":
            chk.proved(k, y[1], y[2])
        elif {x[0], y[0]} == {"proved", "refuted"}:
            z, n = (x, "the shipped scanner") if x[0] == "refuted" else (y, "the generator's scanner")
            chk.refuted(k, z[1], "the copies differ, %s departs from the prescription the other meets: %s" % (n, z[2]))
        else:
            chk.undecided(k, y[1], "shipped: %s %s; generator: %s %s" % (x[0], x[2], y[0], y[2]))
    for k in ca:
        chk.count("shipped_" + k, ca[k])
    for k in cb:
        chk.count("generator_" + k, cb[k])


def run():
    chk = Check("C23", RULE, level="proof", assumptions=[
        "scan.l and kwlist.h stand for the behaviour both copies share; a change made alike in both is the subject of C06-C08, C12, C25, C26"])
    chk.guard("copies", body, chk)
    return chk
