"""Call depth: recursion in the call graph of an entry point and in the release of the values it owns."""
import re
from . import effects, graph
from .dump import where
from .eng import generics, split_top


def owned(prog, ty, out, depth=0):
    """Local types a value of type ty owns (references, raw and weak pointers own nothing)."""
    ty = ty.strip()
    if not ty or ty[0] in "&*" or ty.startswith(("fn(", "dyn ", "std::marker::PhantomData", "std::rc::Weak", "std::sync::Weak")):
        return out
    m = re.match(r"^[\w:<>]+?(?=<|$)", ty)
    for n in prog.adts:
        if re.match(re.escape(n) + r"(?![\w:])", ty):
            out.add(n)
    for g in split_top(ty.strip("()[]")) if ty[0] in "([" else generics(ty):
        owned(prog, g, out, depth + 1)
    return out


def owners(prog):
    """{local type: local types its values own}."""
    out = {}
    for n, a in prog.adts.items():
        if not n.startswith(prog.crate + "::"):
            continue
        s = set()
        for v in a["variants"]:
            for t in v["ftys"]:
                owned(prog, t, s)
        out[n] = {x for x in s if x.startswith(prog.crate + "::")}
    return out


def report(chk, prog, prefix="", entry="parse"):
    root = prog.one(prog.crate + "::" + entry)
    fs = graph.reachable(prog, [root["id"]])
    es = graph.edges(prog)
    cyc = graph.sccs(sorted(fs), lambda v: [x for x in es[v] if x in fs])
    own = owners(prog)
    rec = [c for c in graph.sccs(sorted(own), lambda v: [x for x in own[v] if x in own])]
    rectypes = {t for c in rec for t in c}
    chk.count("functions", len(fs))
    chk.count("types", len(own))
    # the one recursion the tree emission consists of: over the nodes, with the tree builder in hand
    emit, nodes = None, set()
    for c in cyc:
        tys = {re.sub(r"^&(mut )?", "", t) for k in c for t in prog.fns[k]["locals"][1:1 + prog.fns[k]["nargs"]]}
        builds = any("GreenNodeBuilder" in effects.name(f) and "start_node" in effects.name(f) for k in c for _, _, _, f in effects.calls(prog, [k]))
        if builds and tys & rectypes and emit is None:
            emit, nodes = c, tys & rectypes
    incyc = {k for c in cyc for k in c}
    for c in cyc:
        named = sorted(prog.fns[k]["def"] for k in c)
        at = where(prog.fns[sorted(c, key=lambda k: prog.fns[k]["line"])[0]])
        chk.refuted(prefix + ("recursion:tree emission" if c is emit else "recursion:" + ",".join(named)), at,
                    "call cycle %s: the depth follows the input" % " -> ".join(named))
    for k in sorted(fs - incyc):
        chk.proved(prefix + "acyclic:" + prog.fns[k]["def"], where(prog.fns[k]), "on no call cycle")
    used = used_types(prog, fs)
    for c in rec:
        if not set(c) & used:
            continue
        oid = prefix + ("drop:parse node" if set(c) & nodes else "drop:" + ",".join(sorted(c)))
        if any(graph.drop_impls(prog, t) for t in c):
            chk.undecided(oid, ",".join(c), "the type owns itself but releases itself with its own Drop")
        else:
            chk.refuted(oid, ",".join(sorted(c)), "a value owns values of its own type, so releasing it recurses as deep as it is nested")
    for t in sorted(own):
        if t not in rectypes and t in used:
            chk.proved(prefix + "flat:" + t, t, "owns no value of its own type")


def used_types(prog, fs):
    out = set()
    for k in fs:
        for l in prog.fns[k]["locals"]:
            owned(prog, re.sub(r"^(&(mut )?)+", "", l), out)
    return out
