"""Termination: every loop and every recursion between input and tree makes progress."""
from .dump import AnalysisError, where
from . import graph, decode, tables, flex, scan, compare, gram
from .eng import loops_of, successors, Path, ladd, lsub, lez, eqz, T, show
from .rules import Scanner, LexShape, Lang, reaches, MATCH

# ---------------------------------------------------------------- loops of the code
ENDLESS = ("Repeat", "Cycle", "RangeFrom", "Successors", "FromFn", "RepeatWith", "RepeatN")
NEXT = ("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back", "std::iter::Iterator::nth")
POPS = ("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_front", "std::collections::VecDeque::<T, A>::pop_back",
        "std::vec::Vec::<T>::pop")
PEEKS = ("std::iter::Peekable::<I>::peek",)


def defs_of(fn):
    """{local: [(block, statement or terminator)]} of whole-local assignments."""
    if "_defs" in fn:
        return fn["_defs"]
    d = {}
    for i, b in enumerate(fn["blocks"]):
        for s in b["s"]:
            if "p" in s and not s["p"][1]:
                d.setdefault(s["p"][0], []).append((i, s["r"]))
        t = b["t"]
        if t["k"] == "call" and not t["dest"][1]:
            d.setdefault(t["dest"][0], []).append((i, t))
    fn["_defs"] = d
    return d


def root_of(fn, op, depth=0):
    """The local an `&mut X` operand refers to, or None."""
    p = graph.operand_place(op)
    if p is None or depth > 8:
        return None
    ds = defs_of(fn).get(p[0], [])
    if p[1] and p[1][0] == "*" and len(ds) != 1:
        return p[0]
    if len(ds) != 1:
        return p[0]
    r = ds[0][1]
    if "ref" in r:
        q = r["ref"]
        if q[1] and q[1][0] == "*":
            return root_of(fn, {"cp": [q[0], []]}, depth + 1)
        return q[0]
    if "use" in r:
        return root_of(fn, r["use"], depth + 1)
    return p[0]


class LoopRule:
    """One natural loop: every round has to consume an item of a finite iterator or container whose end leaves the loop,
    or to move a counter towards a bound that is tested."""

    def __init__(self, prog, fn, head, body):
        self.prog, self.fn, self.head, self.body = prog, fn, head, body
        self.blocks = fn["blocks"]
        self.leaves = {b for b in body if any(s not in body for s in successors(self.blocks[b]["t"]))}

    def cycle_avoiding(self, avoid):
        """A list of blocks head..head inside the loop that avoids the given blocks, or None."""
        if self.head in avoid:
            return None
        prev = {self.head: None}
        todo = [self.head]
        while todo:
            b = todo.pop(0)
            for s in successors(self.blocks[b]["t"]):
                if s == self.head:
                    out = [b]
                    while prev[out[-1]] is not None:
                        out.append(prev[out[-1]])
                    return out[::-1]
                if s in self.body and s not in prev and s not in avoid:
                    prev[s] = b
                    todo.append(s)
        return None

    def consumers(self):
        """{root local: (blocks that consume, blocks that test for the end)}"""
        out = {}
        for b in self.body:
            f = graph.callee(self.blocks[b]["t"])
            if not f:
                continue
            d = f.get("def")
            nxt = d in NEXT or f.get("res") in POPS
            peek = f.get("res") in PEEKS
            if not (nxt or peek):
                continue
            ty = (f.get("targs") or [""])[0]
            if any("::" + e + "<" in ty or ty.endswith("::" + e) for e in ENDLESS):
                continue
            if d in NEXT and f.get("res") in self.prog.by_def:
                continue
            if "FromFn" in ty or "std::iter::" not in ty and "std::" not in ty and nxt and d in NEXT:
                continue
            t = self.blocks[b]["t"]
            root = root_of(self.fn, t["args"][0])
            if root is None:
                continue
            if any(i in self.body for i, _ in defs_of(self.fn).get(root, ())):
                continue
            c = out.setdefault(root, (set(), set()))
            if nxt:
                c[0].add(b)
            dest = t["dest"][0]
            # the block that switches on the discriminant of the result and leaves the loop on None
            for x in self.body:
                tt = self.blocks[x]["t"]
                if tt["k"] != "switch":
                    continue
                on = graph.operand_place(tt["on"])
                if not on:
                    continue
                for i, r in defs_of(self.fn).get(on[0], ()):
                    if "discr" in r and r["discr"] == [dest, []]:
                        none = [y for v, y in tt["br"] if v == 0] or [tt["else"]]
                        if none[0] not in self.body:
                            c[1].add(x)
        return out

    def counters(self):
        """(blocks that move a counter, blocks that test it) per counter"""
        fn, out = self.fn, []
        moves = {}
        other = set()
        for b in self.body:
            for s in self.blocks[b]["s"]:
                if "p" not in s:
                    continue
                key = str(s["p"])
                st = self.step(s)
                if st is not None:
                    moves.setdefault(key, []).append((b, st))
                elif not s["p"][1] or True:
                    other.add(key)
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                other.add(str(t["dest"]))
        for key, ms in moves.items():
            if key in other:
                continue
            if len({x > 0 for _, x in ms}) != 1:
                continue
            tests = set()
            for b in self.leaves:
                t = self.blocks[b]["t"]
                if t["k"] != "switch":
                    continue
                on = graph.operand_place(t["on"])
                for i, r in defs_of(fn).get(on[0], ()) if on else ():
                    if r.get("bin") in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
                        sides = [self.same_place(r["a"], key), self.same_place(r["b"], key)]
                        if sides.count(True) == 1:
                            o = r["b"] if sides[0] else r["a"]
                            if self.invariant(o):
                                tests.add(b)
            out.append(({b for b, _ in ms}, tests))
        return out

    def step(self, s):
        """c when the statement is x = x + c."""
        r = s["r"]
        if "use" in r:
            p = graph.operand_place(r["use"])
            if p and len(p[1]) == 1 and isinstance(p[1][0], dict) and p[1][0].get("f") == 0:
                ds = defs_of(self.fn).get(p[0], ())
                if len(ds) == 1:
                    r = ds[0][1]
        op = r.get("chk") or r.get("bin")
        if op not in ("Add", "Sub"):
            return None
        a = graph.operand_place(r["a"])
        c = r["b"].get("c") if isinstance(r["b"], dict) else None
        v = c and (c.get("v") or {}).get("int") if c else None
        if a is None or not isinstance(v, int) or v <= 0:
            return None
        if not self.same_place(r["a"], str(s["p"])):
            return None
        return v if op == "Add" else -v

    def same_place(self, o, key):
        p = graph.operand_place(o)
        if p is None:
            return False
        if str(p) == key:
            return True
        ds = defs_of(self.fn).get(p[0], ())
        return not p[1] and len(ds) == 1 and "use" in ds[0][1] and str(graph.operand_place(ds[0][1]["use"])) == key

    def invariant(self, o, depth=0):
        p = graph.operand_place(o)
        if p is None:
            return True
        ds = [x for x in defs_of(self.fn).get(p[0], ()) if x[0] in self.body]
        if not ds:
            return not any("p" in s and s["p"][0] == p[0] for b in self.body for s in self.blocks[b]["s"])
        if len(ds) == 1 and depth < 6:
            r = ds[0][1]
            if "use" in r:
                return self.invariant(r["use"], depth + 1)
            f = graph.callee(r) if r.get("k") == "call" else None
            if f and (f.get("res") or "").endswith("::len"):
                x = root_of(self.fn, r["args"][0])
                return x is not None and not self.mutated(x, self.body)
            if "len" in r:
                return not self.mutated(r["len"][0], self.body)
        return False

    def mutated(self, loc, blocks):
        for b in blocks:
            for s in self.blocks[b]["s"]:
                if "p" in s and s["p"][0] == loc:
                    return True
                r = s.get("r", {})
                if r.get("k") == "mut" and "ref" in r and r["ref"][0] == loc and not self.only_peeked(s["p"][0]):
                    return True
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                if t["dest"][0] == loc:
                    return True
                for a in t["args"]:
                    p = graph.operand_place(a)
                    if p and p[0] == loc and "mut " in self.fn["locals"][loc]:
                        return True
        return False

    def only_peeked(self, tmp):
        uses = 0
        for b in self.blocks:
            t = b["t"]
            if t["k"] == "call" and any((graph.operand_place(a) or [None])[0] == tmp for a in t["args"]):
                f = graph.callee(t) or {}
                if f.get("res") not in PEEKS:
                    return False
                uses += 1
            for s in b["s"]:
                if "r" in s and tmp in graph.reads(s["r"], set()):
                    return False
        return uses > 0

    def stuck(self, cyc):
        """True when one round along this cycle changes nothing its own branches depend on."""
        inside = set(cyc)
        assigned = {}
        for b in cyc:
            for s in self.blocks[b]["s"]:
                if "p" in s:
                    assigned.setdefault(s["p"][0], []).append(("s", s["p"], s["r"]))
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                assigned.setdefault(t["dest"][0], []).append(("c", t["dest"], t))
            elif t["k"] not in ("goto", "switch", "assert", "drop"):
                return False
        need, base = set(), set()
        todo = []
        for b in cyc:
            t = self.blocks[b]["t"]
            if t["k"] == "switch":
                todo += list(graph.reads(t["on"], set()))
            if t["k"] == "assert":
                todo += list(graph.reads(t["cond"], set()))
        while todo:
            x = todo.pop()
            if x in need:
                continue
            need.add(x)
            if x not in assigned:
                base.add(x)
                continue
            for k, p, r in assigned[x]:
                if p[1]:
                    return False       # a partial write: not followed
                if k == "s":
                    todo += list(graph.reads(r, set()))
                else:
                    f = graph.callee(r) or {}
                    if f.get("res") in PEEKS or f.get("krate") in ("core", "alloc", "std") and not any(
                            "mut " in self.argty(a) for a in r["args"]):
                        for a in r["args"]:
                            todo += list(graph.reads(a, set()))
                    else:
                        return False
        # a local assigned in the round must be assigned before it is used
        seen = set()
        for b in cyc:
            for s in self.blocks[b]["s"]:
                if "r" in s:
                    for x in graph.reads(s["r"], set()):
                        if x in need and x in assigned and x not in seen:
                            return False
                    if "p" in s:
                        seen.add(s["p"][0])
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                seen.add(t["dest"][0])
        return not any(self.mutated(x, inside) for x in base)

    def argty(self, a):
        p = graph.operand_place(a)
        return self.fn["locals"][p[0]] if p and not p[1] else ""

    def verdict(self):
        for root, (eat, end) in self.consumers().items():
            if eat and end and self.cycle_avoiding(eat) is None and self.cycle_avoiding(end) is None:
                return True, "every round takes an item"
        for move, test in self.counters():
            if test and self.cycle_avoiding(move) is None and self.cycle_avoiding(test) is None:
                return True, "every round moves a counter towards its bound"
        eats = set()
        for root, (eat, end) in self.consumers().items():
            eats |= eat
        cyc = self.cycle_avoiding(eats)
        if cyc is not None and self.stuck(cyc):
            return False, "a round through %s changes nothing that decides whether another round follows" % self.lines(cyc)
        return None, "no measure found for the loop at %s" % self.lines([self.head])

    def lines(self, bs):
        ls = sorted({s["l"] for b in bs for s in self.blocks[b]["s"] if "l" in s} | {self.blocks[b]["t"]["l"] for b in bs if "l" in self.blocks[b]["t"]})
        return "lines %s" % ", ".join(map(str, ls[:6])) if ls else "block %d" % bs[0]


def loops(chk, prog, roots, special):
    """special: {(def, head): why it is decided elsewhere}"""
    ids = graph.reachable(prog, [r["id"] for r in roots])
    chk.count("functions", len(ids))
    for k in sorted(ids):
        fn = prog.fns[k]
        ls = loops_of(fn)
        n = 0
        for head in sorted(h for h in ls if h != "irreducible"):
            n += 1
            oid = "loop:%s:%d" % (fn["def"].rsplit("::", 1)[-1] if "{closure" not in fn["def"] else fn["def"].rsplit("::", 2)[-2], n)
            chk.count("loops")
            if (fn["def"], head) in special:
                continue
            r = LoopRule(prog, fn, head, ls[head])
            ok, why = r.verdict()
            chk.decide(oid, ok, where(fn), why)
        if "irreducible" in ls:
            chk.undecided("loop:%s:irreducible" % fn["def"], where(fn), "control flow is not reducible")
    es = graph.edges(prog)
    for c in graph.sccs(sorted(ids), lambda x: sorted(es.get(x, ()) & ids)):
        names = sorted(prog.fns[x]["def"] for x in c)
        yield c, names


# ---------------------------------------------------------------- reductions
ERROR = 0x7FFF


class Reduce:
    """Chains of reductions without reading a token, over the decoded tables."""

    def __init__(self, prog):
        self.g = gram.grammar()
        self.A, self.G = decode.Table(prog, "lookup_parser_action"), decode.Table(prog, "lookup_goto_state")
        self.R = tables.rules(prog)
        self.tid = tables.terminal_ids(prog, self.g.terms)[0]
        self.rid = tables.rule_ids(prog)[0]
        self.terms = sorted(set(self.tid.values()))
        self.name = {v: k for k, v in self.tid.items()}
        self.go = {}
        self.acts = {}
        self.eff_ = {}
        self.active = []
        self.cycle = None

    def goto(self, s, name):
        k = (s, name)
        if k not in self.go:
            v = self.G(s, self.rid[name])
            self.go[k] = None if v is None or v < 0 else v
        return self.go[k]

    def reduces(self, s):
        """{rule: number of a lookahead} of a state, and the shift targets"""
        if s not in self.acts:
            red, sh = {}, {}
            for c in self.terms:
                v = self.A(s, c)
                if v is None or v == ERROR or v == 0:
                    continue
                if v > 0:
                    sh[c] = v - 1
                else:
                    red.setdefault(-v - 1, set()).add(c)
            self.acts[s] = (red, sh)
        return self.acts[s]

    def eff(self, s, only=None):
        """What reductions starting with state s on top can do to the stack: set of (popped, name), popped >= 1."""
        k = (s, only)
        if k in self.eff_:
            r = self.eff_[k]
            if r is None:
                self.cycle = self.active[self.active.index(k):] + [k]
                raise Cycle("empty reductions pile up states without end: %s" % " -> ".join(str(x[0]) for x in self.cycle), s)
            return r
        self.eff_[k] = None
        self.active.append(k)
        out = set()
        try:
            for rule, las in self.reduces(s)[0].items():
                if only is not None and only not in las:
                    continue
                if rule >= len(self.R):
                    continue
                name, n = self.R[rule]
                if n:
                    out.add((n, name))
                    continue
                for m, b in self.level(s, [name], only):
                    out.add((m, b))
        finally:
            self.active.pop()
        self.eff_[k] = out
        return out

    def level(self, p, names, only):
        """Reductions on the level just above state p, starting by going to names; yields what pops p itself as well."""
        out = set()
        nxt = {}
        todo = []
        for n in names:
            u = self.goto(p, n)
            if u is not None and u not in nxt:
                nxt[u] = set()
                todo.append(u)
        while todo:
            u = todo.pop()
            for m, b in self.eff(u, only):
                if m > 1:
                    out.add((m - 1, b))
                    continue
                v = self.goto(p, b)
                if v is None:
                    continue
                nxt[u].add(v)
                if v not in nxt:
                    nxt[v] = set()
                    todo.append(v)
        for c in graph.sccs(list(nxt), lambda x: nxt[x]):
            raise Cycle("on top of state %d reductions of one symbol go round through states %s" % (p, sorted(c)), p)
        return out


class Cycle(Exception):
    def __init__(self, what, state):
        Exception.__init__(self, what)
        self.state = state


def lr(chk, prog):
    r = Reduce(prog)
    for n in {n for n, _ in r.R} - set(r.rid):
        chk.undecided("reductions:names", "RULES", "rule name %s has no number" % n)
        return
    w = where(r.A.fn)
    # states that can be on the stack, and which can lie on which
    seen, todo, above = {0}, [0], {}
    while todo:
        p = todo.pop()
        us = set(r.reduces(p)[1].values())
        for n in r.rid:
            u = r.goto(p, n)
            if u is not None:
                us.add(u)
        above[p] = us
        for u in us:
            if u not in seen:
                seen.add(u)
                todo.append(u)
    chk.count("states", len(seen))
    bad = 0
    pairs = 0
    edges = 0
    for p in sorted(above):
        try:
            nxt = {}
            work = sorted(above[p])
            for u in work:
                pairs += 1
                nxt[u] = {v for v in (r.goto(p, b) for m, b in r.eff(u) if m == 1) if v is not None}
                edges += len(nxt[u])
            for c in graph.sccs(list(nxt), lambda x: nxt.get(x, ())):
                raise Cycle("on top of state %d reductions of one symbol go round through states %s" % (p, sorted(c)), p)
        except Cycle as x:
            bad += 1
            if bad > 10:
                break
            t = confirm(r, p, above[p])
            # a lookahead for which the chain really never ends
            r.eff_ = {k: v for k, v in r.eff_.items() if v is not None}
            r.active = []
            chk.decide("reductions:%d" % p, False if t else None, w, "%s%s" % (x, " on token %s" % r.name.get(t, t) if t else ""))
    if not bad:
        chk.proved("reductions", w, "no chain of reductions returns to its own configuration")
    chk.count("stack_pairs", pairs)
    chk.count("one_symbol_steps", edges)


def confirm(r, p, us):
    """A terminal for which reductions from some state on top of p never end."""
    import copy
    for c in r.terms:
        q = copy.copy(r)
        q.eff_, q.active = {}, []
        try:
            nxt = {}
            for u in us:
                nxt[u] = {v for v in (q.goto(p, b) for m, b in q.eff(u, c) if m == 1) if v is not None}
            for cyc in graph.sccs(list(nxt), lambda x: nxt.get(x, ())):
                return c
        except Cycle:
            return c
    return None


# ---------------------------------------------------------------- the scanner moves on
def scanner(chk, prog):
    sc = Scanner(prog)
    lx = LexShape(sc)
    defs, states, rs, trees, dfas = flex.mode_dfas()
    w = where(sc.fn)
    zero = {}            # mode -> {mode: (rule, first bytes, detail)}
    for mode in states:
        tab = chk.guard("tables:" + mode, scan.analyse_match, prog, sc.shape, mode)
        if tab is None or not hasattr(tab, "start"):
            chk.undecided("tables:" + mode, w, "the scan tables were not recognised")
            continue
        oid = "match:" + mode
        acc, row = tab.acc.v, tab.trans.v[tab.start].v
        # can the match be empty although there is text left?
        blank = acc[tab.start] != tab.dead and any(t >= len(acc) or acc[t] == tab.dead for t in row[1:256])
        if tab.unclear:
            chk.undecided(oid, where(sc.match), str(tab.unclear[:1])[:200])
        else:
            chk.proved(oid, where(sc.match), "an empty match before the end of the text is %s" % ("possible" if blank else "impossible"))
        vals = compare.rule_values(tab, dfas[mode])
        for r in rs:
            if mode not in r.states:
                continue
            lang = Lang(dfas[mode], r.index)
            if lang.min is None or r.index not in vals or r.index == 62:
                continue
            if not blank and not lang.eof and lang.min == 0:
                lang.min = 1
            one(chk, sc, lx, r, mode, lang, vals[r.index], zero, w)
    for c in graph.sccs(sorted(zero), lambda m: zero.get(m, {})):
        real = None
        for a in c:
            for b, (ra, fa, da) in zero[a].items():
                if b in c:
                    real = (a, b, ra, da) if b == a else real
        first = [(a, b, zero[a][b]) for a in c for b in zero[a] if b in c]
        ok = None
        if real:
            ok = False
        elif len(first) == 2 and first[0][2][1] & first[1][2][1]:
            ok = False
        chk.decide("standstill:" + "-".join(sorted(c)), ok, w, "; ".join(
            "in mode %s rule %d reads nothing and goes to mode %s (%s)" % (a, r_, b, d[:150]) for a, b, (r_, _, d) in first)[:500])
        return
    chk.proved("standstill", w, "modes entered without reading: %s" % "; ".join(
        "%s -> %s" % (a, ", ".join(sorted(zero[a]))) for a in sorted(zero)))


def one(chk, sc, lx, r, mode, lang, value, zero, w):
    oid = "advance:%s:%d" % (mode, r.index)
    w2 = "%s, rule %d %s in mode %s" % (w, r.index, r.pattern, mode)
    cmp = chk.guard(oid, compare.Compare, sc, lx, r.index, mode, lang, value)
    if cmp is None:
        return
    got = chk.guard(oid, cmp.finals)
    if got is None:
        return
    e, ref, (s, i, n), finals = got
    verdict, why = True, ""
    for f in finals:
        for ok, d in advance(sc, lx, cmp, e, f, ref, i, s, n, mode, r, lang, zero):
            chk.count("partitions")
            if ok is not True and verdict is not False:
                verdict, why = ok, d
    chk.decide(oid, verdict, w2, why)


def advance(sc, lx, cmp, e, f, ref, i, s, n, mode, r, lang, zero):
    if f.status in ("panic", "unreachable"):
        return
    if f.status == "next":
        ref = f.why
        yield step(sc, cmp, e, f, ref, sc.shape.get(e, f, ref, "index_bytes"), i, mode, r, lang, zero, s, n)
        return
    if f.status != "return":
        yield None, "%s: %s" % (f.status, f.why)
        return
    ret = f.ret
    if not (isinstance(ret, tuple) and ret[0] == "adt"):
        yield None, "result %s" % show(ret)[:80]
        return
    if ret[2] == 1:
        return
    o = ret[3][0]
    if not (isinstance(o, tuple) and o[0] == "adt"):
        yield None, "result %s" % show(ret)[:80]
        return
    if o[2] == 0:
        return
    kind = o[3][0]
    if not (isinstance(kind, tuple) and kind[0] == "adt"):
        yield None, "kind %s" % show(kind)[:80]
        return
    name = lx.variants[kind[2]]["name"]
    m = {lx.syms[x]: sc.shape.get(e, f, ref, x) for x in lx.FIELDS}
    for part in lx.by_kind.get(name, ()):
        if part[0] == "stop":
            continue
        if part[0] == "unknown":
            yield None, "delivery of %s: %s" % (name, part[1])
            continue
        yield step(sc, cmp, e, f, ref, compare.subst(part[3], m), i, mode, r, lang, zero, s, n)


def step(sc, cmp, e, f, ref, idx, i, mode, r, lang, zero, s, n):
    if idx is None:
        return None, "the next position was not followed"
    d = lsub(idx, i)
    if f.truth(lez(lsub(1, d))) == 1:
        return True, ""
    if f.truth(eqz(d)) == 1:
        st = sc.shape.get(e, f, ref, "state")
        if isinstance(st, tuple) and st[0] == "adt":
            to = [sc.shape.modes[st[2]]]
        else:
            to = None
        first = frozenset(lang.pos[0]) if lang.pos else frozenset()
        if to is None:
            if mode != "xqs":
                return None, "the mode after reading nothing is %s" % show(st)[:80]
            to = [m for m in sc.shape.modes if m not in ("INITIAL", "xqs")]
        for m in to:
            zero.setdefault(mode, {})[m] = (r.index, first, cmp.describe(f))
        return True, ""
    if f.truth(lez(d)) == 1:
        return False, "scanning continues %s bytes before the match (%s)" % (show(lsub(0, d)), cmp.describe(f))
    return None, "scanning continues at %s" % show(idx)[:120]
