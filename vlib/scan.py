"""What the scanner's matching function computes, read off its MIR per mode: the tables it walks and the roles its
loop variables play; plus the product of those tables with the flex automata."""
from collections import Counter, deque
from .dump import AnalysisError, where
from .eng import Engine, T, Arr, mk, lift, ladd, lsub, lez, eqz, show, adt, Path
from . import flex

LEXER = "lexer::Lexer"


class LexerShape:
    """Field indexes of the Lexer structure and the scanner modes, by name."""

    def __init__(self, prog):
        self.prog = prog
        cands = [n for n in prog.adts if n.endswith(LEXER)]
        if len(cands) != 1:
            raise AnalysisError("the Lexer structure was not found")
        self.name = cands[0]
        v = prog.adts[self.name]["variants"][0]
        self.fields = {n: i for i, n in enumerate(v["fields"])}
        self.ftys = v["ftys"]
        st = self.ftys[self.field("state")]
        self.state_ty = st
        if st not in prog.adts:
            raise AnalysisError("the scanner mode type was not found")
        self.modes = [x["name"] for x in prog.adts[st]["variants"]]

    def field(self, n):
        if n not in self.fields:
            raise AnalysisError("Lexer has no field %s" % n)
        return self.fields[n]

    def mode(self, name):
        return adt(self.state_ty, self.modes.index(name))

    def lexer(self, p, known):
        """A reference to an arbitrary Lexer whose listed fields have the given values."""
        base = mk("sym", ("lexer",), self.name)
        rec = ("rec", base, None, tuple(sorted((self.field(k), v) for k, v in known.items())))
        cell = ("arg", "lexer")
        p.mem[cell] = rec
        return ("ref", cell, ())

    def get(self, e, p, ref, name):
        return e.proj(p, e.read(p, ref), ("f", self.field(name), self.ftys[self.field(name)]))


def uncast(t):
    while isinstance(t, T) and t.op == "cast":
        t = t.args[0]
    return t


def root_arr(t):
    """(Arr, index list) of nested element terms."""
    idx = []
    t = uncast(t)
    while isinstance(t, T) and t.op == "elem":
        idx.append(uncast(t.args[1]))
        t = uncast(t.args[0])
    return (t if isinstance(t, Arr) else None), idx[::-1]


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(a for a in x.args if isinstance(a, (T, tuple)))
        elif isinstance(x, tuple):
            st.extend(a for a in x if isinstance(a, (T, tuple)))


class Match:
    """Summary of find_match_len in one mode."""

    def __init__(self, mode):
        self.mode = mode
        self.trans = self.acc = None
        self.dead = None
        self.problems = []     # (construct, detail): deviations from the matching rule
        self.unclear = []      # shapes that were not understood
        self.round_mid = False
        self.strange = None


def analyse_match(prog, shape, mode):
    fns = prog.find("find_match_len")
    if len(fns) != 1:
        raise AnalysisError("find_match_len not found")
    fn = fns[0]
    e = Engine(prog, panics=False)
    e.merge = False
    p = Path()
    ref = shape.lexer(p, {"state": shape.mode(mode)})
    finals = e.run(fn, [ref], p)
    m = Match(mode)
    shape_of_match(prog, fn, m, e, finals)
    if m.problems and m.strange:
        m.unclear += ["%s (not decided: %s)" % (d, m.strange) for _, d in m.problems]
        m.problems = []
    return m


def strange_atoms(paths, extra, trans, acc, X, Y):
    """What the matching loop looks at beyond its tables, the text and its own variables."""
    for q in paths:
        ts = set()
        for src in (q.facts, q.eqs, q.ne, q.iv, q.strs):
            for k in src:
                ts |= set(subterms(k))
        for k in q.lins:
            ts |= set(subterms(k))
        for t in ts:
            if t.op in ("lin", "eqz", "lez", "not", "len", "phi", "sym", "first", "fld", "as", "discr", "iscb", "boundary", "slice", "cast", "byte"):
                continue
            if t.op == "elem":
                a, idx = root_arr(t)
                if a is trans:
                    continue
                if isinstance(a, Arr) and uncast(t.args[1]) in (X, Y):
                    continue
                if a is not None and not isinstance(a, Arr):
                    continue
                return "a test of %s" % show(t)[:80]
            else:
                return "a test of %s" % show(t)[:80]
    return None


def shape_of_match(prog, fn, m, e, finals):
    mode = m.mode
    m.fn = fn
    m.finals, m.engine = finals, e
    loops = [(k, v) for k, vs in e.loop_log.items() for v in vs]
    main = None
    for k, (head, backs, exits) in loops:
        for q in backs:
            for v in q.mem.values():
                for t in subterms(v):
                    a, idx = root_arr(t)
                    if a is not None and len(idx) == 2 and isinstance(idx[1], T) and idx[1].op == "byte" \
                            and isinstance(idx[0], T) and idx[0].op == "phi":
                        main = (k, head, backs, exits, a, idx)
                        break
    if main is None:
        raise AnalysisError("the matching loop of find_match_len was not recognised")
    k, head, backs, exits, trans, (dphi, byte) = main
    m.trans = trans
    m.key = k
    m.line = [b["t"].get("l") for b in fn["blocks"]][0] if False else fn["line"]
    X = mk("elem", (mk("elem", (trans, dphi), None), byte), None)
    Y = mk("elem", (mk("elem", (trans, dphi), None), 0), None)
    m.dead = 255
    # accept table: elements indexed by X
    accs = set()
    for q in backs + [f for f in finals]:
        for src in (list(q.mem.values()), list(q.facts), list(q.ne), [q.ret] if q.ret is not None else []):
            for v in src:
                for t in subterms(v):
                    if t.op == "elem" and isinstance(t.args[0], Arr) and uncast(t.args[1]) in (X, Y):
                        accs.add(t.args[0])
    if len({tuple(a.v) for a in accs}) != 1:
        raise AnalysisError("the accept table of find_match_len was not recognised")
    acc = accs.pop()
    m.acc = acc
    m.strange = strange_atoms(backs + [f for f in finals if f.status == "return"], None, trans, acc, X, Y)
    for a in [acc]:
        if not all(isinstance(x, int) for x in a.v):
            raise AnalysisError("accept table entries are not constants")
    entry_of = e.loop_entry.get(id(head))
    newvals = [e._entry_map(q, e.loop_changed[id(head)]) for q in backs]
    entry = e._entry_map(entry_of, e.loop_changed[id(head)])
    # roles
    if entry.get(dphi) is None or not isinstance(entry[dphi], int):
        m.unclear.append("start state of the automaton")
        return
    m.start = entry[dphi]
    base = byte.args[1]      # index + position phi
    c, ts = (base.args if base.op == "lin" else (0, ((base, 1),)))
    posphi = [t for t, kf in ts if t.op == "phi"]
    if len(posphi) != 1 or entry.get(posphi[0]) != 0:
        m.unclear.append("position of the scan")
        return
    pos = posphi[0]
    posv = {ph for ph, v in entry.items() if isinstance(ph, T) and v == 0
            and newvals and all(nv.get(ph) == ladd(ph, 1) for nv in newvals)}
    rest = lsub(mk("len", (byte.args[0],), "usize"), ladd(base, pos, -1))    # length of the text after index

    def is_pos(t, off):
        return any(t == ladd(ph, off) for ph in posv)

    if pos not in posv:
        m.problems.append(("find_match_len", "the scan position does not advance by one byte per transition"))
        return
    # rule and length variables: what the finals return
    accphi, lenphi = Counter(), Counter()
    outs = []
    for f in finals:
        if f.status != "return":
            if f.status == "unmodelled":
                m.unclear.append(str(f.why))
            continue
        if not (isinstance(f.ret, tuple) and f.ret[0] == "tup" and len(f.ret[1]) == 2):
            m.unclear.append("result shape")
            return
        ln, rule = f.ret[1]
        rule = uncast(rule)
        outs.append((f, ln, rule))
        if isinstance(rule, T) and rule.op == "phi":
            accphi[rule] += 1
        for t in subterms(ln):
            if t.op == "phi" and t in entry and t not in posv:
                lenphi[t] += 1
    if len(accphi) != 1 or len(lenphi) != 1:
        m.unclear.append("result variables")
        return
    a, L = next(iter(accphi)), next(iter(lenphi))
    if entry.get(L) != 0:
        m.problems.append(("find_match_len", "the match length does not start at 0"))
    if entry.get(a) != acc.v[m.start]:
        m.problems.append(("find_match_len", "the initial rule is not the rule of the start state"))
    AX = mk("elem", (acc, X), None)
    AY = mk("elem", (acc, Y), None)
    isdead = eqz(lsub(X, m.dead))
    noacc = eqz(lsub(AX, m.dead))
    for q, nv in zip(backs, newvals):
        if q.truth(isdead) == 1:
            m.problems.append(("find_match_len", "the scan goes on after the automaton died"))
            continue
        if q.truth(isdead) is None:
            m.problems.append(("find_match_len", "the scan goes on without testing whether the automaton died"))
        if uncast(nv.get(dphi, dphi)) != X:
            m.problems.append(("find_match_len", "the automaton state becomes %s instead of the transition target" % show(nv.get(dphi))))
        na, nl = uncast(nv.get(a, a)), nv.get(L, L)
        t = q.truth(noacc)
        if t in (0, None):
            if na != AX and t == 0:
                m.problems.append(("find_match_len", "an accepting state does not set the rule to its own rule (%s)" % show(na)))
            if not is_pos(nl, 1) and t == 0:
                m.problems.append(("find_match_len", "an accepting state sets the match length to %s, not to the bytes read" % show(nl)))
        if t == 1:
            if na != a or nl != L:
                m.problems.append(("find_match_len", "a non-accepting state changes the recorded match"))
        if t is None:
            m.problems.append(("find_match_len", "acceptance of the reached state is not tested"))
    nofind = False
    for f, ln, rule in outs:
        dead_exit = f.truth(isdead) == 1
        if dead_exit:
            if rule != a:
                m.problems.append(("find_match_len", "a dead automaton returns rule %s instead of the last accepted one" % show(rule)))
            r = unround(f, ln, L, rest)
            if r is None:
                m.problems.append(("find_match_len", "a dead automaton returns length %s instead of the last accepted one" % show(ln)))
            elif r == "exact":
                m.round_mid = True
            continue
        if f.truth(isdead) is not None and f.truth(isdead) == 0 and not any(ev[0] == "loopexit" for ev in f.events):
            pass
        eofdead = f.truth(eqz(lsub(Y, m.dead)))
        eofacc = f.truth(eqz(lsub(AY, m.dead)))
        if eofdead == 0 and eofacc == 0:
            if rule != AY:
                m.problems.append(("find_match_len", "the end-of-file transition returns rule %s" % show(rule)))
            if f.norm(lsub(ln, rest)) != 0:
                m.problems.append(("find_match_len", "the end-of-file transition returns length %s, not the rest of the text" % show(ln)))
        elif eofdead == 1 or eofacc == 1:
            if rule != a:
                m.problems.append(("find_match_len", "at the end of the text rule %s is returned instead of the last accepted one" % show(rule)))
            r = unround(f, ln, L, rest)
            if r is None:
                m.problems.append(("find_match_len", "at the end of the text length %s is returned instead of the last accepted one" % show(ln)))
            elif r == "exact":
                m.eof_exact = True
        else:
            m.problems.append(("find_match_len", "the end of the text is not tried as a transition"))
    return


def unround(f, ln, L, rest):
    """"exact" / "rounded" when ln is L or L rounded up to the next character boundary, else None."""
    if f.norm(lsub(ln, L)) == 0 if not isinstance(ln, tuple) else False:
        return "exact"
    if isinstance(ln, T) and ln.op == "first" and ln.args[0] == L and f.norm(lsub(ln.args[1], rest)) == 0:
        return "rounded"
    if any(ev[0] == "nofind" and ev[1] == L and f.norm(lsub(ev[2], rest)) == 0 for ev in f.events) and f.norm(lsub(ln, rest)) == 0:
        return "rounded"
    return None


def tables(prog):
    """{mode: Match} for every scanner mode of the program."""
    shape = LexerShape(prog)
    return shape, {m: analyse_match(prog, shape, m) for m in shape.modes}


def product(m, spec, group, vgroup):
    """Walks (table state, flex state) pairs over bytes 1..255.
    Returns mismatches and counts.  group: flex rule -> its action group; vgroup: accept value -> action group."""
    trans, acc = [r.v for r in m.trans.v], m.acc.v
    n = len(trans)
    seen = {(m.start, 0): b""}
    todo = deque([(m.start, 0)])
    bad, steps = [], 0
    pairs = []
    while todo:
        d, s = todo.popleft()
        w = seen[(d, s)]
        pairs.append((d, s))
        for b in range(1, 256):
            steps += 1
            if len(trans[d]) <= b:
                bad.append((w + bytes([b]), "table row %d has no entry for byte %d" % (d, b)))
                continue
            d2 = trans[d][b]
            s2 = spec.trans[s][b]
            if d2 == m.dead or d2 >= n:
                if s2 is not None:
                    bad.append((w + bytes([b]), "table state %d dies on byte %d but flex continues" % (d, b)))
                continue
            if s2 is None:
                bad.append((w + bytes([b]), "table state %d goes on with byte %d but no flex rule matches" % (d, b)))
                continue
            if (d2, s2) not in seen:
                seen[(d2, s2)] = w + bytes([b])
                todo.append((d2, s2))
    for d, s in pairs:
        want = group[spec.acc[s][0]] if spec.acc[s] else None
        got = None if d >= len(acc) or acc[d] == m.dead else acc[d]
        if want != (None if got is None else vgroup.get(got, -1)):
            bad.append((seen[(d, s)], "table state %d selects action %s, flex selects %s" % (d, got, want)))
        # end of the text reached in this pair
        e = trans[d][0]
        eacc = None if e == m.dead or e >= len(acc) or acc[e] == m.dead else acc[e]
        if s == 0 and d == m.start and seen[(d, s)] == b"":
            es = spec.trans[0][flex.EOF]
            want = group[spec.acc[es][0]] if es is not None and spec.acc[es] else None
            if want is not None and (eacc is None or vgroup.get(eacc) != want):
                bad.append((b"", "end of the text selects action %s, flex selects %s" % (eacc, want)))
        elif eacc is not None and (got is None or vgroup.get(eacc) != vgroup.get(got)):
            bad.append((seen[(d, s)], "at the end of the text table state %d selects rule %s instead of %s" % (d, eacc, got)))
    return bad, len(pairs), steps, seen


def value_groups(tabs, dfas, group):
    """accept value -> action group, by majority over all pairs of all modes."""
    votes = {}

    def vote(v, r):
        votes.setdefault(v, Counter())[group[r]] += 1
    for mode, m in tabs.items():
        spec = dfas.get(mode)
        trans, acc = [r.v for r in m.trans.v], m.acc.v
        seen, todo = {(m.start, 0)}, [(m.start, 0)]
        while todo:
            d, s = todo.pop()
            if spec.acc[s] and d < len(acc) and acc[d] != m.dead:
                vote(acc[d], spec.acc[s][0])
            if (d, s) == (m.start, 0) and spec.trans[0][flex.EOF] is not None:
                es, e = spec.trans[0][flex.EOF], trans[d][0]
                if spec.acc[es] and e < len(acc) and acc[e] != m.dead:
                    vote(acc[e], spec.acc[es][0])
            for b in range(1, 256):
                d2 = trans[d][b] if b < len(trans[d]) else m.dead
                s2 = spec.trans[s][b]
                if d2 < len(trans) and s2 is not None and (d2, s2) not in seen:
                    seen.add((d2, s2))
                    todo.append((d2, s2))
    return {v: c.most_common(1)[0][0] for v, c in votes.items()}
