"""gram.y as bison reads it, and its LALR(1) automaton (DeRemer-Pennello), built independently of the repository's
generator.  Conflicts are resolved as bison documents it: per reduction by precedence, then shift, then earliest rule."""
import os, re
from .dump import REPO, AnalysisError

GRAM = os.path.join(REPO, "crates/parser-generator/resources/gram.y")


class Grammar:
    def __init__(self):
        self.tokens = set()
        self.prec = {}      # terminal -> (level, assoc)
        self.rules = []     # (lhs, rhs tuple, prec terminal or None)
        self.start = None


TOK = re.compile(r"""(?P<ws>\s+)|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<chr>'(?:\\.|[^\\'])+')|(?P<str>"(?:\\.|[^\\"])*")
    |(?P<dir>%[a-zA-Z_\-]+)|(?P<tag><[^>\n]*>)|(?P<id>[A-Za-z_][A-Za-z_0-9.]*)|(?P<num>[0-9]+)|(?P<p>[:;|=])""", re.S | re.X)
CODE = re.compile(r"""/\*.*?\*/|//[^\n]*|'(?:\\.|[^\\'\n])*'|"(?:\\.|[^\\"\n])*"|[{}]|[^{}/'"]+|.""", re.S)


def lex(text):
    i, out = 0, []
    while i < len(text):
        if text.startswith("%{", i):
            j = text.index("%}", i)
            i = j + 2
            continue
        if text.startswith("%%", i):
            out.append(("sep", "%%"))
            i += 2
            if sum(1 for t in out if t[0] == "sep") == 2:
                break
            continue
        if text[i] == "{":
            d, j = 0, i
            while True:
                m = CODE.match(text, j)
                s = m.group()
                j = m.end()
                if s == "{":
                    d += 1
                elif s == "}":
                    d -= 1
                    if d == 0:
                        break
            out.append(("code", None))
            i = j
            continue
        m = TOK.match(text, i)
        if not m:
            raise AnalysisError("gram.y: unexpected %r" % text[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if k not in ("ws", "com"):
            out.append((k, m.group()))
    return out


_g = {}


def grammar():
    if "g" in _g:
        return _g["g"]
    with open(GRAM) as f:
        toks = lex(f.read())
    g = Grammar()
    i, level = 0, 0
    while toks[i][0] != "sep":
        k, v = toks[i]
        i += 1
        if k != "dir":
            continue
        args = []
        while toks[i][0] not in ("dir", "sep"):
            if toks[i][0] in ("id", "chr"):
                args.append(toks[i][1])
            i += 1
        if v in ("%left", "%right", "%nonassoc", "%precedence"):
            level += 1
            for a in args:
                g.prec[a] = (level, v[1:])
                g.tokens.add(a)
        elif v == "%token":
            g.tokens.update(args)
        elif v == "%start":
            g.start = args[0]
    i += 1
    end = len(toks)
    body = [t for t in toks[i:end] if t[0] != "sep"]
    i = 0
    while i < len(body):
        lhs = body[i][1]
        if body[i][0] != "id" or body[i + 1] != ("p", ":"):
            raise AnalysisError("gram.y: rule expected at %s" % (body[i],))
        i += 2
        rhs, prec, code = [], None, False
        while True:
            k, v = body[i] if i < len(body) else ("p", ";")
            nxt = body[i + 1] if i + 1 < len(body) else (None, None)
            if k == "p" and v in ("|", ";"):
                g.rules.append((lhs, tuple(rhs), prec))
                rhs, prec, code = [], None, False
                i += 1
                if v == ";":
                    break
                continue
            if k == "id" and nxt == ("p", ":"):   # missing semicolon
                g.rules.append((lhs, tuple(rhs), prec))
                break
            if k == "code":
                code = True
            elif k == "dir" and v == "%prec":
                prec = nxt[1]
                i += 1
            elif k == "dir" and v == "%empty":
                pass
            elif k in ("id", "chr"):
                if code:
                    raise AnalysisError("gram.y: mid-rule action in %s" % lhs)
                rhs.append(v)
            else:
                raise AnalysisError("gram.y: unexpected %s in %s" % (body[i], lhs))
            i += 1
    g.start = g.start or g.rules[0][0]
    g.nonterms = []
    for l, _, _ in g.rules:
        if l not in g.nonterms_set if hasattr(g, "nonterms_set") else True:
            g.nonterms_set = getattr(g, "nonterms_set", set())
            if l not in g.nonterms_set:
                g.nonterms.append(l)
                g.nonterms_set.add(l)
    used = {s for _, r, _ in g.rules for s in r if s not in g.nonterms_set}
    g.terms = sorted(used | set(g.prec) | {"$end"})
    g.used_terms = used
    _g["g"] = g
    return g


class Lalr:
    """goto[state][symbol] -> state; action[state][terminal] -> ("s", state) | ("r", rule) | ("a",); errors absent."""

    def __init__(self, g):
        self.g = g
        rules = [(l, r) for l, r, _ in g.rules] + [("$accept", (g.start,))]
        self.rules = rules
        acc = len(g.rules)
        nts = g.nonterms_set
        by = {}
        for i, (l, r) in enumerate(rules):
            by.setdefault(l, []).append(i)
        # item = (rule, dot) encoded
        # nonterminals reachable at the front: closure of a nonterminal
        clo = {}

        def closure_nt(a):
            if a in clo:
                return clo[a]
            seen, work = {a}, [a]
            while work:
                for ri in by[work.pop()]:
                    r = rules[ri][1]
                    if r and r[0] in nts and r[0] not in seen:
                        seen.add(r[0])
                        work.append(r[0])
            clo[a] = seen
            return seen
        start = frozenset([(acc, 0)])
        states, order, goto = {start: 0}, [start], []
        self.reductions = []
        i = 0
        while i < len(order):
            k = order[i]
            nset = set()
            moves = {}
            red = []
            for ri, d in k:
                r = rules[ri][1]
                if d < len(r):
                    moves.setdefault(r[d], set()).add((ri, d + 1))
                    if r[d] in nts:
                        nset |= closure_nt(r[d])
                else:
                    red.append(ri)
            for a in nset:
                for ri in by[a]:
                    r = rules[ri][1]
                    if r:
                        moves.setdefault(r[0], set()).add((ri, 1))
                    else:
                        red.append(ri)
            row = {}
            for s, items in moves.items():
                f = frozenset(items)
                j = states.get(f)
                if j is None:
                    j = states[f] = len(order)
                    order.append(f)
                row[s] = j
            goto.append(row)
            self.reductions.append(sorted(set(red)))
            i += 1
        self.goto, self.kernels = goto, order
        self.n = len(order)
        self._lookaheads(rules, nts, by, acc)
        self._actions(acc)

    def _lookaheads(self, rules, nts, by, acc):
        nullable = set()
        ch = True
        while ch:
            ch = False
            for l, r in rules:
                if l not in nullable and all(s in nullable for s in r):
                    nullable.add(l)
                    ch = True
        terms = self.g.terms
        tid = {t: i for i, t in enumerate(terms)}
        self.tid = tid
        goto = self.goto
        trans = {}
        tl = []
        for p, row in enumerate(goto):
            for s in row:
                if s in nts:
                    trans[(p, s)] = len(tl)
                    tl.append((p, s))
        n = len(tl)
        dr = [0] * n
        reads = [[] for _ in range(n)]
        for x, (p, a) in enumerate(tl):
            r = goto[p][a]
            m = 0
            for s in goto[r]:
                if s in nts:
                    if s in nullable:
                        reads[x].append(trans[(r, s)])
                else:
                    m |= 1 << tid[s]
            if p == 0 and a == self.g.start:
                m |= 1 << tid["$end"]
            dr[x] = m
        read = digraph(n, reads, dr)
        includes = [[] for _ in range(n)]
        lookback = {}
        for x, (p, b) in enumerate(tl):
            for ri in by[b]:
                r = rules[ri][1]
                q = p
                path = []
                for s in r:
                    path.append(q)
                    q = goto[q][s]
                lookback.setdefault((q, ri), []).append(x)
                for i in range(len(r) - 1, -1, -1):
                    s = r[i]
                    if s in nts:
                        includes[trans[(path[i], s)]].append(x)
                    if s not in nullable:
                        break
        follow = digraph(n, includes, read)
        self.la = {}
        for p in range(self.n):
            for ri in self.reductions[p]:
                if ri == acc:
                    self.la[(p, ri)] = 1 << tid["$end"]
                    continue
                m = 0
                for x in lookback.get((p, ri), ()):
                    m |= follow[x]
                self.la[(p, ri)] = m

    def rule_prec(self, ri):
        l, r, prec = self.g.rules[ri]
        if prec is not None:
            return self.g.prec.get(prec)
        last = None
        for s in r:
            if s not in self.g.nonterms_set:
                last = s
        return self.g.prec.get(last) if last is not None else None

    def _actions(self, acc):
        terms = self.g.terms
        self.action, self.resolved = [], []
        self.conflicts = []
        for p in range(self.n):
            act = {}
            for s, j in self.goto[p].items():
                if s not in self.g.nonterms_set:
                    act[s] = ("s", j)
            reds = {}
            for ri in self.reductions[p]:
                m = self.la[(p, ri)]
                t = 0
                while m:
                    low = m & -m
                    t = low.bit_length() - 1
                    m ^= low
                    reds.setdefault(terms[t], []).append(ri)
            for t, rs in reds.items():
                rs.sort()
                shift = act.get(t)
                if shift and rs != [acc]:
                    keep, err = [], False
                    drop = False
                    for ri in rs:
                        rp, tp = (self.rule_prec(ri) if ri != acc else None), self.g.prec.get(t)
                        if rp is None or tp is None:
                            self.conflicts.append((p, t, ri))
                            continue                        # shift wins by default
                        if rp[0] > tp[0] or (rp[0] == tp[0] and tp[1] == "left"):
                            keep.append(ri)
                            drop = True
                            self.resolved.append((p, t, ri, "reduce"))
                        elif rp[0] == tp[0] and tp[1] == "nonassoc":
                            err = True
                            self.resolved.append((p, t, ri, "error"))
                        else:
                            self.resolved.append((p, t, ri, "shift"))
                    if drop:
                        act[t] = ("r", keep[0])
                    elif err:
                        del act[t]
                else:
                    if len(rs) > 1:
                        self.conflicts.append((p, t, tuple(rs)))
                    act[t] = ("a",) if rs[0] == acc else ("r", rs[0])
            self.action.append(act)


def digraph(n, rel, init):
    """Least F with F(x) = init(x) | union of F(y) for x rel y (SCC based, iterative)."""
    F = list(init)
    N = [0] * n
    stack = []
    INF = n + 5
    for root in range(n):
        if N[root]:
            continue
        call = [(root, 0)]
        stack.append(root)
        N[root] = len(stack)
        depth = {root: len(stack)}
        while call:
            x, i = call[-1]
            if i < len(rel[x]):
                call[-1] = (x, i + 1)
                y = rel[x][i]
                if N[y] == 0:
                    stack.append(y)
                    N[y] = len(stack)
                    depth[y] = len(stack)
                    call.append((y, 0))
                else:
                    N[x] = min(N[x], N[y])
                    F[x] |= F[y]
            else:
                call.pop()
                if N[x] == depth[x]:
                    while True:
                        y = stack.pop()
                        N[y] = INF
                        if y == x:
                            break
                        F[y] = F[x]
                if call:
                    w = call[-1][0]
                    N[w] = min(N[w], N[x])
                    F[w] |= F[x]
    return F


def lalr():
    if "l" not in _g:
        _g["l"] = Lalr(grammar())
    return _g["l"]
