"""The bundled flex specification (scan.l) as deterministic automata, built independently of the repository's
own generator.  Alphabet: bytes 0..255 and EOF (256)."""
import os, re
from .dump import REPO, AnalysisError

EOF = 256
SCAN_L = "crates/lexer-generator/resources/scan.l"


class Rule:
    __slots__ = ("index", "states", "pattern", "line", "group")

    def __init__(self, index, states, pattern, line):
        self.index, self.states, self.pattern, self.line = index, states, pattern, line
        self.group = None

    def __repr__(self):
        return "%s%s" % ("<%s>" % ",".join(self.states) if self.states != ["INITIAL"] else "", self.pattern)


def read_spec(text=None):
    """(definitions, exclusive states, rules) of scan.l."""
    if text is None:
        with open(os.path.join(REPO, SCAN_L), encoding="utf-8") as f:
            text = f.read()
    lines = text.split("\n")
    seps = [i for i, l in enumerate(lines) if l.rstrip() == "%%"]
    if len(seps) < 1:
        raise AnalysisError("scan.l has no rules section")
    end = seps[1] if len(seps) > 1 else len(lines)
    defs, states = {}, ["INITIAL"]
    i, in_c, in_comment = 0, False, False
    while i < seps[0]:
        l = lines[i]
        i += 1
        if in_c:
            in_c = not l.startswith("%}")
            continue
        if in_comment:
            in_comment = "*/" not in l
            continue
        if l.startswith("%{") or l.startswith("%top{"):
            in_c = True
            continue
        if l.startswith("/*"):
            in_comment = "*/" not in l
            continue
        if l.startswith("%x") or l.startswith("%s"):
            states += l.split()[1:]
            continue
        if l.startswith("%") or not l.strip() or l[0].isspace():
            continue
        m = re.match(r"([A-Za-z_][A-Za-z0-9_-]*)\s+(.*\S)\s*$", l)
        if m:
            defs[m.group(1)] = m.group(2)
    rules = []
    i, block, pending = seps[0] + 1, None, []
    depth = 0
    while i < end:
        l = lines[i]
        i += 1
        if depth > 0:
            depth += brace_delta(l)
            continue
        if not l.strip() or l[0].isspace():
            continue
        if l.startswith("}"):
            block = None
            continue
        m = re.match(r"<([A-Za-z_,]+)>\{\s*$", l)
        if m:
            block = m.group(1).split(",")
            continue
        st, rest = block or ["INITIAL"], l
        m = re.match(r"<([A-Za-z_,]+)>(?!>)", l)
        if m:
            st, rest = m.group(1).split(","), l[m.end():]
        pat, k = split_pattern(rest)
        action = rest[k:].strip()
        if not action:
            raise AnalysisError("scan.l:%d: rule without action" % i)
        rules.append(Rule(len(rules), list(st), pat, i))
        pending.append(rules[-1])
        if action != "|":
            for x in pending:      # rules joined by | share one action: one group, named after the last rule
                x.group = rules[-1].index
            pending = []
        if action != "|":
            depth = brace_delta(action)
    for r in rules:
        for s in r.states:
            if s not in states:
                raise AnalysisError("scan.l:%d: undeclared state %s" % (r.line, s))
    return defs, states, rules


def brace_delta(l):
    """Net braces of an action line, outside strings, character literals and comments."""
    d, i = 0, 0
    while i < len(l):
        c = l[i]
        if l.startswith("//", i):
            break
        if l.startswith("/*", i):
            j = l.find("*/", i)
            if j < 0:
                break
            i = j + 2
            continue
        if c == '"':
            i += 1
            while i < len(l) and l[i] != '"':
                i += 2 if l[i] == "\\" else 1
        elif c == "'":
            m = re.match(r"'(\\.|[^\\'])'", l[i:])
            if m:
                i += m.end()
                continue
        elif c == "{":
            d += 1
        elif c == "}":
            d -= 1
        i += 1
    return d


def split_pattern(s):
    """Pattern part of a rule line: up to unquoted whitespace."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "\\":
            i += 2
        elif c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            i += 1
        elif c == "[":
            i += 1
            if s[i] == "^":
                i += 1
            if s[i] == "]":
                i += 1
            while s[i] != "]":
                i += 2 if s[i] == "\\" else 1
            i += 1
        elif c in " \t":
            break
        else:
            i += 1
    return s[:i], i


ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7, "b": 8}


class RegexParser:
    """flex patterns -> syntax trees: ("set", frozenset), ("cat", ..), ("alt", ..), ("rep", x, lo, hi), ("eof",)."""

    def __init__(self, defs):
        self.defs = defs
        self.cache = {}
        self.busy = set()

    def named(self, n):
        if n not in self.cache:
            if n not in self.defs:
                raise AnalysisError("scan.l: undefined name {%s}" % n)
            if n in self.busy:
                raise AnalysisError("scan.l: recursive definition %s" % n)
            self.busy.add(n)
            self.cache[n] = self.parse(self.defs[n])
            self.busy.discard(n)
        return self.cache[n]

    def parse(self, s):
        if s == "<<EOF>>":
            return ("eof",)
        self_s, pos = s, [0]

        def peek():
            return self_s[pos[0]] if pos[0] < len(self_s) else None

        def alt():
            xs = [cat()]
            while peek() == "|":
                pos[0] += 1
                xs.append(cat())
            return xs[0] if len(xs) == 1 else ("alt",) + tuple(xs)

        def cat():
            xs = []
            while peek() is not None and peek() not in "|)":
                xs.append(post())
            return xs[0] if len(xs) == 1 else ("cat",) + tuple(xs)

        def post():
            x = atom()
            while True:
                c = peek()
                if c == "*":
                    x = ("rep", x, 0, None)
                elif c == "+":
                    x = ("rep", x, 1, None)
                elif c == "?":
                    x = ("rep", x, 0, 1)
                elif c == "{":
                    m = re.match(r"\{(\d+)(,(\d*))?\}", self_s[pos[0]:])
                    if not m:
                        return x
                    lo = int(m.group(1))
                    hi = lo if m.group(2) is None else (int(m.group(3)) if m.group(3) else None)
                    x = ("rep", x, lo, hi)
                    pos[0] += m.end() - 1
                else:
                    return x
                pos[0] += 1

        def esc():
            pos[0] += 1
            m = re.match(r"x([0-9A-Fa-f]{1,2})|([0-7]{1,3})", self_s[pos[0]:])
            if m:
                pos[0] += m.end()
                return int(m.group(1), 16) if m.group(1) else int(m.group(2), 8)
            c = self_s[pos[0]]
            pos[0] += 1
            return ESC.get(c, ord(c))

        def lit(code):
            bs = [code] if code < 256 else list(chr(code).encode())
            return [("set", frozenset([b])) for b in bs]

        def atom():
            c = peek()
            if c == "(":
                pos[0] += 1
                x = alt()
                if peek() != ")":
                    raise AnalysisError("scan.l: unbalanced parenthesis in %s" % self_s)
                pos[0] += 1
                return x
            if c == '"':
                pos[0] += 1
                xs = []
                while peek() != '"':
                    if peek() == "\\":
                        xs += lit(esc())
                    else:
                        xs += [("set", frozenset([b])) for b in peek().encode()]
                        pos[0] += 1
                pos[0] += 1
                return xs[0] if len(xs) == 1 else ("cat",) + tuple(xs)
            if c == "[":
                return cls()
            if c == "{":
                m = re.match(r"\{([A-Za-z_][A-Za-z0-9_-]*)\}", self_s[pos[0]:])
                if not m:
                    raise AnalysisError("scan.l: bad name in %s" % self_s)
                pos[0] += m.end()
                return self.named(m.group(1))
            if c == ".":
                pos[0] += 1
                return ("set", frozenset(range(256)) - {10})
            if c == "\\":
                return ("set", frozenset([esc()]))
            if c in "^$/":
                raise AnalysisError("scan.l: anchor or trailing context in %s" % self_s)
            pos[0] += 1
            xs = [("set", frozenset([b])) for b in c.encode()]
            return xs[0] if len(xs) == 1 else ("cat",) + tuple(xs)

        def cls():
            pos[0] += 1
            neg = peek() == "^"
            if neg:
                pos[0] += 1
            out, first = set(), True
            while first or peek() != "]":
                first = False
                if peek() is None:
                    raise AnalysisError("scan.l: unterminated class in %s" % self_s)
                if self_s.startswith("[:", pos[0]):
                    raise AnalysisError("scan.l: named class in %s" % self_s)
                if peek() == "\\":
                    a = esc()
                else:
                    a = ord(peek())
                    pos[0] += 1
                if peek() == "-" and self_s[pos[0] + 1] != "]":
                    pos[0] += 1
                    if peek() == "\\":
                        b = esc()
                    else:
                        b = ord(peek())
                        pos[0] += 1
                    out.update(range(a, b + 1))
                else:
                    out.add(a)
            pos[0] += 1
            s2 = frozenset(x for x in out if x < 256)
            return ("set", frozenset(range(256)) - s2 if neg else s2)

        x = alt()
        if pos[0] != len(self_s):
            raise AnalysisError("scan.l: trailing text in pattern %s" % self_s)
        return x


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, t):
        k = t[0]
        a, b = self.new(), self.new()
        if k == "set":
            self.tr[a].append((t[1], b))
        elif k == "eof":
            self.tr[a].append((frozenset([EOF]), b))
        elif k == "cat":
            cur = a
            for x in t[1:]:
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            self.eps[cur].append(b)
        elif k == "alt":
            for x in t[1:]:
                s, e = self.build(x)
                self.eps[a].append(s)
                self.eps[e].append(b)
        elif k == "rep":
            _, x, lo, hi = t
            cur = a
            for _ in range(lo):
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            if hi is None:
                s, e = self.build(x)
                self.eps[cur].append(s)
                self.eps[e].append(s)
                self.eps[e].append(b)
                self.eps[cur].append(b)
            else:
                self.eps[cur].append(b)
                for _ in range(hi - lo):
                    s, e = self.build(x)
                    self.eps[cur].append(s)
                    self.eps[e].append(b)
                    cur = e
        else:
            raise AnalysisError("regex node " + k)
        return a, b


def closure(nfa, xs):
    seen, work = set(xs), list(xs)
    while work:
        x = work.pop()
        for y in nfa.eps[x]:
            if y not in seen:
                seen.add(y)
                work.append(y)
    return frozenset(seen)


class DFA:
    """start state 0; trans[s][c] -> state or None; acc[s] -> sorted list of accepting rule indexes."""

    def __init__(self, nfa, start, accept):
        self.trans, self.acc = [], []
        ids = {}

        def sid(fs):
            if fs not in ids:
                ids[fs] = len(ids)
                order.append(fs)
            return ids[fs]
        order = []
        sid(closure(nfa, start))
        i = 0
        while i < len(order):
            fs = order[i]
            row = [None] * 257
            moves = [(s, d) for x in fs for s, d in nfa.tr[x]]
            by = {}
            for s, d in moves:
                for c in s:
                    by.setdefault(c, set()).add(d)
            memo = {}
            for c, ds in by.items():
                k = frozenset(ds)
                if k not in memo:
                    memo[k] = sid(closure(nfa, k))
                row[c] = memo[k]
            self.trans.append(row)
            self.acc.append(sorted({accept[x] for x in fs if x in accept}))
            i += 1

    def live(self):
        """States from which an accepting state is reachable."""
        n = len(self.trans)
        pred = [set() for _ in range(n)]
        for s in range(n):
            for d in self.trans[s]:
                if d is not None:
                    pred[d].add(s)
        live = {s for s in range(n) if self.acc[s]}
        work = list(live)
        while work:
            for q in pred[work.pop()]:
                if q not in live:
                    live.add(q)
                    work.append(q)
        return live


_spec = {}


def mode_dfas(spec=None):
    """{mode: DFA over the rules of that mode}, plus the specification."""
    if "d" not in _spec:
        defs, states, rules = read_spec()
        rp = RegexParser(defs)
        trees = [rp.parse(r.pattern) for r in rules]
        out = {}
        for st in states:
            nfa, start, accept = NFA(), [], {}
            for r, t in zip(rules, trees):
                if st in r.states:
                    s, e = nfa.build(t)
                    start.append(s)
                    accept[e] = r.index
            out[st] = DFA(nfa, start, accept)
        _spec["d"] = (defs, states, rules, trees, out)
    return _spec["d"]
