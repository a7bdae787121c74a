"""Patterns of the regex crate as automata with leftmost-first (priority) semantics.

The automaton of a pattern is deterministic: a state is the ordered list of the threads a backtracking search would
still try, cut after the first thread that has matched.  The end the search reports is the last position at which the
automaton accepts.  Symbols: bytes 0..255 and EOF (256, the end of the text)."""
from .dump import AnalysisError
from .flex import EOF

ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7, "0": 0}
PUNCT = set("!\"#$%&'()*+,-./:;=?@[\\]^_`{|}~")


class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0
        self.uni, self.dotall, self.fold, self.multi, self.lazy, self.ws = True, False, False, False, False, False

    def err(self, m):
        raise AnalysisError("pattern %r: %s at %d" % (self.s, m, self.i))

    def peek(self, k=0):
        j = self.i + k
        return self.s[j] if j < len(self.s) else None

    def parse(self):
        x = self.alt()
        if self.i != len(self.s):
            self.err("trailing text")
        return x

    def alt(self):
        xs = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt",) + tuple(xs)

    def cat(self):
        xs = []
        while self.peek() is not None and self.peek() not in "|)":
            x = self.post()
            if x is not None:
                xs.append(x)
        return xs[0] if len(xs) == 1 else ("cat",) + tuple(xs)

    def post(self):
        x = self.atom()
        while x is not None:
            c = self.peek()
            if c == "*":
                lo, hi = 0, None
            elif c == "+":
                lo, hi = 1, None
            elif c == "?":
                lo, hi = 0, 1
            elif c == "{":
                j = self.s.find("}", self.i)
                if j < 0:
                    self.err("open repetition")
                a = self.s[self.i + 1:j].split(",")
                try:
                    lo = int(a[0])
                    hi = lo if len(a) == 1 else (int(a[1]) if a[1].strip() else None)
                except (ValueError, IndexError):
                    self.err("repetition")
                self.i = j
            else:
                return x
            self.i += 1
            lazy = self.lazy
            if self.peek() == "?":
                self.i += 1
                lazy = not lazy
            x = ("rep", x, lo, hi, lazy)
        return x

    def flags(self):
        """After '(?': sets the flags; returns the character that ended them."""
        on = True
        while True:
            c = self.peek()
            if c is None:
                self.err("open flags")
            self.i += 1
            if c == "-":
                on = False
            elif c in "):":
                return c
            elif c == "u":
                self.uni = on
            elif c == "s":
                self.dotall = on
            elif c == "i":
                self.fold = on
            elif c == "U":
                self.lazy = on
            elif c == "m":
                self.multi = on
            else:
                self.err("flag " + c)

    def atom(self):
        c = self.peek()
        if c == "(":
            self.i += 1
            keep = (self.uni, self.dotall, self.fold, self.multi, self.lazy)
            if self.peek() == "?":
                self.i += 1
                if self.peek() in ("P", "<"):
                    j = self.s.find(">", self.i)
                    if j < 0:
                        self.err("group name")
                    self.i = j + 1
                elif self.flags() == ")":
                    return None                      # flags for the rest of the enclosing group
            x = self.alt()
            if self.peek() != ")":
                self.err("unbalanced parenthesis")
            self.i += 1
            self.uni, self.dotall, self.fold, self.multi, self.lazy = keep
            return x
        if c == "[":
            return self.chars(self.cls())
        self.i += 1
        if c == ".":
            return self.chars(self.neg({10} if not self.dotall else set()))
        if c == "^":
            if self.multi:
                self.err("multi-line anchor")
            return ("bol",)
        if c == "$":
            if self.multi:
                self.err("multi-line anchor")
            return ("eot",)
        if c == "\\":
            d = self.peek()
            if d == "A":
                self.i += 1
                return ("bol",)
            if d == "z":
                self.i += 1
                return ("eot",)
            if d in ("d", "D", "w", "W", "s", "S"):
                return self.chars(self.perl())
            return self.one(self.esc())
        if c in "*+?{":
            self.err("repetition of nothing")
        return self.one(ord(c))

    def one(self, cp):
        if self.fold and cp < 128 and chr(cp).isalpha():
            return self.chars({ord(chr(cp).lower()), ord(chr(cp).upper())})
        return self.chars({cp}) if not isinstance(cp, tuple) else ("set", frozenset([cp[1]]))

    def perl(self):
        d = self.peek()
        if self.uni:
            self.err("Unicode class \\" + d)
        self.i += 1
        base = {"d": range(48, 58), "s": (9, 10, 11, 12, 13, 32),
                "w": list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95]}[d.lower()]
        return set(base) if d.islower() else self.neg(set(base))

    def esc(self):
        c = self.peek()
        if c is None:
            self.err("trailing backslash")
        self.i += 1
        if c == "x":
            if self.peek() == "{":
                j = self.s.find("}", self.i)
                v, self.i = int(self.s[self.i + 1:j], 16), j + 1
            else:
                v = int(self.s[self.i:self.i + 2], 16)
                self.i += 2
            return v if self.uni or v < 128 else ("byte", v)
        if c in ESC:
            return ESC[c]
        if c in PUNCT or c == " " or c in "<>":
            return ord(c)
        self.err("escape \\" + c)

    def cls(self):
        """Set of code points (bytes when Unicode is off); nested classes, no set operators."""
        self.i += 1
        neg = self.peek() == "^"
        if neg:
            self.i += 1
        out, first = set(), True
        while True:
            c = self.peek()
            if c is None:
                self.err("open class")
            if c == "]" and not first:
                self.i += 1
                break
            first = False
            if c == "[":
                if self.s.startswith("[:", self.i):
                    j = self.s.find(":]", self.i)
                    name = self.s[self.i + 2:j]
                    sets = {"alpha": (65, 91, 97, 123), "digit": (48, 58), "alnum": (48, 58, 65, 91, 97, 123),
                            "xdigit": (48, 58, 65, 71, 97, 103), "upper": (65, 91), "lower": (97, 123)}
                    if name == "space":
                        out |= {9, 10, 11, 12, 13, 32}
                    elif name in sets:
                        r = sets[name]
                        for k in range(0, len(r), 2):
                            out |= set(range(r[k], r[k + 1]))
                    else:
                        self.err("class " + name)
                    self.i = j + 2
                else:
                    out |= self.cls()
                continue
            if self.s[self.i:self.i + 2] in ("&&", "--", "~~"):
                self.err("set operator")
            if c == "\\" and self.peek(1) in tuple("dDwWsS"):
                self.i += 1
                out |= self.perl()
                continue
            a = self.item()
            if self.peek() == "-" and self.peek(1) != "]":
                if self.peek(1) == "-":
                    self.err("set operator")
                self.i += 1
                b = self.item()
                if b < a:
                    self.err("empty range")
                out |= set(range(a, b + 1))
            else:
                out.add(a)
        if self.fold:
            out |= {ord(chr(x).lower()) for x in out if x < 128} | {ord(chr(x).upper()) for x in out if x < 128}
        return self.neg(out) if neg else out

    def item(self):
        c = self.peek()
        self.i += 1
        if c == "\\":
            v = self.esc()
            return v[1] if isinstance(v, tuple) else v
        if not self.uni and ord(c) > 127:
            self.err("non-ASCII character in a byte class")
        return ord(c)

    def neg(self, s):
        return set(range(0x110000 if self.uni else 256)) - set(s)

    def chars(self, cps):
        """The byte strings of a set of code points, as a tree."""
        if not self.uni:
            if len(cps) == 1 and max(cps) > 255:
                return ("cat",) + tuple(("set", frozenset([b])) for b in chr(max(cps)).encode())
            return ("set", frozenset(cps))
        alts = [("set", frozenset(c for c in cps if c < 128))] if any(c < 128 for c in cps) else []
        trie = {}
        for c in cps:
            if c >= 128 and not 0xD800 <= c < 0xE000:
                d = trie
                bs = chr(c).encode()
                for b in bs[:-1]:
                    d = d.setdefault(b, {})
                d[bs[-1]] = None
        if trie:
            alts.append(tree(trie))
        return alts[0] if len(alts) == 1 else ("alt",) + tuple(alts) if alts else ("set", frozenset())


def tree(d):
    by, memo = {}, {}
    for b, sub in d.items():
        by.setdefault(key(sub, memo), (set(), sub))[0].add(b)
    xs = [("set", frozenset(bs)) if sub is None else ("cat", ("set", frozenset(bs)), tree(sub)) for bs, sub in by.values()]
    return xs[0] if len(xs) == 1 else ("alt",) + tuple(xs)


def key(d, memo):
    if d is None:
        return None
    return tuple(sorted((b, key(s, memo)) for b, s in d.items()))


class LF:
    """Leftmost-first automaton of one pattern, built lazily.  Dead state: None."""

    LIMIT = 4000

    def __init__(self, pattern):
        t = Parser(pattern).parse()
        self.anchored = starts(t)
        self.nodes = []                       # ("set", s, next) | ("eps", [next..]) | ("bol"/"eot", next) | ("match",)
        m = self.node(("match",))
        self.entry = self.build(t, m)
        self.ids, self.lists, self.memo = {}, [], {}
        self.start = self.intern(self.closure([self.entry], True, False))

    def node(self, n):
        self.nodes.append(n)
        if len(self.nodes) > 200000:
            raise AnalysisError("pattern too large")
        return len(self.nodes) - 1

    def build(self, t, nxt):
        k = t[0]
        if k == "set":
            return self.node(("set", t[1], nxt))
        if k in ("bol", "eot"):
            return self.node((k, nxt))
        if k == "cat":
            for x in reversed(t[1:]):
                nxt = self.build(x, nxt)
            return nxt
        if k == "alt":
            return self.node(("eps", [self.build(x, nxt) for x in t[1:]]))
        if k == "rep":
            _, x, lo, hi, lazy = t
            if hi is None:
                loop = self.node(("eps", []))
                body = self.build(x, loop)
                self.nodes[loop] = ("eps", [nxt, body] if lazy else [body, nxt])
                cur = loop
            else:
                cur = nxt
                for _ in range(hi - lo):
                    b = self.build(x, cur)
                    cur = self.node(("eps", [nxt, b] if lazy else [b, nxt]))
            for _ in range(lo):
                cur = self.build(x, cur)
            return cur
        raise AnalysisError("pattern node " + k)

    def closure(self, seeds, start, end):
        out, seen = [], set()
        st = list(reversed(seeds))
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            d = self.nodes[n]
            if d[0] == "eps":
                st.extend(reversed(d[1]))
            elif d[0] == "bol":
                if start:
                    st.append(d[1])
            elif d[0] == "eot":
                if end:
                    st.append(d[1])
                else:
                    out.append(n)
            else:
                out.append(n)
                if d[0] == "match":
                    break
        return tuple(out)

    def intern(self, l):
        if not l:
            return None
        if l not in self.ids:
            self.ids[l] = len(self.lists)
            self.lists.append((l, self.nodes[l[-1]][0] == "match"))
            if len(self.lists) > self.LIMIT:
                raise AnalysisError("pattern automaton too large")
        return self.ids[l]

    def accepts(self, s):
        return s is not None and self.lists[s][1]

    def step(self, s, c):
        if s is None:
            return None
        k = (s, c)
        if k not in self.memo:
            l = self.lists[s][0]
            if c == EOF:
                seeds = []
                for n in l:
                    d = self.nodes[n]
                    if d[0] == "eot":
                        seeds.append(d[1])
                    elif d[0] == "match":
                        seeds.append(n)
                self.memo[k] = self.intern(self.closure(seeds, s == self.start, True))
            else:
                seeds = [d[2] for d in (self.nodes[n] for n in l) if d[0] == "set" and c in d[1]]
                self.memo[k] = self.intern(self.closure(seeds, False, False))
        return self.memo[k]


def starts(t):
    """Every match of the pattern starts at the beginning of the text."""
    k = t[0]
    if k == "bol":
        return True
    if k == "cat":
        for x in t[1:]:
            if starts(x):
                return True
            if x[0] not in ("eot",):
                return False
        return False
    if k == "alt":
        return all(starts(x) for x in t[1:])
    if k == "rep":
        return t[2] > 0 and starts(t[1])
    return False


# UTF-8 validity: state -> {byte: state}; 0 = at a character boundary
def utf8_step(s, b):
    if s == 0:
        if 1 <= b < 0x80:
            return 0
        if 0xC2 <= b <= 0xDF:
            return 1
        if b == 0xE0:
            return 4
        if b == 0xED:
            return 5
        if 0xE1 <= b <= 0xEF:
            return 2
        if b == 0xF0:
            return 6
        if b == 0xF4:
            return 7
        if 0xF1 <= b <= 0xF3:
            return 3
        return None
    lo, hi, nx = {1: (0x80, 0xBF, 0), 2: (0x80, 0xBF, 1), 3: (0x80, 0xBF, 2), 4: (0xA0, 0xBF, 1), 5: (0x80, 0x9F, 1),
                  6: (0x90, 0xBF, 2), 7: (0x80, 0x8F, 2)}[s]
    return nx if lo <= b <= hi else None
