"""Where a panic can happen while parsing: every panicking operation on every partition, discharged by facts about the
matched text, the scanner state, the token spans, the tables and the parser stack."""
import re
from .dump import AnalysisError, where
from .eng import Engine, Path, T, Arr, mk, adt, ladd, lsub, lez, eqz, show, slen, sslice, streq, lin_parts
from . import scan, flex, rules, models, driver, decode, tables, term, graph, desugar
from .driver import fld, slen_vec
from .rules import Scanner, LexShape, Lang, canon_text, EXPECT, LIVE, MAXV, reaches
from .compare import Compare, values_table, subst
from .scan import subterms

CONT = set(range(0x80, 0xC0))
DIGITS = {r: {ord(c) for c in "0123456789abcdefABCDEF" if int(c, 16) < r} for r in (2, 8, 10, 16)}
MAXPOS = 2 ** 31 - 1024          # texts longer than this are outside the property (assumption)


# ---------------------------------------------------------------- what a rule's texts look like
class Text(Lang):
    """Bytes of the texts of a rule by position from the front and from the end, and from a position on."""

    def __init__(self, dfa, rule):
        super().__init__(dfa, rule)
        trans, acc = dfa.trans, dfa.acc
        n = len(trans)
        goal = {s for s in range(n) if acc[s] and acc[s][0] == rule}
        eof = trans[0][flex.EOF]
        if eof is not None:
            goal.discard(eof)
        live = self.live
        edges = {s: {} for s in live}
        for s in live:
            for b in range(1, 256):
                t = trans[s][b]
                if t in live:
                    edges[s].setdefault(t, set()).add(b)
        self.edges, self.goal = edges, goal
        self.layers = [{0} & live]
        self.front = []
        for _ in range(12):
            cur, new, bs = self.layers[-1], set(), set()
            for s in cur:
                for t, x in edges[s].items():
                    new.add(t)
                    bs |= x
            self.front.append(bs)
            self.layers.append(new)
        reach = set(self.layers[0])
        work = list(reach)
        while work:
            for t in edges[work.pop()]:
                if t not in reach:
                    reach.add(t)
                    work.append(t)
        self.reach = reach
        cur, self.back = {s for s in goal if s in reach}, []
        for _ in range(6):
            new, bs = set(), set()
            for s in reach:
                for t, x in edges[s].items():
                    if t in cur:
                        new.add(s)
                        bs |= x
            self.back.append(bs)
            cur = new
        self.all = set().union(*[x for s in reach for x in edges[s].values()]) if reach else set()
        self.ascii = not any(b >= 0x80 for b in self.all)
        self.rounded = bool(self.back and any(b >= 0x80 for b in self.back[0]))

    def rest(self, k):
        """Bytes at position k or later."""
        cur = set(self.layers[min(k, 12)])
        work = list(cur)
        bs = set()
        while work:
            s = work.pop()
            for t, x in self.edges[s].items():
                bs |= x
                if t not in cur:
                    cur.add(t)
                    work.append(t)
        return bs

    def words(self, limit=500):
        """Sample texts of the rule: well-formed UTF-8 with a few representatives per byte class."""
        pref = [ord(c) for c in "0_9afdD8'\\$ *\n.ex"]
        out, todo, seen = [], [(0, b"")], 0
        if 0 in self.goal:
            out.append(b"")
        while todo and len(out) < limit and seen < 20000:
            s, w = todo.pop(0)
            seen += 1
            if len(w) >= 11:
                continue
            for t, bs in self.edges.get(s, {}).items():
                picks = [b for b in pref if b in bs][:3] or [min(bs)]
                if min(bs) < 0x80 and min(bs) not in picks:
                    picks.append(min(bs))
                picks = [(bytes([b]), t) for b in picks if b < 0x80]
                for w2 in ("\u00e9".encode(), "\u3042".encode()):
                    x = s
                    for b in w2:
                        x = next((y for y, z in self.edges.get(x, {}).items() if b in z), None)
                        if x is None:
                            break
                    if x is not None and w2[0] in bs:
                        picks.append((w2, x))
                    elif self.rounded and w2[0] in bs and t in self.goal:
                        picks.append((w2, t))
                for b, x in picks:
                    if x in self.goal:
                        out.append(w + b)
                    if len(todo) < 4000:
                        todo.append((x, w + b))
        return out


def terms_of(q):
    ts = set()
    for src in (q.facts, q.eqs, q.ne, q.iv, q.strs):
        for k in src:
            ts |= set(subterms(k))
    for k in q.lins:
        ts |= set(subterms(k))
    return ts


# ---------------------------------------------------------------- a partition on a concrete text
class Cannot(Exception):
    pass


class Ground:
    """Values of terms for one concrete text, position and scanner state."""

    def __init__(self, sc, s, i, n, text, pos, ln, fields):
        self.sc, self.s, self.i, self.n = sc, s, i, n
        self.text, self.pos, self.ln, self.fields = text, pos, ln, fields

    def val(self, t):
        if isinstance(t, int):
            return t
        if isinstance(t, tuple):
            if t and t[0] == "s":
                return t[1].encode()
            if t and t[0] in ("str", "String"):
                return self.val(t[1])
            if t and t[0] == "cat":
                return b"".join(self.val(x) for x in t[1])
            raise Cannot(str(t[:1]))
        if not isinstance(t, T):
            raise Cannot(repr(t)[:40])
        a = t.args
        if t is self.s:
            return self.text
        if t is self.i:
            return self.pos
        if t is self.n:
            return self.ln
        op = t.op
        if op == "lin":
            return a[0] + sum(self.val(x) * k for x, k in a[1])
        if op == "fld":
            if isinstance(a[0], T) and a[0].op == "sym" and a[0].args[0] == "lexer":
                name = [k for k, v in self.sc.shape.fields.items() if v == a[1]]
                if name and name[0] in self.fields:
                    return self.fields[name[0]]
            raise Cannot(show(t))
        if op == "discr":
            v = self.val(a[0])
            if isinstance(v, tuple) and v[0] == "mode":
                return self.sc.shape.modes.index(v[1])
            raise Cannot(show(t))
        if op == "lez":
            return 1 if self.val(a[0]) <= 0 else 0
        if op == "eqz":
            return 1 if self.val(a[0]) == 0 else 0
        if op == "not":
            return 1 - self.val(a[0])
        if op == "len":
            return len(self.val(a[0]))
        if op == "nchars":
            return len(self.val(a[0]).decode())
        if op == "slice":
            s, lo, hi = self.val(a[0]), self.val(a[1]), self.val(a[2])
            if not 0 <= lo <= hi <= len(s):
                raise Cannot("slice")
            return s[lo:hi]
        if op == "byte":
            s, k = self.val(a[0]), self.val(a[1])
            if not 0 <= k < len(s):
                raise Cannot("byte")
            return s[k]
        if op == "bound":
            s, k = self.val(a[0]), self.val(a[1])
            return 1 if 0 <= k <= len(s) and (k == len(s) or s[k] & 0xC0 != 0x80) else 0
        if op == "streq":
            return 1 if self.val(a[0]) == self.val(a[1]) else 0
        if op == "str_contains":
            return 1 if self.val(a[1]) in self.val(a[0]) else 0
        if op == "replace":
            x, y = (v if isinstance(v, int) else self.val(v) for v in a[1:3])
            x = chr(x).encode() if isinstance(x, int) else x
            y = chr(y).encode() if isinstance(y, int) else y
            return self.val(a[0]).replace(x, y)
        if op == "lower":
            return self.val(a[0]).decode().lower().encode()
        if op in ("parses", "parsed"):
            v = self.parse(self.val(a[0]), a[1], a[2])
            if op == "parses":
                return 0 if v is None else 1
            if v is None:
                raise Cannot("parsed")
            return v
        if op == "len_utf8":
            return len(chr(self.val(a[0])).encode("utf-8", "surrogatepass"))
        if op == "band":
            return self.val(a[0]) & self.val(a[1])
        if op == "shl":
            return self.val(a[0]) << self.val(a[1])
        if op == "shr":
            return self.val(a[0]) >> self.val(a[1])
        if op == "max":
            return max(self.val(a[0]), self.val(a[1]))
        if op == "min":
            return min(self.val(a[0]), self.val(a[1]))
        raise Cannot(show(t)[:60])

    @staticmethod
    def parse(w, radix, ty):
        t = w.decode()
        if t[:1] == "+" or (t[:1] == "-" and ty[0] == "i"):
            body = t[1:]
        else:
            body = t
        if not body or not all(c in "0123456789abcdefghijklmnopqrstuvwxyz"[:radix] for c in body.lower()):
            return None
        v = int(t, radix)
        return v if (-MAXV[ty] - 1 if ty[0] == "i" else 0) <= v <= MAXV[ty] else None

    def holds(self, q):
        """All facts of the partition are true here (Cannot when one is not understood)."""
        unk = None
        for what in (self.eqs, self.facts, self.others):
            try:
                if not what(q):
                    return False
            except Cannot as e:
                unk = e
        if unk is not None:
            raise unk
        return True

    def each(self, it):
        unk, ok = None, True
        for f in it:
            try:
                if not f():
                    return False
            except Cannot as e:
                unk = e
        if unk is not None:
            raise unk
        return ok

    def facts(self, q):
        return self.each([lambda b=b, v=v: self.val(b) == v for b, v in q.facts.items()])

    def eqs(self, q):
        return self.each([lambda b=b, v=v: self.val(b) == (v if isinstance(v, int) else self.val(v)) for b, v in q.eqs.items()])

    def others(self, q):
        fs = [lambda t=t, vs=vs: self.val(t) not in vs for t, vs in q.ne.items()]
        fs += [lambda t=t, r=r: r[0] <= self.val(t) <= r[1] for t, r in q.iv.items()]
        fs += [lambda d=d: self.val(d) <= 0 for d in q.lins]
        for t, (v, no) in q.strs.items():
            fs.append(lambda t=t, v=v, no=no: (v is None or self.val(t) == v.encode()) and all(self.val(t) != x.encode() for x in no))
        return self.each(fs)


# ---------------------------------------------------------------- the rules of the scanner
class RulePanics(Compare):
    def __init__(self, sc, r, mode, lang, value, dfa, entered):
        self.sc, self.r, self.mode, self.lang, self.value, self.dfa = sc, r, mode, lang, value, dfa
        self.entered = entered
        self.invs = []

    def facts(self, p, s, i, n):
        super().facts(p, s, i, n)
        ref = ("ref", ("arg", "lexer"), ())
        e = Engine(self.sc.prog, panics=False)
        B = lambda x: p.assume(models.boundary(None, p, s, x), 1)
        B(i)
        B(ladd(i, n))
        p.assume(lez(lsub(slen(s), MAXPOS)))
        if self.mode == "xc":
            p.assume(lez(lsub(self.sc.shape.get(e, p, ref, "xcdepth"), i)))
        if self.mode != "INITIAL":
            B(self.sc.shape.get(e, p, ref, "yylloc_bytes"))

    def at_boundary(self, q, s, i, n, x):
        """Is x a character boundary for every text of the rule?"""
        L = self.lang
        low = set(range(0x80))
        lo, hi = q.itv(q.norm(lsub(x, i)))
        if L.ascii and q.truth(lez(lsub(i, x))) == 1 and q.truth(lez(lsub(x, ladd(i, n)))) == 1:
            return True
        # positions up to the least length exist in every text
        if 0 <= lo <= hi < 12 and hi <= L.min and all(
                k == 0 or L.front[k - 1] <= low or (not (L.front[k] & CONT) and (k < L.min or not L.rounded))
                for k in range(lo, hi + 1)):
            return True
        if not L.rounded:
            lo, hi = q.itv(q.norm(lsub(ladd(i, n), x)))
            if 0 <= lo <= hi < 6 and hi <= L.min and all(
                    k == 0 or not (L.back[k - 1] & CONT) or (k < L.min and L.back[k] <= low) for k in range(lo, hi + 1)):
                return True
        return False

    def knowledge(self, q, s, i, n):
        """Facts that hold for every text of the rule, about the terms of the partition."""
        L = self.lang
        out = []
        end = ladd(i, n)
        for k, c in self.counters.items():
            out.append((lez(lsub(c, k)), 1))
        for t in terms_of(q):
            if t.op == "bound":
                base, x = t.args
                if base is s and self.at_boundary(q, s, i, n, x):
                    out.append((t, 1))
                k = self.prefix(base, s, i)
                if k is not None and isinstance(x, int) and 0 <= x <= k:
                    out.append((t, 1))
            elif t.op in ("parses", "parsed"):
                c = canon_text(t.args[0], s, i)
                if c is None or q.norm(lsub(c[1], end)) != 0 or L.rounded:
                    continue
                drop, _, under = c
                ok = L.rest(drop) <= DIGITS.get(t.args[1], set()) | ({95} if under else set())
                if not ok or L.max is None or under or drop >= L.min:
                    continue
                top = t.args[1] ** (L.max - drop) - 1
                if top <= MAXV.get(t.args[2], 0):
                    out.append((mk("parses", t.args, "bool"), 1))
                out.append((lez(lsub(mk("parsed", t.args, t.args[2]), top)), 1))
            elif t.op in ("len", "nchars"):
                k = self.prefix(t.args[0], s, i)
                if k:
                    out.append((lez(lsub(k, t)), 1))
                if t.op == "nchars" and isinstance(t.args[0], T) and t.args[0].op == "slice" and t.args[0].args[0] is s \
                        and q.norm(lsub(t.args[0].args[1], i)) == 0 and q.norm(lsub(t.args[0].args[2], end)) == 0:
                    out.append((lez(lsub(self.minchars(), t)), 1))
        return out

    def minchars(self):
        """Characters every text of the rule has at least: the leading bytes that start a character."""
        k = 0
        low = set(range(0x80))
        for b in self.lang.front[:self.lang.min]:
            # a byte after an ASCII one starts a character
            if k and b & CONT and not self.lang.front[k - 1] <= low:
                break
            k += 1
        return k

    def prefix(self, t, s, i):
        """Bytes the rewritten text certainly keeps at its front (ASCII, none removed)."""
        if not (isinstance(t, T) and t.op == "replace"):
            return None
        c = canon_text(t, s, i)
        if c is None or c[0] != 0:
            return None
        k = 0
        while k < min(self.lang.min, 12) and not any(b >= 0x80 or b == 95 for b in self.lang.front[k]):
            k += 1
        return k

    def contradicted(self, f, s, i, n):
        q = f.fork()
        for _ in range(3):
            know = self.knowledge(q, s, i, n)
            for b, v in know:
                if not q.assume(b, v):
                    return True
        return False

    def run(self):
        """[(what, verdict, detail)] of every panicking partition, plus what the rule keeps true."""
        hi = self.lang.max
        if hi is not None and self.lang.rounded:
            hi += 3
        e, ref, (s, i, n), finals = self.sc.run(self.mode, self.value, (self.lang.min, hi), facts=self.facts, panics=True)
        self.e, self.ref = e, ref
        self.counters = lower_bounds(e)
        out = []
        self.npaths = 0
        words = None
        for f in finals:
            self.npaths += 1
            if f.status in ("return", "next"):
                if not self.contradicted(f, s, i, n):
                    out += self.keeps(e, ref, f, s, i, n)
                continue
            if f.status != "panic":
                out.append(("effect", None, "%s: %s" % (f.status, f.why)))
                continue
            what = "%s in %s:%s" % (f.why[1], f.why[0].split("::")[-1], f.why[2])
            if self.contradicted(f, s, i, n):
                out.append((what, True, "excluded by the texts of the rule"))
                continue
            w, why = self.witness(f, s, i, n)
            if w is not None:
                out.append((what, False, "%s panics (%s) on the text %r in mode %s" % (f.why[0], f.why[1], w, self.mode)))
            else:
                out.append((what, None, "%s (%s); %s" % (what, self.describe(f), why)))
        return out

    # ------------------------------------------------------------ invariants
    def keeps(self, e, ref, f, s, i, n):
        """The facts assumed at the start of a match hold again afterwards."""
        out = []
        sc = self.sc
        g = lambda name: sc.shape.get(e, f, ref, name)

        def ob(what, t, detail):
            r = f.truth(t) if not isinstance(t, int) else t
            self.broken(out, f, s, i, n, what, t, r, detail)
        if f.status == "return":
            ret = f.ret
            if not (isinstance(ret, tuple) and ret[0] == "adt" and ret[1].endswith("Result") and ret[2] == 0):
                return out
            o = ret[3][0]
            if not (isinstance(o, tuple) and o[0] == "adt") or o[2] == 0 or not (isinstance(o[3][0], tuple) and o[3][0][0] == "adt"):
                return out
            k = sc.kind_names[o[3][0][2]]
            m = {self.lx.syms[x]: self.field(e, f, ref, x) for x in self.lx.FIELDS}
            for part in self.lx.by_kind.get(k, ()):
                if part[0] != "token":
                    continue
                a, b, idx = (subst(part[x], m) for x in (1, 2, 3))
                for what, x in (("token start", a), ("token end", b), ("next position", idx)):
                    self.bound_ob(out, f, s, i, n, what, x)
                ob("order", lez(lsub(a, b)), "token from %s to %s" % (show(a), show(b)))
                ob("inside", lez(lsub(b, slen(s))), "token end %s" % show(b))
                ob("progress", lez(lsub(idx, slen(s))), "next position %s" % show(idx))
            for part in self.lx.panics.get(k, ()):
                q = conjoin(f, part, m)
                if q is None or self.contradicted(q, s, i, n):
                    continue
                what = "%s in %s:%s" % (part.why[1], part.why[0].split("::")[-1], part.why[2]) if part.status == "panic" else \
                    "%s: %s" % (part.status, part.why)
                w, why = self.witness(q, s, i, n) if part.status == "panic" else (None, "")
                if w is not None:
                    out.append((what, False, "%s panics (%s) when it takes the token of the text %r in mode %s"
                                % (part.why[0], part.why[1], w, self.mode)))
                else:
                    out.append((what, None, "when the token is taken: %s; %s" % (what, why)))
            return out
        idx, st = g("index_bytes"), g("state")
        self.bound_ob(out, f, s, i, n, "next position", idx)
        ob("progress", lez(lsub(idx, slen(s))), "next position %s" % show(idx))
        mode = None
        if isinstance(st, tuple) and st[0] == "adt":
            mode = sc.shape.modes[st[2]]
        if mode != "INITIAL":
            y = g("yylloc_bytes")
            ob("start", lez(lsub(y, idx)), "token start %s" % show(y))
            self.bound_ob(out, f, s, i, n, "token start", y)
        if mode == "xc":
            d = g("xcdepth")
            ob("depth", lez(lsub(d, idx)), "xcdepth becomes %s" % show(d))
        return out

    def bound_ob(self, out, f, s, i, n, what, x):
        x = f.norm(x)
        b = models.boundary(None, f, s, x)
        r = f.truth(b) if not isinstance(b, int) else b
        if r is None and self.at_boundary(f, s, i, n, x):
            r = 1
        if r is None and f.norm(lsub(x, slen(s))) == 0:
            r = 1
        self.broken(out, f, s, i, n, "boundary of the " + what, b, r, "%s %s" % (what, show(x)))

    def broken(self, out, f, s, i, n, what, t, r, detail):
        """An invariant of the scan that the partition does not show to be kept.  The next match takes the rest of the text
        from the next position on, so that one is refuted by a text for which it is wrong."""
        if r != 1 and what in ("boundary of the next position", "progress"):
            q = f.fork()
            if isinstance(t, int) or (q.assume(t, 0) and not self.contradicted(q, s, i, n)):
                w, why = self.witness(q, s, i, n)
                if w is not None:
                    out.append(("keeps:" + what, False, "after rule %d on the text %r in mode %s the scan goes on at %s, where the text cannot be "
                                "split" % (self.r, w, self.mode, detail)))
                    return
            elif not isinstance(t, int):
                r = 1
        out.append(("keeps:" + what, True if r == 1 else None, detail))

    # ------------------------------------------------------------ witness
    def witness(self, f, s, i, n):
        dfa = self.dfa
        terms = terms_of(f)
        fields = set()
        for t in terms:
            if t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "sym" and t.args[0].args[0] == "lexer":
                fields |= {k for k, v in self.sc.shape.fields.items() if v == t.args[1]}
        choices = [{}]
        for name in sorted(fields):
            vals = self.entered.get(name)
            if vals is None:
                return None, "depends on the scanner field %s" % name
            choices = [dict(c, **{name: v}) for c in choices for v in vals]
        why = "no sample text of the rule satisfies the partition"
        words = self.lang.words() + EDGE if not (self.lang.eof and not self.lang.min) else [b""]
        opened = OPENER.get(self.mode, [b""])
        tried = 0
        for w in words:
            if not self.wins(w):
                continue
            tried += 1
            for suffix in (b"", b" ", b"a", "\u3042".encode(), b"'") + ((LONG,) if tried < 3 else ()):
                if self.lang.eof and not self.lang.pos and suffix:
                    continue
                if suffix and not self.wins(w, suffix):
                    continue
                for before in opened:
                    text = before + w + suffix
                    try:
                        text.decode()
                    except UnicodeDecodeError:
                        continue
                    for c in choices:
                        c = {k: (0 if v == "start" else v) for k, v in c.items()}
                        try:
                            if Ground(self.sc, s, i, n, text, len(before), len(w), c).holds(f):
                                return text.decode() if len(text) < 1000 else text[:40].decode() + "... (%d bytes)" % len(text), ""
                        except Cannot as x:
                            why = "not understood: %s" % x
        return None, why

    def wins(self, w, suffix=b""):
        """The rule matches w and no rule matches more of w + suffix."""
        trans, acc = self.dfa.trans, self.dfa.acc
        st, best = 0, (0 if acc[0] else -1, acc[0][0] if acc[0] else None)
        t = w + suffix
        for k, b in enumerate(t):
            st = trans[st][b]
            if st is None:
                break
            if acc[st]:
                best = (k + 1, acc[st][0])
        ln, r = best
        if r is None or ln < 0:
            return not t and self.lang.eof
        if r != self.r:
            return not t and self.lang.eof and ln <= 0
        while ln < len(t) and t[ln] & 0xC0 == 0x80:
            ln += 1
        return ln == len(w)


# texts at the edges of what escapes can denote
EDGE = [b"\\udc00", b"\\udfff", b"\\ud800", b"\\udbff", b"\\uffff", b"\\U0010ffff", b"\\U00110000", b"\\Uffffffff", b"\\U0000dfff", b"\\400",
        b"\\777", b"\\200", b"\\xff", b"\\xFF", b"99999999999", b"2147483648", b"0x80000000", b"0b1" + b"0" * 31, b"0o20000000000",
        b"$2147483648", b"$99999999999"] + [b"a" * k + "\u3042".encode() * 40 for k in range(3)]
LONG = b" " + b"a" * 70000
OPENER = {"INITIAL": [b""], "xc": [b"/*"], "xb": [b"b'"], "xh": [b"x'"], "xq": [b"'"], "xe": [b"e'"],
          "xus": [b"u&'"], "xqs": [b"''"], "xdolq": [b"$$"], "xd": [b'"'], "xui": [b'u&"'], "xeu": [b"e'\\ud800"]}
OPENER = {k: v + [w[:-1] + "\u3042".encode() + w[-1:] if k == "xqs" else w + "\u3042".encode() for w in v if k != "xeu"] for k, v in OPENER.items()}


def entered_fields(mode):
    """Values some scanner fields can have while in a mode (all of these really occur)."""
    d = {"yylloc_bytes": ["start"]}
    if mode == "xc":
        d["xcdepth"] = [0]
    if mode == "xeu":
        d["utf16_first_part"] = [0xD800, 0xDBFF]
    if mode == "xqs":
        d["state_before_str_stop"] = [("mode", "xq")]
    if mode == "xdolq":
        d["dolqstart"] = [b"$$"]
    return d


# ---------------------------------------------------------------- counters of loops
def replace(t, m):
    """The term with m applied everywhere in it."""
    if isinstance(t, tuple):
        return tuple(replace(x, m) for x in t)
    if not isinstance(t, T) or not any(x in m for x in subterms(t)):
        return t
    if t in m:
        return m[t]
    if t.op == "lin":
        r = t.args[0]
        for x, k in t.args[1]:
            r = ladd(r, replace(x, m), k)
        return r
    args = [replace(x, m) for x in t.args]
    if t.op == "lez":
        return lez(args[0])
    if t.op == "eqz":
        return eqz(args[0])
    if t.op == "bound" and isinstance(args[1], int) and args[1] == 0:
        return 1
    return mk(t.op, tuple(args), t.ty)


def conjoin(f, part, m):
    """The partition f and, after it, the partition part of another function; None if they exclude each other."""
    q = f.fork()
    sub = lambda t: replace(t, m)
    # the loop that fills the keyword map is over by then
    setup = lambda t: isinstance(t, T) and any(x.op == "phi" for x in subterms(t))
    todo = [(sub(b), v) for b, v in part.facts.items() if not setup(b)]
    todo += [(eqz(lsub(sub(t), sub(v))), 1) for t, v in part.eqs.items() if t not in part.facts and isinstance(v, (int, T)) and not setup(t)]
    todo += [(lez(sub(t)), 1) for t in part.lins if not setup(t)]
    for t, (lo, hi) in part.iv.items():
        if setup(t):
            continue
        x = sub(t)
        if lo != -float("inf"):
            todo.append((lez(lsub(int(lo), x)), 1))
        if hi != float("inf"):
            todo.append((lez(lsub(x, int(hi))), 1))
    for t, vs in part.ne.items():
        todo += [(eqz(lsub(sub(t), v)), 0) for v in vs if isinstance(v, (int, T))]
    for b, v in todo:
        b = q.norm(b) if isinstance(b, T) else b
        if isinstance(b, int):
            if b != v:
                return None
        elif not q.assume(b, v):
            return None
    return q


def lower_bounds(e, consts=(2, 1, 0), know=None):
    """{loop variable: c}: the variable is at least c on every entry and every pass keeps it so."""
    out = {}
    by = {}
    for l in driver.loops_of(e):
        for k in l.phis:
            if isinstance(k, T) and (k.op == "phi" and k.ty in MAXV or k.op == "len"):
                by.setdefault(k, []).append(l)
    for k, ls in by.items():
        for c in consts:
            if all(bounded(l, k, c) for l in ls):
                out[k] = c
                break
    return out


def bounded(l, k, c):
    v = l.entry.get(k)
    if isinstance(v, tuple) or v is None or l.entry_path.truth(lez(lsub(c, v))) != 1:
        return False
    for q in l.backs:
        r = q.fork()
        x = l.next(r).get(k)
        if x is None or isinstance(x, tuple):
            return False
        if not r.assume(lez(lsub(c, k))):
            continue
        if r.truth(lez(lsub(c, x))) != 1:
            return False
    return True


# ---------------------------------------------------------------- report
def rules_region(chk, prog, sc, values=values_table, prefix=""):
    lx = PanicLex(sc)
    sc.kind_names = [v["name"] for v in sc.prog.adts[sc.token_adt]["variants"]]
    defs, states, rs, trees, dfas = flex.mode_dfas()
    if [r for r in rs if EXPECT.get(r.index) != r.pattern] or len(rs) != len(EXPECT):
        chk.undecided(prefix + "rules", "scan.l", "the rule list of scan.l is not the known one")
        return
    if lx.nul:
        chk.proved(prefix + "nul", where(lx.fn), "texts with NUL, which stands for the end of the input in the tables, are never scanned")
    else:
        chk.undecided(prefix + "nul", where(lx.fn), "texts with NUL are scanned")
    w = where(sc.fn)
    for mode in states:
        vals = chk.guard(prefix + "tables:" + mode, values, sc, mode, dfas[mode])
        if vals is None:
            continue
        for r in rs:
            if mode not in r.states:
                continue
            oid = "%srule:%s:%d" % (prefix, mode, r.index)
            lang = Text(dfas[mode], r.index)
            if lang.min is None:
                continue
            if r.index not in vals:
                chk.undecided(oid, w, "no accept value of the tables stands for rule %s" % r.pattern)
                continue
            chk.guard(oid, one_rule, chk, sc, lx, r, mode, lang, vals[r.index], dfas[mode], oid, w)


def one_rule(chk, sc, lx, r, mode, lang, value, dfa, oid, w):
    rp = RulePanics(sc, r.index, mode, lang, value, dfa, entered_fields(mode))
    rp.lx = lx
    out = rp.run()
    chk.count("partitions", rp.npaths)
    w2 = "%s, rule %d %s in mode %s" % (w, r.index, r.pattern, mode)
    settle(chk, oid, w2, out, "%d partitions, %d panicking ones excluded" % (rp.npaths, sum(x[1] is True and not x[0].startswith("keeps") for x in out)))


def settle(chk, oid, w, out, detail):
    bad = [x for x in out if x[1] is False]
    unk = [x for x in out if x[1] is None]
    if bad:
        chk.refuted(oid, w, bad[0][2])
    elif unk:
        chk.undecided(oid, w, "; ".join("%s: %s" % (x[0], x[2]) for x in unk[:2]))
    else:
        chk.proved(oid, w, detail)


# ---------------------------------------------------------------- the LR driver
class DriverPanics(driver.Driver):
    """parse() with its panicking partitions."""
    finder = None

    def run(self):
        ok = mk("sym", ("scanned",), "bool")
        self.scanned = ok
        toks = ("vec", self.toks, (), ())
        self.err = err = mk("sym", ("scan error",), None)

        def lex(e, p, a, c):
            p.event("lex", e.snap(p, a[0]))
            p.assume(lez(lsub(slen(self.s), MAXPOS)))
            return c.split(p, ok, lambda q: c.finish(q, adt(driver.RES, 0, toks)), lambda q: c.finish(q, adt(driver.RES, 1, err)))

        def filt(e, p, a, c):
            p.event("filter", e.snap(p, a[0]))
            self.before.append(p.fork())
            return c.finish(p, ("tup", ()))
        self.before = []
        opaque = {f["def"] for f in (self.lookup, self.goto, self.tok_id, self.rule_id, self.emit_root)} | self.from_raw
        self.eng = e = Engine(self.prog, panics=True, opaque=opaque, models={self.lex["def"]: lex, self.filter["def"]: filt})
        self.finals = e.run(self.parse, [("str", self.s)])
        self.all = list(self.finals)
        self.finals = [q for q in self.finals if self.refine(q)]
        self.loops = driver.loops_of(e)
        self.by_phi = {}
        for l in self.loops:
            l.backs = [q for q in l.backs if self.refine(q)]
            l.exits = [q for q in l.exits if self.refine(q)]
            for x in l.phis:
                self.by_phi[x] = l
        self.counters = {}
        self.counters = lower_bounds(e, know=self.knowledge)
        self.pairs = {}
        self.find_pairs()
        self.pops = {}
        self.find_pops()
        return self

    # ------------------------------------------------------------ invariants
    def token_elems(self, ts):
        """[(element, index)] of scanned tokens among the terms."""
        out = []
        for t in ts:
            if t.op == "elem" and self.toks in set(subterms(t.args[0])) and (t.ty or "").endswith("Token"):
                out.append((t, t.args[1]))
        return out

    def fields_of(self, t):
        f = self.tokf
        return fld(t, f["start_byte_pos"]), fld(t, f["end_byte_pos"])

    def find_pairs(self):
        """Loop variables that hold the end of the last token that was passed: {(loop variable, token position)}."""
        todo = True
        while todo:
            todo = False
            for l in self.loops:
                ints = [x for x in l.phis if isinstance(x, T) and x.op == "phi" and x.ty == "usize"]
                for pos in ints:
                    for lp in ints:
                        if lp is pos or (lp, pos) in self.pairs:
                            continue
                        if self.is_pair(l, lp, pos):
                            self.pairs[(lp, pos)] = l
                            todo = True

    def is_pair(self, l, lp, pos):
        a, b = l.entry[lp], l.entry[pos]
        if not (a == 0 or (a, b) in self.pairs or self.after(l.entry_path, a, b)):
            return False
        moved = False
        for q in l.backs:
            m = l.next(q)
            x, y = m[lp], m[pos]
            if driver.same(q, x, lp) == 1 and driver.same(q, y, pos) == 1:
                continue
            if driver.same(q, y, ladd(pos, 1)) == 1 and self.is_end(q, x, pos):
                moved = True
                continue
            return False
        return moved

    def after(self, q, a, b):
        """a is the end of the token before position b."""
        if isinstance(b, int):
            return isinstance(a, T) and q.norm(lsub(a, slen(self.s))) == 0 and b >= 1
        return self.is_end(q, a, q.norm(ladd(b, -1)))

    def is_end(self, q, x, pos):
        if not isinstance(x, T):
            return False
        if x.op == "fld" and x.args[1] == self.tokf["end_byte_pos"]:
            return any(t is x.args[0] and q.norm(lsub(i, pos)) == 0 for t, i in self.token_elems({x.args[0]}))
        # the end marker behind the last token
        return q.norm(lsub(x, slen(self.s))) == 0 and q.norm(lsub(pos, slen_vec(self.toks))) == 0

    def find_pops(self):
        """Loops that pop one entry per pass, counting up to a rule's length."""
        for l in self.loops:
            for L in l.phis:
                if not (isinstance(L, T) and L.op == "len"):
                    continue
                st = L.args[0]
                for I in l.phis:
                    if not (isinstance(I, T) and I.op == "phi" and l.entry[I] == 0):
                        continue
                    if not l.backs or not all(driver.same(q, l.next(q)[I], ladd(I, 1)) == 1 and self.popped(l.next(q)[L], st) for q in l.backs):
                        continue
                    lims = None
                    for q in l.backs:
                        here = {t for t in terms_of(q) if self.rule_len(t) and q.truth(lez(lsub(ladd(I, 1), t))) == 1}
                        lims = here if lims is None else lims & here
                    if lims:
                        self.pops[L] = (l, I, sorted(lims, key=lambda t: t.n)[0])

    @staticmethod
    def popped(x, st):
        return isinstance(x, T) and x.op == "len" and isinstance(x.args[0], T) and x.args[0].op == "popped" and x.args[0].args[0] is st

    def rule_len(self, t):
        return isinstance(t, T) and t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "elem" and \
            isinstance(t.args[0].args[0], Arr) and len(t.args[0].args[0].v) == len(self.R) and t.args[1] == self.len_field

    # ------------------------------------------------------------ knowledge
    def knowledge(self, q, *_):
        ts = terms_of(q)
        L = slen(self.s)
        out = [(lez(lsub(c, k)), 1) for k, c in self.counters.items()]
        B = lambda x: models.boundary(None, q, self.s, x)
        els = self.token_elems(ts)
        for t, i in els:
            a, b = self.fields_of(t)
            out += [(lez(lsub(a, b)), 1), (lez(lsub(b, L)), 1), (lez(lsub(0, a)), 1), (B(a), 1), (B(b), 1)]
        for (lp, pos), l in getattr(self, "pairs", {}).items():
            if lp in ts:
                out += [(lez(lsub(lp, L)), 1), (B(lp), 1)]
                for t, i in els:
                    if q.norm(lsub(i, pos)) == 0:
                        out.append((lez(lsub(lp, self.fields_of(t)[0])), 1))
        for t in ts:
            if t.op == "call":
                r = self.ranges.get(t.args[0])
                if r is None and t.args[0] in self.range_names:
                    r = self.range_names[t.args[0]]
                if r:
                    out += [(lez(lsub(r[0], t)), 1), (lez(lsub(t, r[1])), 1)]
        for Lp, (l, I, R) in getattr(self, "pops", {}).items():
            if Lp in ts:
                L0 = l.entry[Lp]
                out += [(eqz(lsub(ladd(Lp, I), L0)), 1), (lez(lsub(I, R)), 1)]
                if self.deep:
                    out.append((lez(lsub(ladd(R, 1), L0)), 1))
        return out

    def feasible(self, f, tf):
        """(False, why) for a partition that certainly occurs, (None, why) otherwise."""
        what = " and ".join(("" if v else "not ") + show(b)[:90] for b, v in list(f.facts.items())[-3:])
        if self.finder is None:
            from .witness import Finder
            try:
                self.finder = Finder(self, tf)
            except (AnalysisError, KeyError, IndexError, TypeError) as e:
                self.finder = str(e) or repr(e)
        if isinstance(self.finder, str):
            return None, "%s; no witness: %s" % (what, self.finder)
        c, why = self.finder.find(f)
        if c is None:
            return None, "%s; %s" % (what, why)
        return False, "it panics on the text %r, at token %d with %d entries on the stack (state %d)" % (
            c.text.decode(), c.pos, len(c.stack), c.stack[-1][0])

    def contradicted(self, f):
        q = f.fork()
        for _ in range(3):
            for b, v in self.knowledge(q):
                if isinstance(b, int):
                    if b != v:
                        return True
                    continue
                if not q.assume(b, v):
                    return True
        return False


class TableFacts:
    """What the decoded tables say about states, actions and stack depth."""

    def __init__(self, prog):
        self.A, self.G = decode.Table(prog, "lookup_parser_action"), decode.Table(prog, "lookup_goto_state")
        self.R = tables.rules(prog)
        ids, self.tfn = tables.token_ids(prog)
        self.complete = ids["complete"]
        self.ids = {k: v for k, v in ids.items() if k != "complete"}
        self.rid, self.rok, self.rfn = tables.rule_ids(prog)
        self.bad, self.unk = [], []
        end = self.ids.get(("RAW", "$end"))
        skip = {self.ids.get((k, None)) for k in ("C_COMMENT", "SQL_COMMENT")}
        terms = sorted({v for v in self.ids.values() if isinstance(v, int)} - skip)
        self.lo, self.hi = 0, 0
        dist, todo = {0: 0}, [0]
        red = {}
        nts = sorted(set(self.rid.values()))
        self.pairs = 0
        while todo:
            new = []
            for s in todo:
                to = set()
                for c in terms:
                    v = self.A(s, c)
                    self.pairs += 1
                    if v is None:
                        self.bad.append(("lookup", "the action of state %d for token number %d lies outside the tables" % (s, c)))
                        continue
                    self.lo, self.hi = min(self.lo, v), max(self.hi, v)
                    if v == term.ERROR or v == 0:
                        continue
                    if v > 0:
                        to.add(v - 1)
                    else:
                        red.setdefault(s, set()).add(-v - 1)
                for n in nts:
                    v = self.G(s, n)
                    self.pairs += 1
                    if v is None:
                        self.bad.append(("goto", "the goto of state %d for symbol %d lies outside the tables" % (s, n)))
                    elif v >= 0:
                        to.add(v)
                for u in to:
                    if u not in dist:
                        dist[u] = dist[s] + 1
                        new.append(u)
            todo = new
        self.dist = dist
        for s, rs in red.items():
            for r in rs:
                if r >= len(self.R):
                    self.bad.append(("rule", "state %d reduces by rule %d, the table has %d rules" % (s, r, len(self.R))))
                elif self.R[r][1] > dist[s]:
                    self.bad.append(("depth", "state %d can be on top of a stack of %d entries and reduces by rule %d of length %d" % (
                        s, dist[s] + 1, r, self.R[r][1])))
                elif self.R[r][0] not in self.rid:
                    self.bad.append(("name", "rule %d is reduced in state %d; its name %s has no number" % (r, s, self.R[r][0])))


def driver_region(chk, prog):
    tf = TableFacts(prog)
    d = DriverPanics(prog)
    d.R = tf.R
    names = prog.adt("parser::Rule")["variants"][0]["fields"]
    names = [x if isinstance(x, str) else x["name"] for x in names]
    d.len_field = names.index("len")
    d.deep = not any(k == "depth" for k, _ in tf.bad)
    d.ranges, d.range_names = {}, {}
    nums = [v for v in tf.rid.values()]
    for fn, r in ((d.lookup, (tf.lo, tf.hi)), (d.goto, (-32768, 32767)), (d.rule_id, (min(nums), max(nums)) if tf.rok and nums else None)):
        if r:
            d.ranges[fn["def"]] = r
            d.range_names[fn["name"]] = r
    w = where(tf.A.fn)
    for k in ("lookup", "goto", "rule", "depth", "name"):
        xs = [x for x in tf.bad if x[0] == k]
        fn = {"lookup": tf.A.fn, "goto": tf.G.fn, "name": tf.rfn}.get(k, d.parse)
        if k == "name" and xs and not tf.rok:
            chk.undecided("tables:" + k, where(fn), xs[0][1])
        else:
            chk.decide("tables:" + k, not xs, where(fn), xs[0][1] if xs else "%d states, %d lookups" % (len(tf.dist), tf.pairs))
    chk.count("states", len(tf.dist))
    chk.count("table_lookups", tf.pairs)
    d.run()
    some = lez(lsub(1, slen_vec(d.toks)))
    out = []
    for q in d.before:
        r = q.truth(some)
        if r != 1:
            q.assume(some, 0)
            ok, why = d.feasible(q, tf)
            out.append(("filter", ok, "the token filter is called without tokens: " + why))
        else:
            out.append(("filter", True, ""))
    settle(chk, "filter:called", d.w, out, "%d calls, each with at least one token" % len(out))
    sites = {}
    for f in d.all:
        if f.status == "return":
            continue
        if f.status != "panic":
            sites.setdefault(("parse", str(f.status), 0), []).append((None, "%s: %s" % (f.status, f.why)))
            continue
        ok = True if not d.refine(f) or d.contradicted(f) else None
        why = ""
        if ok is None:
            ok, why = d.feasible(f, tf)
        sites.setdefault(f.why, []).append((ok, why))
    d.sites = sites
    for (fn, what, line), xs in sorted(sites.items(), key=str):
        chk.count("driver_partitions", len(xs))
        oid = "driver:%s:%s" % (fn.split("::")[-1] if "closure" not in fn else "parse", what)
        out = [(what, ok, "%s, %s at line %s: %s" % (fn, what, line, why)) for ok, why in xs]
        settle(chk, oid + ":%s" % line, "%s:%s" % (d.w.split(":")[0], line), out, "%d partitions excluded" % len(xs))
    return d, tf


# ---------------------------------------------------------------- the tree builder
class EmissionPanics(driver.Emission):
    def __init__(self, d, prog):
        self.runs = []
        super().__init__(d, prog, None)

    def engine(self):
        e = super().engine()
        e.panics = True
        r = e.run

        def run(fn, *a):
            f = r(fn, *a)
            self.runs.append((fn, f, driver.loops_of(e)))
            return f
        e.run = run
        return e

    def judge(self, *a):
        pass

    def check_path(self, q):
        pass

    def check_loop(self, *a, **k):
        pass


def emission_region(chk, prog, d, prefix=""):
    obs = []
    d.ob = lambda *a: obs.append(a)
    em = EmissionPanics(d, prog)
    em.run()
    if len(em.runs) < 2:
        chk.undecided(prefix + "emit", where(em.root), "the tree builder was not summarised: %s" % [str(o[4])[:80] for o in obs][:2])
    fns = [prog.fns[x] for x in graph.reachable(prog, [d.parse["id"]])]
    made = {f["res"] for fn in fns for f in rules.callees(fn) if "GreenNodeBuilder" in str(f.get("res")) and re.search(r"::(new|with_|from_|default)", str(f.get("res")))}
    own = bool(made) and all(m.endswith("::new") for m in made)
    for fn, fs, loops in em.runs:
        out = []
        for f in fs:
            if f.status == "return":
                out += certain(em, f, balance(em, fn, f.events))
                continue
            if f.status != "panic":
                out.append(("effect", None, "%s: %s" % (f.status, f.why)))
                continue
            what = "%s in %s:%s" % (f.why[1], f.why[0].split("::")[-1], f.why[2])
            ok = own and f.why[1].startswith("unwrap") and about_cache(f)
            out.append((what, True if ok else None, " and ".join(("" if v else "not ") + show(b)[:90] for b, v in list(f.facts.items())[-2:])))
        for l in loops:
            for q in l.backs:
                out += certain(em, q, balance(em, None, l.own(q)))
        chk.count("emission_partitions", len(fs))
        settle(chk, prefix + "emit:" + fn["def"].split("::")[-1], where(fn), out, "%d partitions" % len(fs))


def about_cache(f):
    """The last decision was about the cache or interner of a finished builder."""
    bs = list(f.facts)
    for t in subterms(bs[-1]) if bs else ():
        if t.op == "call" and ("GreenNodeBuilder" in t.args[0] and t.args[0].endswith("::finish") or "NodeCache" in t.args[0] and "into_interner" in t.args[0]):
            return True
    return False


def certain(em, f, xs):
    """An unbalanced partition that is decided by the node and the extras alone does occur."""
    if all(x[1] is not None for x in xs):
        return xs
    try:
        known = em.familiar(f)
    except (AnalysisError, KeyError, IndexError, TypeError, AttributeError):
        known = False
    return [(w, False if ok is None and known else ok, "%s: the tree builder then panics" % why if ok is None else why) for w, ok, why in xs]


def balance(em, fn, events):
    """Nodes are opened and closed in pairs; at the root exactly one node is open around everything."""
    depth, roots, root = 0, 0, fn is not None and fn is em.root
    for x in events:
        if x[0] != "emit" and x[0] != "rec":
            continue
        what = x[1] if x[0] == "emit" else "rec"
        if what == "start":
            roots += depth == 0
            depth += 1
        elif what == "finish":
            depth -= 1
            if depth < 0:
                return [("balance", None, "a node is closed that was not opened")]
        elif what in ("token", "rec") and root and depth == 0:
            return [("balance", None, "something is emitted outside the root")]
    if depth or root and roots != 1:
        return [("balance", None, "%d nodes stay open, %d roots" % (depth, roots))]
    return [("balance", True, "")]


def raw_region(chk, prog, d, tf):
    """SyntaxKind::from_raw accepts every number the driver hands it."""
    nt = tables.const_fn(prog, "num_terminal_symbol")[0]
    top = max([v for v in tf.ids.values() if isinstance(v, int)] + [max(tf.rid.values()) + nt])
    for df in sorted(d.from_raw):
        for fn in prog.by_def.get(df, ()):
            e = Engine(prog, panics=True)
            x = mk("sym", ("raw",), "u32")
            p = Path()
            p.assume(lez(lsub(x, top)))
            ty = fn["locals"][1]
            arg = x if ty == "u32" else adt(ty, 0, x)
            out = []
            for f in e.run(fn, [arg], p):
                if f.status == "panic":
                    lo, hi = f.itv(x)
                    out.append((f.why[1], False if tf.complete and tf.rok and lo == hi or hi == top else None, "number %s is rejected" % ((lo, hi),)))
                else:
                    out.append(("ok", True if f.status == "return" else None, str(f.why)))
            settle(chk, "from_raw", where(fn), out, "numbers up to %d" % top)


# ---------------------------------------------------------------- the matching loop
def match_region(chk, prog, sc):
    fn = sc.match
    w = where(fn)
    shape = sc.shape
    for mode in shape.modes:
        chk.guard("match:" + mode, match_mode, chk, prog, sc, mode, fn, w)


def match_mode(chk, prog, sc, mode, fn, w):
    shape = sc.shape
    tab = scan.analyse_match(prog, shape, mode)
    out = []
    reached = None
    for _, x in tab.problems[:1]:
        out.append(("matcher", None, x))
    if hasattr(tab, "start") and not tab.problems:
        reached = walk(tab)
        for k, ok, d in reached:
            out.append((k, ok, d))
    e = Engine(prog, panics=True)
    e.merge = False
    p = Path()
    s, i = mk("sym", ("input",), "str"), mk("sym", ("i",), "usize")
    ref = shape.lexer(p, {"state": shape.mode(mode), "input": ("String", s), "index_bytes": i})
    p.assume(lez(lsub(i, slen(s))))
    p.assume(lez(lsub(slen(s), MAXPOS)))
    p.assume(models.boundary(None, p, s, i), 1)
    fin = e.run(fn, [ref], p)
    tops = upper_bounds(e)
    twins = in_step(e)
    n = 0
    for f in fin:
        n += 1
        if f.status == "return":
            continue
        if f.status != "panic":
            out.append(("effect", None, "%s: %s" % (f.status, f.why)))
            continue
        what = "%s in %s:%s" % (f.why[1], f.why[0].split("::")[-1], f.why[2])
        ok = infeasible(f, lambda q: elem_facts(q) + twin_bounds(q, twins) + [(lez(lsub(k, c)), 1) for k, c in tops.items()])
        out.append((what, True if ok else None, " and ".join(("" if v else "not ") + show(b)[:90] for b, v in list(f.facts.items())[-2:])))
    chk.count("match_partitions", n)
    settle(chk, "match:" + mode, w, out, "%d partitions" % n)


def infeasible(f, know):
    q = f.fork()
    for _ in range(3):
        for b, v in know(q):
            if isinstance(b, int):
                if b != v:
                    return True
            elif not q.assume(b, v):
                return True
    return False


def values_of(t):
    """All integers an element term can denote, whatever the indexes."""
    a, idx = scan.root_arr(t)
    if not isinstance(a, Arr):
        return None
    vs = [a]
    for _ in idx:
        nx = []
        for x in vs:
            if not isinstance(x, Arr):
                return None
            nx += list(x.v)
        vs = nx
    if len(vs) > 400000 or not all(isinstance(x, int) for x in vs):
        return None
    return vs


_vals = {}


def elem_facts(q):
    """Bounds of table elements, without the values the partition has excluded."""
    out = []
    for t in terms_of(q):
        if t.op != "elem":
            continue
        if t not in _vals:
            v = values_of(t)
            _vals[t] = None if v is None else set(v)
        vs = _vals[t]
        if not vs:
            continue
        left = {x for x in vs if q.truth(eqz(lsub(t, x))) != 0} if len(vs) < 2000 else vs
        if not left:
            return [(0, 1)]
        out += [(lez(lsub(min(left), t)), 1), (lez(lsub(t, max(left))), 1)]
    return out


def in_step(e):
    """Pairs of counters of one loop with the same entry value and the same step on every pass."""
    out = []
    for l in driver.loops_of(e):
        ks = [k for k in l.phis if isinstance(k, T) and k.op == "phi" and k.ty in MAXV]
        for a in ks:
            for b in ks:
                if a is b or l.entry.get(a) is None or isinstance(l.entry.get(a), tuple) or l.entry.get(a) != l.entry.get(b):
                    continue
                if all(same_step(l, q, a, b) for q in l.backs):
                    out.append((a, b))
    return out


def same_step(l, q, a, b):
    n = l.next(q.fork())
    x, y = n.get(a), n.get(b)
    if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
        return False
    return isinstance(lsub(x, a), int) and lsub(x, a) == lsub(y, b)


def twin_bounds(q, twins):
    """What each inequality of the partition says about one of its counters, given the ranges of the others."""
    out = []
    pair = {}
    for a, b in twins:
        pair.setdefault(a, set()).add(b)
    for x in q.lins:
        for k in {y for y in subterms(x) if isinstance(y, T) and y.op == "phi" and y.ty in MAXV}:
            rest = lsub(x, k)
            if k in set(subterms(rest)):
                continue
            lo = q.itv(rest)[0]
            if lo != -float("inf"):
                out += [(lez(ladd(y, int(lo))), 1) for y in {k} | pair.get(k, set())]
    return out


def upper_bounds(e):
    """{loop variable: c} for variables that index tables: never more than c."""
    out = {}
    for l in driver.loops_of(e):
        for k in l.phis:
            if not (isinstance(k, T) and k.op == "phi" and k.ty in MAXV) or not l.backs:
                continue
            v = l.entry.get(k)
            if isinstance(v, tuple) or v is None:
                continue
            hi = l.entry_path.itv(v)[1]
            ok = hi != float("inf")
            for q in l.backs:
                r = q.fork()
                x = l.next(r).get(k)
                for b, v2 in elem_facts(r):
                    if not r.assume(b, v2):
                        x = None
                        break
                if x is None:
                    continue
                if isinstance(x, tuple):
                    ok = False
                    break
                x = r.norm(x)
                if x is k or x == k:
                    continue
                m = r.itv(x)[1]
                if k in set(subterms(x)) and isinstance(x, T) and x.op in ("lin", "phi"):
                    ok = False
                hi = max(hi, m)
            if ok and hi < 2 ** 31:
                out[k] = hi
    return out


def walk(tab):
    """Every text is matched by some rule, and the walk never leaves the tables (well-formed UTF-8 texts)."""
    trans, acc = [r.v for r in tab.trans.v], tab.acc.v
    n = len(trans)
    out = []
    # (table state, accepted something, continuation bytes still due); accepted "mid": the last match ends inside a character
    seen = {(tab.start, "yes" if tab.start < len(acc) and acc[tab.start] != tab.dead else "", 0): b""}
    mid = lambda w, at: out.append(("boundary", False, "the match on the text %r in mode %s ends inside a character (%s)" % (
        w.decode("utf-8", "replace"), tab.mode, at)))
    todo = list(seen)
    while todo:
        st = todo.pop()
        d, got, due = st
        w = seen[st]
        if not due and got == "mid" and getattr(tab, "eof_exact", False):
            e = trans[d][0]
            if e == tab.dead or e >= len(acc) or acc[e] == tab.dead:
                mid(w, "at the end of the input")
                return out
        if not due and not got:
            e = trans[d][0]
            if e == tab.dead or e >= len(acc) or acc[e] == tab.dead:
                out.append(("total", False, "no rule matches the text %r at the end of the input in mode %s" % (w.decode("utf-8", "replace"), tab.mode)))
                return out
        for b in range(1, 256):
            nd = utf8(due, b)
            if nd is None:
                continue
            if b >= len(trans[d]):
                out.append(("table", False, "row %d has no entry for byte %d" % (d, b)))
                return out
            x = trans[d][b]
            if x == tab.dead:
                if not got:
                    out.append(("total", False, "no rule matches the text %r in mode %s" % ((w + bytes([b])).decode("utf-8", "replace"), tab.mode)))
                    return out
                if got == "mid" and getattr(tab, "round_mid", False):
                    mid(w + bytes([b]), "the automaton stops")
                    return out
                continue
            if x >= n or x >= len(acc):
                out.append(("table", False, "state %d on byte %d leads to state %d, the table has %d" % (d, b, x, n)))
                return out
            k = (x, got if acc[x] == tab.dead else ("mid" if nd else "yes"), nd)
            if k not in seen:
                seen[k] = w + bytes([b])
                todo.append(k)
    out.append(("total", True, ""))
    return out


def utf8(due, b):
    """Continuation bytes due after byte b, None when b cannot follow."""
    if due:
        return due - 1 if 0x80 <= b < 0xC0 else None
    if b < 0x80:
        return 0
    return 1 if 0xC2 <= b < 0xE0 else 2 if 0xE0 <= b < 0xF0 else 3 if 0xF0 <= b < 0xF5 else None


# ---------------------------------------------------------------- lex()
class PanicLex(LexShape):
    """Panicking partitions of one pass of the token loop, per token kind, over the scanner's fields."""

    def __init__(self, sc):
        self.panics = {}
        super().__init__(sc)

    def one(self, k, v):
        sc, shape = self.sc, self.sc.shape
        payload = tuple(("String", mk("sym", ("payload",), "str")) for _ in v.get("ftys", ()))
        s = mk("sym", ("input",), "str")

        def model(e, q, a, c):
            ref = a[0]
            if ("tok",) in q.events:
                q.status, q.why = "next", ref
                return [(q, None)]
            q.events = q.events + (("tok",),)
            for f in self.FIELDS:
                e.write(q, (ref[0], ref[1], ref[2] + (("f", shape.field(f), "usize"),)), self.syms[f])
            return c.finish(q, adt("std::result::Result", 0, adt("std::option::Option", 1, adt(sc.token_adt, k, *payload))))
        flat = set(sc.flat)
        for d in reaches(sc.prog, sc.fn["def"]):
            for fn in sc.prog.by_def.get(d, ()):
                flat |= {(d, h) for h in rules.loops_of(fn)}
        e = Engine(sc.prog, panics=True, flat=flat, models={sc.fn["def"]: model})
        fin = e.run(self.fn, [("str", s)], Path())
        self.panics[v["name"]] = [f for f in fin if f.status not in ("return", "next")]
        no = mk("str_contains", (s, ("s", "\x00")), "bool")
        self.nul = getattr(self, "nul", True) and all(f.facts.get(no) == 0 for f in fin if ("tok",) in f.events)
        return LexShape.one(self, k, v)


# ---------------------------------------------------------------- the token filter
def filter_region(chk, prog):
    p2 = desugar.program(prog)
    fns = p2.find("init_tokens")
    if len(fns) != 1:
        raise AnalysisError("init_tokens was not found")
    fn = fns[0]
    e = Engine(p2, panics=True)
    p = Path()
    toks = mk("sym", ("toks",), "[%s]" % [n for n in p2.adts if n.endswith("lexer::Token")][0])
    p.mem[("arg", 0)] = ("vec", toks, (), ())
    p.assume(lez(lsub(1, slen_vec(toks))))
    p.assume(lez(lsub(slen_vec(toks), MAXPOS)))
    fin = e.run(fn, [("ref", ("arg", 0), ())], p)
    low = lower_bounds(e)
    twins = in_step(e)
    from .witness import FilterFinder
    finder = FilterFinder(p2, e, toks)
    out = []
    for f in fin:
        if f.status == "return":
            out.append(("ok", True, ""))
        elif f.status != "panic":
            out.append(("effect", None, "%s: %s" % (f.status, f.why)))
        else:
            what = "%s in %s:%s" % (f.why[1], f.why[0].split("::")[-1], f.why[2])
            ok = infeasible(f, lambda q: elem_facts(q) + twin_bounds(q, twins) + [(lez(lsub(c, k)), 1) for k, c in low.items()])
            out.append((what, True if ok else filter_real(f, toks, finder), what + " when " + " and ".join(("" if v else "not ") + show(b)[:80] for b, v in list(f.facts.items())[-3:])))
    chk.count("filter_partitions", len(fin))
    settle(chk, "filter", where(fn), out, "%d partitions" % len(fin))
    return fn


def filter_real(f, toks, finder):
    """A short token list for which the partition certainly occurs."""
    return False if finder.find(f) else None


# ---------------------------------------------------------------- what was looked at
RISKY = re.compile(r"unwrap|expect|panick|::index(_mut)?$|split_at|split_off|swap_remove|::remove$|::insert$|::swap$|drain|copy_from_slice|"
                   r"clone_from_slice|copy_within|borrow(_mut)?$|chunks|windows|rotate|step_by|from_utf8_unchecked|set_len|truncate|replace_range|div_|"
                   r"rem_|isqrt|ilog|char_at|begin_panic|abort|exit|as_chunks|sort")
SAFE = re.compile(r"unwrap_or|unwrap_or_else|unwrap_or_default|HashMap|HashSet|BTreeMap|GreenNodeBuilder|must_use")


def sites_region(chk, prog, root):
    es = graph.reachable(prog, [root["id"]])
    nsites = 0
    cover = Engine.cover
    names = {d for d, _ in cover}
    for k in sorted(es):
        fn = prog.fns[k]
        here = []
        for b, blk in enumerate(fn["blocks"]):
            t = blk["t"]
            if t["k"] == "assert":
                here.append((b, t["msg"]["m"]))
            elif t["k"] == "call" and t.get("f"):
                nm = str(t["f"].get("res"))
                if RISKY.search(nm) and not SAFE.search(nm) and t["f"].get("id") not in prog.fns:
                    here.append((b, nm))
        nsites += len(here)
        if here and fn["def"] not in names and not fn["def"].split("::{closure")[0] == "":
            chk.undecided("site:" + fn["def"], where(fn), "%d operations that can panic were not analysed: %s" % (len(here), here[0][1]))
    chk.count("functions", len(es))
    chk.count("panic_sites", nsites)
    bad = sorted(n for n in Engine.outside if RISKY.search(n) and not SAFE.search(n))
    local = {f["def"] for f in prog.fns.values()}
    bad = [n for n in bad if n not in local]
    for n in bad:
        chk.undecided("outside:" + n, "", "%s may panic and was not understood" % n)
    chk.notes.append("library functions taken as not panicking: %s" % ", ".join(sorted(n for n in Engine.outside if n not in bad and n not in local))[:3000])
    if not bad:
        chk.proved("sites", where(root), "%d functions, %d operations that can panic" % (len(es), nsites))


def report(chk, prog):
    Engine.cover, Engine.outside = set(), set()
    try:
        sc = Scanner(prog)
        chk.guard("match", match_region, chk, prog, sc)
        chk.guard("rules", rules_region, chk, prog, sc)
        chk.guard("filter", filter_region, chk, prog)
        r = chk.guard("driver", driver_region, chk, prog)
        if r:
            d, tf = r
            chk.guard("emit", emission_region, chk, prog, d)
            chk.guard("from_raw", raw_region, chk, prog, d, tf)
            chk.guard("sites", sites_region, chk, prog, d.parse)
    finally:
        Engine.cover = Engine.outside = None


def keep_region(chk, prog):
    """The tree builder of the build that keeps empty nodes."""
    d = driver.Driver(prog)
    emission_region(chk, prog, d, "keep:")
