"""Situations of the LR driver that certainly occur, worked out from the tables, and the partitions that hold in them.

A panicking partition is refuted only when all its facts hold in such a situation: the variables of the loop over parser
actions take the values of a configuration the automaton reaches on a short text, variables of other loops the values they
enter the loop with (so the pass in question is the first), and the popping loop's variables any of its passes."""
from .eng import T, Arr, show, lsub, lez, ladd, slen, lin_parts
from . import driver, scan
from .scan import subterms
from .panics import Ground, Cannot, terms_of, MAXV


def kw(w):
    return ("KEYWORD", w.upper())


# (text, [(kind, payload, start, end)]): texts whose tokens are beyond doubt
def texts():
    out = []

    def add(*parts):
        text, toks = b"", []
        for w, k in parts:
            b = w.encode()
            if k is not None:
                toks.append((k, len(text), len(text) + len(b), b))
            text += b
        out.append((text, toks))
    sp, uc = (" ", None), ("\u3000".encode().decode(), None)
    raw = lambda c: (c, ("RAW", c))
    ident = lambda w: (w, ("IDENT", None))
    num = lambda w: (w, ("ICONST", None))
    add()
    add(raw("{"))
    add(("select", kw("select")), sp, raw("{"))
    add(ident("\u3042"))
    add(sp, ident("\u3042"))
    add(ident("a"))
    add(("delete", kw("delete")))
    add(("select", kw("select")), sp, ident("a"), raw(","))
    add(ident("\u3042\u3044\u3046\u3048\u304a\u3042\u3044\u3046\u3048\u304a"))
    add(ident("a\u3042\u3044\u3046\u3048\u304a\u3042\u3044\u3046\u3048\u304a"))
    add(ident("ab\u3042\u3044\u3046\u3048\u304a\u3042\u3044\u3046\u3048\u304a"))
    add(("select", kw("select")), sp, ("select", kw("select")), ident("\u3042"))
    add(sp, ident("a"))
    add(raw(";"))
    add(sp)
    add(("/*\u3042*/", ("C_COMMENT", None)))
    add(("-- \u3042", ("SQL_COMMENT", None)))
    add(("select", kw("select")), sp, ("/*a*/", ("C_COMMENT", None)), num("1"), sp, ("--\u3042", ("SQL_COMMENT", None)))
    add(sp, ("/*\u3042*/", ("C_COMMENT", None)), sp, ("--b", ("SQL_COMMENT", None)))
    add(("select", kw("select")), sp, num("1"), raw(";"), sp, ("select", kw("select")), sp, num("2"), sp, ident("\u3042"))
    add(("select", kw("select")), sp, ident("\u3042"), raw("."), ident("\u3044"), sp, ("from", kw("from")), sp, ident("\u3042\u3044\u3046\u3048\u304a"))
    add(("select", kw("select")), sp, ident("\u3042"), sp, ident("\u3042\u3044\u3046\u3048\u304a"), sp, ident("\u3042"))
    add(("select", kw("select")), sp, ("'\u3042'", ("SCONST", None)), sp, raw(","), sp, raw(")"))
    add(("update", kw("update")), sp, ident("t"), sp, ("set", kw("set")), sp, ident("a"), raw("="), num("1"))
    add(("delete", kw("delete")), sp, ("from", kw("from")), sp, ident("t"), sp, ("where", kw("where")), sp, raw("("), num("1"), raw(")"), raw("["))
    add(("begin", kw("begin")), raw(";"), ("commit", kw("commit")), raw(";"))
    return out


class Config:
    def __init__(self, text, toks, stack, pos, last, extras):
        self.text, self.toks, self.stack, self.pos, self.last, self.extras = text, toks, stack, pos, last, extras


def configs(tf, ids):
    """Every configuration at the head of the loop over parser actions, on the texts."""
    out = []
    for text, toks in texts():
        toks = toks + [(("RAW", "$end"), len(text), len(text), b"")]
        stack, pos, last, extras = [(0, 0, 0, None)], 0, 0, []
        for _ in range(500):
            out.append(Config(text, toks, list(stack), pos, last, list(extras)))
            (k, a, b, w) = toks[pos]
            cid = ids.get((k[0], k[1]))
            if cid is None:
                break
            if k[0].endswith("_COMMENT"):
                if last < a:
                    extras.append((last, a))
                extras.append((a, b))
                pos, last = pos + 1, b
                continue
            v = tf.A(stack[-1][0], cid)
            if v is None or v == 32767 or v == 0:
                break
            if v > 0:
                if last < a:
                    extras.append((last, a))
                stack.append((v - 1, a, b, pos))
                pos, last = pos + 1, b
                continue
            name, n = tf.R[-v - 1]
            kids = stack[len(stack) - n:] if n else []
            if n:
                del stack[len(stack) - n:]
            if not stack or name not in tf.rid:
                break
            a2 = kids[0][1] if kids else max(extras[-1][1] if extras else 0, stack[-1][2])
            b2 = kids[-1][2] if kids else a2
            g = tf.G(stack[-1][0], tf.rid[name])
            if g is None or g < 0:
                break
            stack.append((g, a2, b2, None))
    return out


class At(Ground):
    """Values of the driver's terms in one configuration."""

    def __init__(self, d, tf, ids, c, names, pops):
        self.d, self.tf, self.ids, self.c, self.names, self.pops = d, tf, ids, c, names, pops
        self.busy = set()
        self.memo = {}
        self.s, self.i, self.n = d.s, None, None

    def token(self, k):
        kind, a, b, w = self.c.toks[k]
        vs = self.d.kinds
        f = {self.d.tokf["start_byte_pos"]: a, self.d.tokf["end_byte_pos"]: b, self.d.tokf["value"]: w,
             self.d.tokf["kind"]: ("kind", vs.index(kind[0]), kind)}
        return ("rec", f)

    def entry(self, e):
        st, a, b, k = e
        n = self.d.nodef
        return ("rec", {0: st, 1: ("rec", {n["start_byte_pos"]: a, n["end_byte_pos"]: b})})

    def val(self, t):
        if isinstance(t, T):
            if t in self.memo:
                return self.memo[t]
            v = self.eval(t)
            self.memo[t] = v
            return v
        if isinstance(t, tuple) and t:
            if t[0] == "vec":
                if t[3] or len(t) > 4:
                    raise Cannot("vec")
                base = [] if t[1] is None else self.val(t[1])
                return list(base) + [self.lazy(x) for x in t[2]]
            if t[0] in ("&", "sub") and len(t) == 2:
                return self.val(t[1])
            if t[0] == "adt" and t[1].endswith("TokenKind"):
                x = self.val(t[3][0]) if t[3] else None
                return ("kind", t[2], (self.d.kinds[t[2]], x.decode() if isinstance(x, bytes) else x))
            if t[0] == "adt":
                return ("adt", t[2], [self.lazy(x) for x in t[3]])
            if t[0] == "tup":
                return ("rec", dict(enumerate(self.lazy(x) for x in t[1])))
        return super().val(t)

    def lazy(self, x):
        try:
            return self.val(x)
        except Cannot as e:
            return ("?", str(e))

    def eval(self, t):
        d, a = self.d, t.args
        if t is d.s:
            return self.c.text
        if t is d.toks:
            return [self.token(k) for k in range(len(self.c.toks) - 1)]
        if t is d.scanned:
            return 1
        if t.op == "phi":
            return self.phi(t)
        if t.op == "len":
            v = self.phi(t) if t in self.d.by_phi and not isinstance(a[0], T) else self.val(a[0])
            return len(v) if isinstance(v, (list, bytes)) else self.fail(t)
        if t.op == "elem":
            if isinstance(a[0], Arr):
                k = self.num(a[1])
                return self.const(a[0].v[k]) if 0 <= k < len(a[0].v) else self.fail(t)
            v, k = self.val(a[0]), self.num(a[1])
            if not isinstance(v, list) or not 0 <= k < len(v):
                raise Cannot(show(t))
            return self.known(v[k])
        if t.op == "fld":
            v = self.val(a[0])
            if isinstance(v, tuple) and v[0] == "rec":
                if a[1] in v[1]:
                    return self.known(v[1][a[1]])
            if isinstance(v, tuple) and v[0] == "adt" and isinstance(a[1], int) and a[1] < len(v[2]):
                return self.known(v[2][a[1]])
            if isinstance(v, tuple) and v[0] == "kind" and a[1] == 0 and v[2][1] is not None:
                return v[2][1].encode()
            raise Cannot(show(t))
        if t.op == "as":
            return self.val(a[0])
        if t.op == "discr":
            v = self.val(a[0])
            if isinstance(v, tuple) and v[0] in ("kind", "adt"):
                return v[1]
            raise Cannot(show(t))
        if t.op == "popped":
            v = self.val(a[0])
            return v[:-1] if v else self.fail(t)
        if t.op == "reversed":
            return list(reversed(self.val(a[0])))
        if t.op == "call":
            return self.call(t)
        return super().val(t)

    def fail(self, t):
        raise Cannot(show(t))

    def known(self, v):
        if isinstance(v, tuple) and v and v[0] == "?":
            raise Cannot(v[1])
        return v

    def num(self, t):
        v = self.val(t)
        return v if isinstance(v, int) else self.fail(t)

    def const(self, v):
        if isinstance(v, tuple) and v[0] == "adt":
            return ("rec", dict(enumerate(self.lazy(x) for x in v[3])))
        return self.val(v)

    def call(self, t):
        d, a = self.d, t.args
        if d.is_call(t, d.tok_id):
            v = self.val(a[1])
            if not (isinstance(v, tuple) and v[0] == "kind"):
                raise Cannot(show(t))
            if not self.tf.complete and v[2] not in self.ids:
                raise Cannot("token numbers")
            x = self.ids.get(v[2])
            return ("adt", 0, []) if x is None else ("adt", 1, [x])
        if d.is_call(t, d.lookup) or d.is_call(t, d.goto):
            tab = self.tf.A if d.is_call(t, d.lookup) else self.tf.G
            x = tab(self.num(a[1]), self.num(a[2]))
            return x if x is not None else self.fail(t)
        if d.is_call(t, d.rule_id):
            x = self.val(a[1])
            x = x.decode() if isinstance(x, bytes) else x
            return self.tf.rid[x] if x in self.tf.rid else self.fail(t)
        raise Cannot(show(t)[:60])

    # ------------------------------------------------------------ loop variables
    def phi(self, t):
        if t in self.pops:
            return self.pops[t]
        r = self.names.get(t)
        c = self.c
        if r == "stack":
            return [self.entry(e) for e in c.stack]
        if r == "pos":
            return c.pos
        if r == "last":
            return c.last
        if r == "extras":
            return [("rec", {0: ("?", "kind"), 1: a, 2: b, 3: c.text[a:b]}) for a, b in c.extras]
        l = self.d.by_phi.get(t)
        if l is None or t in self.busy or l.key == self.d.main.key:
            raise Cannot(show(t))
        self.busy.add(t)
        try:
            return self.val(l.entry[t])
        finally:
            self.busy.discard(t)


def roles(d):
    """{loop variable of a loop over parser actions: role}."""
    out = {d.stack: "stack", d.pos: "pos", d.lastpos: "last", d.extras: "extras"}
    sig = lambda t: show(t).split("#")[0]
    mine = [(k, sig(k)) for k in d.main.phis if isinstance(k, T)]
    for l in d.mains:
        for k in l.phis:
            if not isinstance(k, T) or k in out:
                continue
            for m, s in mine:
                if m in out and s == sig(k) and m.op == k.op and m.ty == k.ty and sum(x[1] == s for x in mine) == 1:
                    out[k] = out[m]
    return out


class Finder:
    def __init__(self, d, tf):
        self.d, self.tf = d, tf
        d.find_roles()
        self.ids = dict(tf.ids)
        self.names = roles(d)
        self.configs = configs(tf, self.ids)

    def pop_loops(self, f):
        ts = terms_of(f)
        return [l for l in self.d.loops if l.key != self.d.main.key and any(k in ts for k in l.phis)]

    def limits(self, l):
        """[(stack variable, counter, limit, [variables that collect])] of a loop that pops one entry per pass."""
        d = self.d
        for L in l.phis:
            if not (isinstance(L, T) and L.op == "len"):
                continue
            st = L.args[0]
            for I in l.phis:
                if not (isinstance(I, T) and I.op == "phi" and l.entry[I] == 0 and l.backs):
                    continue
                if not all(driver.same(q, l.next(q)[I], ladd(I, 1)) == 1 and d.popped(l.next(q)[L], st) for q in l.backs):
                    continue
                lims = None
                for q in l.backs:
                    here = set()
                    for x in q.lins:
                        c, ts = lin_parts(x)
                        if dict(ts).get(I) == 1:
                            here.add(lsub(I, x))
                    lims = here if lims is None else lims & here
                if lims and len(lims) == 1:
                    x = lims.pop()
                    col = []
                    for C in l.phis:
                        if C is st or not isinstance(C, T) or C.op != "phi" or C is I:
                            continue
                        v = l.entry[C]
                        if v == ("vec", None, (), ()) and all(self.pushes(l.next(q).get(C), C) for q in l.backs):
                            col.append(C)
                    return st, L, I, x, col
        return None

    @staticmethod
    def pushes(v, C):
        return isinstance(v, tuple) and v[0] == "vec" and v[1] is C and len(v[2]) == 1

    def find(self, f):
        """(text, configuration) in which the partition's facts all hold, or (None, why)."""
        why = "no configuration of the sample texts satisfies the partition"
        loops = [x for x in (self.limits(l) for l in self.pop_loops(f)) if x is not None]
        for c in self.configs:
            for at in self.ways(c, loops):
                try:
                    if at.holds(f):
                        return c, ""
                except Cannot as e:
                    why = "not understood: %s" % str(e)[:80]
                except (KeyError, IndexError, TypeError, UnicodeDecodeError) as e:
                    why = "not understood: %r" % e
        return None, why

    def ways(self, c, loops):
        if not loops:
            yield At(self.d, self.tf, self.ids, c, self.names, {})
            return
        if len(loops) > 1:
            return
        st, L, I, lim, col = loops[0]
        probe = At(self.d, self.tf, self.ids, c, self.names, {})
        try:
            n = probe.val(lim)
        except (Cannot, KeyError, IndexError, TypeError):
            return
        for k in range(0, n + 2):
            if k > len(c.stack):
                break
            whole = [probe.entry(e) for e in c.stack]
            got = list(reversed(whole[len(whole) - k:] if k else []))
            pops = {st: whole[:len(whole) - k], L: len(whole) - k, I: k}
            for x in col:
                pops[x] = [self.node(e) for e in got]
            yield At(self.d, self.tf, self.ids, c, self.names, pops)

    @staticmethod
    def node(e):
        return e[1][1]


class FilterAt(At):
    """Values of the token filter's terms for one short token list, loop variables assigned."""

    def __init__(self, d, toks, vals):
        self.d, self.toks, self.vals = d, toks, vals
        self.c = Config(b"", toks, [], 0, 0, [])
        self.memo, self.busy = {}, set()
        self.s = self.i = self.n = None

    def eval(self, t):
        if t is self.d.toks or (t.op == "phi" and t.ty not in MAXV):
            return [self.token(k) for k in range(len(self.toks))]
        if t.op == "phi":
            if t in self.vals:
                return self.vals[t]
            raise Cannot(show(t))
        if t.op == "len":
            return len(self.val(t.args[0]))
        return super().eval(t)


class FilterFinder:
    KEYS = ("FORMAT", "NOT", "NULLS_P", "WITH", "WITHOUT", "SELECT", "TIME", "JSON")

    def __init__(self, prog, e, toks):
        kinds = [v["name"] for v in prog.adt("lexer::TokenKind")["variants"]]
        fs = prog.adt("lexer::Token")["variants"][0]["fields"]
        fs = [f if isinstance(f, str) else f["name"] for f in fs]
        self.kinds, self.tokf = kinds, {n: fs.index(n) for n in ("start_byte_pos", "end_byte_pos", "kind", "value")}
        self.s, self.toks, self.scanned = None, toks, None
        self.loops = driver.loops_of(e)
        self.by_phi = {x: l for l in self.loops for x in l.phis}

    def is_call(self, *_):
        return False

    def lists(self):
        com, num = ("C_COMMENT", None), ("ICONST", None)
        for k in self.KEYS:
            for rest in ([], [com], [num], [com, com], [("KEYWORD", "TIME")]):
                ts = [("KEYWORD", k)] + rest
                yield [(t, j * 2, j * 2 + 1, b"x") for j, t in enumerate(ts)]
        for ts in ([com], [num], [com, num]):
            yield [(t, j * 2, j * 2 + 1, b"x") for j, t in enumerate(ts)]

    def find(self, f):
        """A token list for which the partition's facts all hold, its loop variables at values the loops really reach."""
        ints = [t for t in terms_of(f) if t.op == "phi" and t.ty in MAXV]
        ls = []
        for ev in f.events:
            if ev[0] == "loop":
                ls += [l for l in self.loops if l.key == ev[1] and any(x in l.phis for x in ints)]
        if any(t not in {x for l in ls for x in l.phis} for t in ints):
            return None
        for toks in self.lists():
            if self.search(f, toks, ls, 0, {}):
                return [t[0] for t in toks]
        return None

    def search(self, f, toks, ls, k, vals):
        if k == len(ls):
            return self.holds(f, toks, vals)
        l = ls[k]
        mine = [x for x in l.phis if isinstance(x, T) and x.op == "phi" and x.ty in MAXV]
        v = dict(vals)
        try:
            at = FilterAt(self, toks, vals)
            for x in mine:
                v[x] = at.val(l.entry[x])
        except (Cannot, KeyError, IndexError, TypeError):
            return False
        for _ in range(len(toks) + 2):
            if self.search(f, toks, ls, k + 1, v):
                return True
            nxt = None
            for q in l.backs:
                if self.holds(q, toks, v) and all(self.kept(l.next(q).get(x), x) for x in l.phis if x not in mine):
                    try:
                        at = FilterAt(self, toks, v)
                        m = l.next(q)
                        nxt = dict(v, **{})
                        for x in mine:
                            nxt[x] = at.val(m[x])
                    except (Cannot, KeyError, IndexError, TypeError):
                        nxt = None
                        continue
                    break
            if nxt is None:
                return False
            v = nxt
        return False

    @staticmethod
    def kept(v, x):
        return v is x or v == x or v == ("vec", x, (), ())

    def holds(self, q, toks, vals):
        try:
            return FilterAt(self, toks, vals).holds(q)
        except (Cannot, KeyError, IndexError, TypeError, UnicodeDecodeError):
            return False
