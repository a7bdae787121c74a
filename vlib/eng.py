"""Path-partitioned abstract interpretation of the dumped MIR.

Domain: constants, structured values, value-numbered terms (T), intervals, linear inequalities and
discriminant facts per partition.  Loops are not unrolled: at a loop head every changed leaf is replaced by a
fresh term and the body is re-analysed until the set of changed leaves is stable; `>= entry value` bounds are
kept when the body re-establishes them.  Local functions and closures are analysed in place.  Calls without a
model become value-numbered terms of their arguments (and forget whatever a &mut argument points to).
No solver is used and nothing is executed."""
import re
from .dump import AnalysisError

INF = float("inf")
ISIZE_MAX = (1 << 63) - 1


class Budget(Exception):
    pass


class Unmodelled(Exception):
    pass


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "ty", "n", "_h")
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def mk(op, args, ty=None):
    k = (op, args)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.n = op, args, ty, len(T.table)
        t._h = hash(k)
        T.table[k] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def show(v, d=0):
    if d > 8:
        return "…"
    if isinstance(v, T):
        if v.op == "sym" or v.op == "phi":
            return str(v.args[0])
        if v.op == "lin":
            return "(" + " + ".join((["%d" % v.args[0]] if v.args[0] else []) + [
                (show(t, d + 1) if c == 1 else "%d*%s" % (c, show(t, d + 1))) for t, c in v.args[1]]) + ")"
        if v.op == "fld":
            return "%s.%s" % (show(v.args[0], d + 1), v.args[1])
        return "%s(%s)" % (v.op, ", ".join(show(a, d + 1) for a in v.args))
    if isinstance(v, tuple):
        if v and v[0] == "adt":
            return "%s#%s(%s)" % (v[1].split("::")[-1], v[2], ", ".join(show(a, d + 1) for a in v[3]))
        if v and v[0] == "s":
            return repr(v[1])
        return "(" + ", ".join(show(a, d + 1) for a in v) + ")"
    return str(v)


class Arr:
    """A constant array (elements: ints or values)."""
    __slots__ = ("v", "lo", "hi")

    def __init__(self, v):
        self.v = v
        if v and all(isinstance(x, int) for x in v):
            self.lo, self.hi = min(v), max(v)
        elif v and all(isinstance(x, Arr) and x.lo is not None for x in v):
            self.lo, self.hi = min(x.lo for x in v), max(x.hi for x in v)
        else:
            self.lo = self.hi = None

    def __repr__(self):
        return "Arr[%d]" % len(self.v)


INT_RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1),
             "usize": (0, (1 << 64) - 1), "u128": (0, (1 << 128) - 1), "i8": (-128, 127),
             "i16": (-(1 << 15), (1 << 15) - 1), "i32": (-(1 << 31), (1 << 31) - 1),
             "i64": (-(1 << 63), (1 << 63) - 1), "isize": (-(1 << 63), (1 << 63) - 1), "bool": (0, 1),
             "char": (0, 0x10FFFF), "i128": (-(1 << 127), (1 << 127) - 1)}


# ---------------------------------------------------------------- linear arithmetic
def lin_parts(v):
    if isinstance(v, int):
        return v, ()
    if isinstance(v, T):
        if v.op == "lin":
            return v.args
        return 0, ((v, 1),)
    raise Unmodelled("integer expected: %s" % show(v))


def lin_make(c, terms):
    terms = tuple(sorted(((t, k) for t, k in terms.items() if k), key=lambda x: x[0].n))
    if not terms:
        return c
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return mk("lin", (c, terms), "int")


def ladd(a, b, kb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    if not tb:
        if not ta:
            return ca + kb * cb
        d = dict(ta)
        return lin_make(ca + kb * cb, d)
    d = dict(ta)
    for t, k in tb:
        d[t] = d.get(t, 0) + kb * k
    return lin_make(ca + kb * cb, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lneg(a):
    return ladd(0, a, -1)


def is_int(v):
    return isinstance(v, int) or (isinstance(v, T))


def lez(d):
    if isinstance(d, int):
        return 1 if d <= 0 else 0
    c, ts = lin_parts(d)
    if len(ts) == 1 and abs(ts[0][1]) > 1:
        k = abs(ts[0][1])
        # k*t + c <= 0
        c2 = -((-c) // k)
        d = lin_make(c2, {ts[0][0]: ts[0][1] // k})
    return mk("lez", (d,), "bool")


def eqz(d):
    if isinstance(d, int):
        return 1 if d == 0 else 0
    c, ts = lin_parts(d)
    if len(ts) == 1 and abs(ts[0][1]) > 1:
        if c % ts[0][1]:
            return 0
        d = ladd(ts[0][0], c // ts[0][1])
        ts = ((ts[0][0], 1),)
    if ts[0][1] < 0:
        d = lneg(d)
    return mk("eqz", (d,), "bool")


def lnot(b):
    if isinstance(b, int):
        return 1 - b
    if b.op == "not":
        return b.args[0]
    if b.op == "lez":
        return lez(ladd(1, b.args[0], -1))
    return mk("not", (b,), "bool")


def cmp_int(op, a, b):
    if op == "Eq":
        return eqz(lsub(a, b))
    if op == "Ne":
        return lnot(eqz(lsub(a, b)))
    if op == "Lt":
        return lez(ladd(lsub(a, b), 1))
    if op == "Le":
        return lez(lsub(a, b))
    if op == "Gt":
        return lez(ladd(lsub(b, a), 1))
    if op == "Ge":
        return lez(lsub(b, a))
    raise Unmodelled(op)


# ---------------------------------------------------------------- strings (content terms)
def S(text):
    return ("s", text)


def slen(c):
    if isinstance(c, tuple) and c[0] == "s":
        return len(c[1].encode("utf-8"))
    if isinstance(c, T) and c.op == "slice":
        return lsub(c.args[2], c.args[1])
    if isinstance(c, T) and c.op == "lower":
        return slen(c.args[0])
    if isinstance(c, tuple) and c[0] == "cat":
        n = 0
        for x in c[1]:
            n = ladd(n, slen(x))
        return n
    return mk("len", (c,), "usize")


def sslice(c, lo, hi):
    if isinstance(c, tuple) and c[0] == "s" and isinstance(lo, int) and isinstance(hi, int):
        b = c[1].encode("utf-8")
        if 0 <= lo <= hi <= len(b):
            return S(b[lo:hi].decode("utf-8", "replace"))
    if lo == 0 and hi == slen(c):
        return c
    if isinstance(c, T) and c.op == "slice":
        return mk("slice", (c.args[0], ladd(c.args[1], lo), ladd(c.args[1], hi)), "str")
    if lo == hi:
        return S("")
    return mk("slice", (c, lo, hi), "str")


def streq(a, b):
    if a == b:
        return 1
    ca, cb = isinstance(a, tuple) and a[0] == "s", isinstance(b, tuple) and b[0] == "s"
    if ca and cb:
        return 1 if a[1] == b[1] else 0
    if ca:
        a, b = b, a
    elif not cb and getattr(b, "n", 0) < getattr(a, "n", 0):
        a, b = b, a
    return mk("streq", (a, b), "bool")


def cat(a, b):
    pa = a[1] if isinstance(a, tuple) and a[0] == "cat" else (() if a == S("") else (a,))
    pb = b[1] if isinstance(b, tuple) and b[0] == "cat" else (() if b == S("") else (b,))
    out = []
    for x in pa + pb:
        if out and isinstance(x, tuple) and x[0] == "s" and isinstance(out[-1], tuple) and out[-1][0] == "s":
            out[-1] = S(out[-1][1] + x[1])
        elif out and isinstance(x, T) and isinstance(out[-1], T) and x.op == "slice" and out[-1].op == "slice" \
                and x.args[0] == out[-1].args[0] and x.args[1] == out[-1].args[2]:
            out[-1] = sslice(x.args[0], out[-1].args[1], x.args[2])
        else:
            out.append(x)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


# ---------------------------------------------------------------- values
def adt(name, variant, *fields):
    return ("adt", name, variant, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
NONE = adt(OPT, 0)


def some(v):
    return adt(OPT, 1, v)


UNIT = ("tup", ())


def generics(ty):
    """Top-level generic arguments of a type string."""
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    return split_top(ty[i + 1:-1])


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_ref(ty):
    if ty is None:
        return None
    if ty.startswith("&mut "):
        return ty[5:]
    if ty.startswith("&"):
        return ty[1:]
    return None


def elem_type(ty):
    if ty is None:
        return None
    if ty.startswith("["):
        inner = ty[1:-1]
        parts = inner.rsplit(";", 1)
        return parts[0]
    if ty.startswith("std::vec::Vec<"):
        g = generics(ty)
        return g[0] if g else None
    return None


def lift(t, ty):
    """A value of type `ty` made from the term t."""
    if ty is not None and isinstance(t, T) and t.ty is None:
        t.ty = ty
    if ty == "&str" or ty == "&mut str":
        return ("str", t)
    if ty == "std::string::String":
        return ("String", t)
    if ty == "()":
        return UNIT
    return t


# ---------------------------------------------------------------- partitions
class Path:
    __slots__ = ("mem", "frames", "facts", "eqs", "ne", "iv", "lins", "strs", "events", "ret", "status", "why", "uid",
                 "trail")

    def __init__(self):
        self.mem, self.frames = {}, []
        self.facts, self.eqs, self.ne, self.iv, self.strs = {}, {}, {}, {}, {}
        self.lins = ()
        self.events = ()
        self.ret = None
        self.status = None
        self.why = None
        self.uid = 0
        self.trail = ()

    def fork(self):
        p = Path()
        p.mem, p.frames = dict(self.mem), list(self.frames)
        p.facts, p.eqs, p.ne, p.iv, p.strs = dict(self.facts), dict(self.eqs), dict(self.ne), dict(self.iv), dict(self.strs)
        p.lins, p.events, p.uid, p.trail = self.lins, self.events, self.uid, self.trail
        p.ret, p.status, p.why = self.ret, self.status, self.why
        return p

    # ---- integers
    def itv(self, t):
        if isinstance(t, int):
            return t, t
        if t in self.eqs:
            return self.eqs[t], self.eqs[t]
        if t.op == "lin":
            lo = hi = t.args[0]
            for x, k in t.args[1]:
                a, b = self.itv(x)
                if k > 0:
                    lo, hi = lo + k * a, hi + k * b
                else:
                    lo, hi = lo + k * b, hi + k * a
            return lo, hi
        lo, hi = -INF, INF
        if t.ty in INT_RANGE:
            lo, hi = INT_RANGE[t.ty]
        if t.op == "len" or t.op == "nchars":
            lo, hi = 0, ISIZE_MAX
        elif t.op == "band":
            for a in t.args:
                if isinstance(a, int) and a >= 0:
                    lo, hi = max(lo, 0), min(hi, a)
        elif t.op == "elem":
            root = t.args[0]
            while isinstance(root, T) and root.op == "elem":
                root = root.args[0]
            if isinstance(root, Arr) and root.lo is not None:
                lo, hi = max(lo, root.lo), min(hi, root.hi)
        elif t.op == "shl" and isinstance(t.args[1], int):
            a, b = self.itv(t.args[0])
            if a >= 0:
                lo, hi = max(lo, a << t.args[1] if a != INF else lo), min(hi, b << t.args[1] if b != INF else hi)
        elif t.op == "shr" and isinstance(t.args[1], int):
            a, b = self.itv(t.args[0])
            if a >= 0 and b != INF:
                lo, hi = max(lo, a >> t.args[1]), min(hi, b >> t.args[1])
        elif t.op == "max":
            a, b = self.itv(t.args[0]), self.itv(t.args[1])
            lo, hi = max(lo, a[0], b[0]), min(hi, max(a[1], b[1]))
        elif t.op == "min":
            a, b = self.itv(t.args[0]), self.itv(t.args[1])
            lo, hi = max(lo, min(a[0], b[0])), min(hi, a[1], b[1])
        r = self.iv.get(t)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def norm(self, v):
        """Replaces integer terms with a known value."""
        if isinstance(v, T):
            if v in self.eqs:
                return self.eqs[v]
            if v.op == "lin":
                if any(t in self.eqs for t, _ in v.args[1]):
                    c, d = v.args[0], {}
                    for t, k in v.args[1]:
                        if t in self.eqs:
                            c += k * self.eqs[t]
                        else:
                            d[t] = d.get(t, 0) + k
                    return lin_make(c, d)
        return v

    def le0(self, d):
        """Is d <= 0?  1 / 0 / None"""
        d = self.norm(d)
        if isinstance(d, int):
            return 1 if d <= 0 else 0
        lo, hi = self.itv(d)
        if hi <= 0:
            return 1
        if lo > 0:
            return 0
        if self._by_lins(d):
            return 1
        if self._by_lins(ladd(1, d, -1)):
            return 0
        return None

    def _by_lins(self, d):
        """d <= 0 from the recorded inequalities f <= 0 (sums of at most three of them)."""
        def terms(x):
            return {t for t, _ in lin_parts(x)[1]}

        def rec(cur, depth, used):
            if isinstance(cur, int):
                return cur <= 0
            if self.itv(cur)[1] <= 0:
                return True
            if depth == 0:
                return False
            ts = dict(lin_parts(cur)[1])
            for i, f in enumerate(self.lins):
                if i in used:
                    continue
                fs = lin_parts(f)[1]
                # only facts that cancel a term of `cur`
                if not any(t in ts and (ts[t] > 0) == (k > 0) for t, k in fs):
                    continue
                if rec(self.norm(lsub(cur, f)), depth - 1, used | {i}):
                    return True
            return False
        return rec(d, 3, frozenset())

    def truth(self, b):
        if isinstance(b, int):
            return b
        if not isinstance(b, T):
            return None
        if b in self.facts:
            return self.facts[b]
        if b.op == "not":
            r = self.truth(b.args[0])
            return None if r is None else 1 - r
        if b.op == "lez":
            return self.le0(b.args[0])
        if b.op == "eqz":
            d = self.norm(b.args[0])
            if isinstance(d, int):
                return 1 if d == 0 else 0
            c, ts = lin_parts(d)
            if len(ts) == 1:
                t, k = ts[0]
                if (-c) % k:
                    return 0
                if (-c) // k in self.ne.get(t, ()):
                    return 0
            lo, hi = self.itv(d)
            if lo > 0 or hi < 0:
                return 0
            if self.facts.get(eqz(d)) is not None:
                return self.facts[eqz(d)]
            if self._by_lins(ladd(d, 1)) or self._by_lins(ladd(1, d, -1)):
                return 0
            if self._by_lins(d) and self._by_lins(lneg(d)):
                return 1
            return None
        if b.op == "streq":
            x, y = b.args
            k = self.strs.get(x)
            if k is not None and isinstance(y, tuple) and y[0] == "s":
                if k[0] is not None:
                    return 1 if k[0] == y[1] else 0
                if y[1] in k[1]:
                    return 0
            if isinstance(y, tuple) and y[0] == "s":
                n = len(y[1].encode())
                r = self.truth(eqz(lsub(slen(x), n)))
                if r == 0:
                    return 0
            return None
        if b in self.eqs:
            return self.eqs[b]
        return None

    def _refine(self, t, lo, hi):
        a, b = self.itv(t)
        lo, hi = max(lo, a), min(hi, b)
        ne = self.ne.get(t, ())
        while lo <= hi and lo in ne:
            lo += 1
        while lo <= hi and hi in ne:
            hi -= 1
        if lo > hi:
            return False
        self.iv[t] = (lo, hi)
        if lo == hi:
            return self._set(t, lo)
        return True

    def _set(self, t, c):
        if t in self.eqs:
            return self.eqs[t] == c
        if c in self.ne.get(t, ()):
            return False
        lo, hi = self.itv(t)
        if not (lo <= c <= hi):
            return False
        self.eqs[t] = c
        self.lins = tuple(x for x in (self.norm(f) for f in self.lins) if not (isinstance(x, int) and x <= 0))
        return not any(isinstance(x, int) for x in self.lins)

    def assume(self, b, val=1):
        """Adds b == val; False if that is contradictory."""
        if isinstance(b, int):
            return b == val
        r = self.truth(b)
        if r is not None:
            return r == val
        if b.op == "not":
            return self.assume(b.args[0], 1 - val)
        if b.op == "lez":
            d = self.norm(b.args[0])
            if not val:
                d = ladd(1, d, -1)
            return self.add_lez(d)
        self.facts[b] = val
        if b.op == "eqz":
            d = self.norm(b.args[0])
            c, ts = lin_parts(d)
            if len(ts) == 1:
                t, k = ts[0]
                v = (-c) // k
                if val:
                    return self._set(t, v)
                self.ne[t] = frozenset(self.ne.get(t, ())) | {v}
                lo, hi = self.itv(t)
                return self._refine(t, lo, hi)
            if val:
                return self.add_lez(d) and self.add_lez(lneg(d))
            self.facts[eqz(d)] = 0
            return True
        if b.op == "streq":
            x, y = b.args
            if isinstance(y, tuple) and y[0] == "s":
                k = self.strs.get(x, (None, frozenset()))
                if val:
                    self.strs[x] = (y[1], k[1])
                    return self.assume(eqz(lsub(slen(x), len(y[1].encode()))), 1)
                self.strs[x] = (k[0], k[1] | {y[1]})
            return True
        self.eqs[b] = val
        return True

    def add_lez(self, d):
        d = self.norm(d)
        r = self.le0(d)
        if r == 1:
            return True
        if r == 0:
            return False
        c, ts = lin_parts(d)
        if len(ts) == 1:
            t, k = ts[0]
            # k*t + c <= 0
            if k > 0:
                return self._refine(t, -INF, (-c) // k)
            return self._refine(t, _ceil_div(c, -k), INF)
        self.lins = self.lins + (d,)
        return True

    def event(self, *e):
        self.events = self.events + (e,)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _ceil_div(a, b):
    return -((-a) // b)


class Frame:
    __slots__ = ("fid", "fn", "dest", "ret", "post")

    def __init__(self, fid, fn, dest, ret, post):
        self.fid, self.fn, self.dest, self.ret, self.post = fid, fn, dest, ret, post


# ---------------------------------------------------------------- loops of a function
def loops_of(fn):
    if "_loops" in fn:
        return fn["_loops"]
    blocks = fn["blocks"]
    n = len(blocks)
    succ = [successors(b["t"]) for b in blocks]
    # dominators by DFS order (iterative data-flow on bitsets)
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if pos.get(s, 1 << 30) <= pos[b]:
                if not dom(s, b):
                    loops.setdefault("irreducible", True)
                    continue
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
    fn["_loops"] = loops
    return loops


def successors(t):
    k = t["k"]
    if k in ("goto", "drop"):
        return [t["to"]]
    if k == "switch":
        return [x[1] for x in t["br"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    if k == "assert":
        return [t["to"]]
    return []


# ---------------------------------------------------------------- engine
class Engine:
    made = 0

    cover = None        # blocks entered, when someone collects them
    outside = None      # functions that were taken as unknown

    def __init__(self, prog, models=None, opaque=(), max_steps=400000, max_paths=20000, hints=None, panics=True,
                 flat=(), unroll=False):
        self.prog = prog
        from . import models as M
        self.models = dict(M.MODELS)
        self.model_patterns = list(M.PATTERNS)
        if models:
            self.models.update(models)
        self.opaque = set(opaque)
        self.max_steps, self.max_paths = max_steps, max_paths
        self.steps = 0
        self.fidc = 0
        Engine.made += 1
        self.mark = "/%d" % Engine.made    # terms are shared between engines: names must not be
        self.skipped = []      # partitions in which an iterator filter passes over an element
        self.loop_log = {}     # (fn def, head) -> list of (head path, back paths, exit paths)
        self.loop_entry, self.loop_changed = {}, {}   # id(head path) -> entry path / generalised leaves
        self.unmodelled = {}   # callee -> count
        self.inlined = {}
        self.hints = hints or []
        self.panics = panics
        self.flat = set(flat)  # loop heads (function, block) entered like plain blocks
        self.unroll = unroll   # constant propagation through loops over constant sequences
        self.consts = {}
        self.finals = None

    # ---- constants
    merge = True

    def const(self, c):
        k = id(c)
        r = self.consts.get(k)
        if r is None:
            r = (self.cval(c.get("v"), c["ty"]), c)
            self.consts[k] = r
        return r[0]

    def cval(self, v, ty=None):
        if v is None:
            return mk("const", (ty,), ty)
        if "int" in v:
            return v["int"]
        if "bool" in v:
            return 1 if v["bool"] else 0
        if "char" in v:
            return v["char"]
        if "str" in v:
            return ("str", S(v["str"]))
        if "ints" in v:
            return Arr(v["ints"])
        if "arr" in v:
            return Arr([self.cval(x) for x in v["arr"]])
        if "tuple" in v:
            return ("tup", tuple(self.cval(x) for x in v["tuple"]))
        if "adt" in v:
            fs = tuple(self.cval(x) for x in v["fields"])
            if v["adt"] == "std::string::String":
                return ("String", S(""))
            if v["adt"] == "std::vec::Vec":
                return ("vec", None, (), ())
            return ("adt", v["adt"], v["variant"], fs)
        if "ref" in v:
            key = ("const", id(v))
            self.static_cells = getattr(self, "static_cells", {})
            if key not in self.static_cells:
                self.static_cells[key] = (self.cval(v["ref"]), v)
            return ("ref", key, ())
        if "static" in v:
            return ("ref", ("static", v["static"]), ())
        if "fn" in v:
            return ("fn", v["fn"]["id"], v["fn"].get("def"))
        if "fnptr" in v:
            return ("fn", v["fnptr"], None)
        if "closure" in v:
            return ("clo", v["closure"], ())
        if "zst" in v:
            return ("zst", v["zst"])
        return mk("const", (str(v), ty), ty)

    # ---- memory
    def load_cell(self, p, cell):
        if cell in p.mem:
            return p.mem[cell]
        if cell[0] == "static":
            self.static_cells = getattr(self, "static_cells", {})
            if cell not in self.static_cells:
                s = self.prog.statics.get(cell[1])
                if s is None or s.get("mut"):
                    raise Unmodelled("static " + cell[1])
                self.static_cells[cell] = (self.cval(s["v"], s["ty"]), s)
            return self.static_cells[cell][0]
        if cell[0] == "const":
            return self.static_cells[cell][0]
        if cell[0] == "deref":
            t = cell[1]
            ty = strip_ref(t.ty)
            return lift(mk("deref", (t,), ty), ty)
        raise Unmodelled("read of undefined memory %s" % (cell,))

    def proj(self, p, v, e):
        k = e[0]
        if k == "f":
            i, ty = e[1], e[2]
            if isinstance(v, tuple):
                if v[0] == "adt":
                    if i < len(v[3]):
                        return v[3][i]
                elif v[0] == "tup":
                    return v[1][i]
                elif v[0] == "rec":
                    for j, x in v[3]:
                        if j == i:
                            return x
                    return lift(mk("fld", (v[1], i), ty), ty)
                elif v[0] == "clo":
                    return v[2][i]
                elif v[0] == "box":
                    return v
                raise Unmodelled("field %s of %s" % (i, show(v)))
            if isinstance(v, T):
                return lift(mk("fld", (v, i), ty), ty)
            raise Unmodelled("field of %s" % show(v))
        if k == "d":
            if isinstance(v, tuple) and v[0] == "adt":
                return v
            if isinstance(v, tuple) and v[0] == "rec":
                return v
            if isinstance(v, T):
                return mk("as", (v, e[1]), v.ty)
            raise Unmodelled("downcast of %s" % show(v))
        if k == "i":
            return self.elem(p, v, e[1])
        if k == "ci":
            off, frm = e[1], e[3]
            n = self.seqlen(p, v)
            idx = lsub(n, off) if frm else off
            return self.elem(p, v, idx)
        raise Unmodelled("projection %s" % (e,))

    def seqlen(self, p, v):
        if isinstance(v, Arr):
            return len(v.v)
        if isinstance(v, tuple):
            if v[0] == "vec":
                n = len(v[2])
                return n if v[1] is None else ladd(self.seqlen(p, v[1]), n)
            if v[0] == "String" or v[0] == "str":
                return slen(v[1])
            if v[0] == "bytes":
                return slen(v[1])
            if v[0] == "sub":
                return lsub(v[3], v[2])
            if v[0] == "ref":
                return self.seqlen(p, self.read(p, v))
        if isinstance(v, T):
            if v.ty and v.ty.startswith("[") and ";" in v.ty:
                n = v.ty.rsplit(";", 1)[1][:-1]
                if n.isdigit():
                    return int(n)
            return mk("len", (v,), "usize")
        raise Unmodelled("length of %s" % show(v))

    def elem(self, p, v, idx):
        idx = p.norm(idx)
        if isinstance(v, Arr):
            if isinstance(idx, int):
                if 0 <= idx < len(v.v):
                    return v.v[idx]
                raise Unmodelled("constant index out of range")
            lo, hi = p.itv(idx)
            if v.v and not isinstance(v.v[0], (int,)) and not isinstance(v.v[0], Arr):
                return mk("elem", (v, idx), None)
            return mk("elem", (v, idx), None)
        if isinstance(v, tuple) and v[0] == "vec":
            val = None
            for ui, upath, uval in reversed(v[3]):
                r = p.truth(eqz(lsub(ui, idx)))
                if r == 1:
                    val = ("u", upath, uval)
                    break
                if r is None:
                    return mk("elem", (self.snap(p, v), idx), elem_type(v[1].ty) if isinstance(v[1], T) else None)
            if val is not None:
                return val[2]
            if v[1] is None:
                if isinstance(idx, int):
                    if 0 <= idx < len(v[2]):
                        return v[2][idx]
                    raise Unmodelled("index out of range")
                return mk("elem", (self.snap(p, v), idx), None)
            off = p.norm(lsub(idx, self.seqlen(p, v[1])))
            if isinstance(off, int) and 0 <= off < len(v[2]):
                return v[2][off]
            if not v[2] or p.truth(lez(ladd(off, 1))) == 1:
                ty = elem_type(v[1].ty)
                return lift(mk("elem", (v[1], idx), ty), ty)
            return mk("elem", (self.snap(p, v), idx), elem_type(v[1].ty))
        if isinstance(v, tuple) and v[0] == "bytes":
            return self.byte_at(p, v[1], idx)
        if isinstance(v, tuple) and v[0] == "sub":
            return self.elem(p, v[1], ladd(v[2], idx))
        if isinstance(v, T):
            ty = elem_type(v.ty)
            return lift(mk("elem", (v, idx), ty), ty)
        raise Unmodelled("index of %s" % show(v))

    def byte_at(self, p, c, idx):
        idx = p.norm(idx)
        if isinstance(c, tuple) and c[0] == "s" and isinstance(idx, int):
            b = c[1].encode()
            if 0 <= idx < len(b):
                return b[idx]
        if isinstance(c, T) and c.op == "slice":
            return self.byte_at(p, c.args[0], ladd(c.args[1], idx))
        return mk("byte", (c, idx), "u8")

    def store_proj(self, p, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            i = e[1]
            if isinstance(v, tuple) and v[0] == "adt":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(None)
                fs[i] = self.store_proj(p, fs[i], path[1:], new)
                return (v[0], v[1], v[2], tuple(fs))
            if isinstance(v, tuple) and v[0] == "tup":
                fs = list(v[1])
                fs[i] = self.store_proj(p, fs[i], path[1:], new)
                return ("tup", tuple(fs))
            if isinstance(v, tuple) and v[0] == "rec":
                old = self.proj(p, v, e)
                nv = self.store_proj(p, old, path[1:], new)
                return ("rec", v[1], v[2], tuple(sorted([(j, x) for j, x in v[3] if j != i] + [(i, nv)], key=lambda z: z[0])))
            if isinstance(v, T):
                old = self.proj(p, v, e) if len(path) > 1 else None
                return ("rec", v, None, ((i, self.store_proj(p, old, path[1:], new)),))
            if v is None:
                raise Unmodelled("store into undefined aggregate")
            raise Unmodelled("store into %s" % show(v))
        if e[0] == "d":
            if isinstance(v, T):
                return self.store_proj(p, mk("as", (v, e[1]), v.ty), path[1:], new)
            return self.store_proj(p, v, path[1:], new)
        if e[0] == "i":
            idx = p.norm(e[1])
            if isinstance(v, T):
                v = ("vec", v, (), ())
            if isinstance(v, tuple) and v[0] == "vec":
                old = self.elem(p, v, idx) if len(path) > 1 else None
                nv = self.store_proj(p, old, path[1:], new)
                if v[1] is None and isinstance(idx, int) and 0 <= idx < len(v[2]) and not v[3]:
                    it = list(v[2])
                    it[idx] = nv
                    return ("vec", None, tuple(it), ())
                ups = tuple(u for u in v[3] if u[0] != idx) + ((idx, (), nv),)
                return ("vec", v[1], v[2], ups)
            raise Unmodelled("indexed store into %s" % show(v))
        raise Unmodelled("store projection %s" % (e,))

    def addr(self, p, place, fid):
        """(cell, path) of a MIR place."""
        cell, path = (fid, place[0]), ()
        for e in place[1]:
            if e == "*":
                v = self.read_at(p, cell, path)
                if isinstance(v, tuple) and v[0] == "ref":
                    cell, path = v[1], v[2]
                elif isinstance(v, T):
                    cell, path = ("deref", v), ()
                elif isinstance(v, tuple) and v[0] in ("str",):
                    cell, path = ("strval", v), ()
                elif isinstance(v, tuple) and v[0] in ("bytes", "sub"):
                    cell, path = ("strval", v), ()
                elif isinstance(v, tuple) and v[0] == "box":
                    cell, path = v[1], ()
                else:
                    raise Unmodelled("deref of %s" % show(v))
            elif e == "oc":
                pass
            elif "f" in e:
                path = path + (("f", e["f"], e.get("t")),)
            elif "i" in e:
                path = path + (("i", self.read_at(p, (fid, e["i"]), ())),)
            elif "d" in e:
                path = path + (("d", e["d"]),)
            elif "ci" in e:
                path = path + (("ci",) + tuple(e["ci"]),)
            else:
                raise Unmodelled("place %s" % e)
        return cell, path

    def read_at(self, p, cell, path):
        if cell[0] == "strval":
            v = cell[1]
        else:
            v = self.load_cell(p, cell)
        for e in path:
            v = self.proj(p, v, e)
        return v

    def read(self, p, ref):
        """Value a reference points to."""
        if isinstance(ref, tuple) and ref[0] == "ref":
            return self.read_at(p, ref[1], ref[2])
        if isinstance(ref, T):
            return self.load_cell(p, ("deref", ref))
        if isinstance(ref, tuple) and ref[0] in ("str", "bytes", "sub"):
            return ref
        raise Unmodelled("deref of %s" % show(ref))

    def write_at(self, p, cell, path, v):
        if not path:
            p.mem[cell] = v
            return
        try:
            old = self.load_cell(p, cell)
        except Unmodelled:
            if len(path) == 1 and path[0][0] == "f":
                p.mem[cell] = ("tup", tuple([None] * path[0][1]) + (v,))
                return
            raise
        p.mem[cell] = self.store_proj(p, old, path, v)

    def write(self, p, ref, v):
        if isinstance(ref, tuple) and ref[0] == "ref":
            return self.write_at(p, ref[1], ref[2], v)
        if isinstance(ref, T):
            p.mem[("deref", ref)] = v
            return
        raise Unmodelled("write through %s" % show(ref))

    def snap(self, p, v, d=0):
        """Value with references replaced by what they point to."""
        if d > 6:
            return v
        if isinstance(v, tuple) and v:
            if v[0] == "ref":
                try:
                    return ("&", self.snap(p, self.read(p, v), d + 1))
                except Unmodelled:
                    return v
            if v[0] in ("s",):
                return v
            return tuple(self.snap(p, x, d + 1) if isinstance(x, tuple) else p.norm(x) if isinstance(x, T) else x for x in v)
        return p.norm(v)

    def fresh(self, p, name, ty=None):
        self.fidc += 1
        return mk("sym", ("%s#%d%s" % (name, self.fidc, self.mark),), ty)

    # ---- operands and rvalues
    def operand(self, p, o, fid):
        if "c" in o:
            return self.const(o["c"])
        if "cp" in o or "mv" in o:
            cell, path = self.addr(p, o.get("cp") or o.get("mv"), fid)
            return self.read_at(p, cell, path)
        if "rc" in o:
            return 0
        raise Unmodelled("operand %s" % o)

    def otype(self, o, fn):
        if "c" in o:
            return o["c"]["ty"]
        pl = o.get("cp") or o.get("mv")
        if pl is None:
            return None
        ty = fn["locals"][pl[0]]
        for e in pl[1]:
            if e == "*":
                ty = strip_ref(ty) if ty else None
            elif isinstance(e, dict) and "f" in e:
                ty = e.get("t")
            elif isinstance(e, dict) and ("i" in e or "ci" in e):
                ty = elem_type(ty)
            elif isinstance(e, dict) and "d" in e:
                pass
            else:
                ty = None
        return ty

    def rvalue(self, p, r, fid, fn, dty):
        if "use" in r:
            return self.operand(p, r["use"], fid)
        if "ref" in r or "addr" in r:
            pl = r.get("ref") or r.get("addr")
            if pl[1] and pl[1][-1] == "*":
                return self.read_at(p, *self.addr(p, [pl[0], pl[1][:-1]], fid))
            cell, path = self.addr(p, pl, fid)
            if cell[0] == "strval" and not path:
                return cell[1]
            return ("ref", cell, path)
        if "discr" in r:
            cell, path = self.addr(p, r["discr"], fid)
            return self.discr(p, self.read_at(p, cell, path))
        if "bin" in r:
            a, b = self.operand(p, r["a"], fid), self.operand(p, r["b"], fid)
            return self.binop(p, r["bin"], a, b, self.otype(r["a"], fn), False)
        if "chk" in r:
            a, b = self.operand(p, r["a"], fid), self.operand(p, r["b"], fid)
            ty = self.otype(r["a"], fn)
            v = self.binop(p, r["chk"], a, b, ty, True)
            if ty in INT_RANGE:
                lo, hi = INT_RANGE[ty]
                if isinstance(v, int):
                    ov = 0 if lo <= v <= hi else 1
                else:
                    under = lez(ladd(lsub(v, lo), 1))    # v < lo
                    over = lez(ladd(lsub(hi, v), 1))     # v > hi
                    tu, to = p.truth(under), p.truth(over)
                    if tu == 0 and to == 0:
                        ov = 0
                    elif tu == 0:
                        ov = over
                    elif to == 0:
                        ov = under
                    elif tu == 1 or to == 1:
                        ov = 1
                    else:
                        ov = mk("or", (under, over), "bool")
            else:
                ov = mk("ovf", (r["chk"], p.norm(a), p.norm(b)), "bool")
            return ("tup", (v, ov))
        if "un" in r:
            a = p.norm(self.operand(p, r["a"], fid))
            ty = self.otype(r["a"], fn)
            if r["un"] == "Not":
                if ty == "bool":
                    return lnot(a)
                if isinstance(a, int) and ty in INT_RANGE:
                    lo, hi = INT_RANGE[ty]
                    return (hi - a) if lo == 0 else ~a
                return mk("bnot", (a,), ty)
            if r["un"] == "Neg":
                return lneg(a)
            if r["un"] == "PtrMetadata":
                if isinstance(a, tuple) and a[0] in ("str", "bytes", "sub"):
                    return self.seqlen(p, a)
                return self.seqlen(p, self.read(p, a))
            raise Unmodelled("unary " + r["un"])
        if "cast" in r:
            a = p.norm(self.operand(p, r["a"], fid))
            return self.cast(p, r["cast"], a, self.otype(r["a"], fn), r["ty"])
        if "repeat" in r:
            v = self.operand(p, r["repeat"], fid)
            if r["n"] is not None and int(r["n"]) <= 4096:
                return Arr([v] * int(r["n"])) if isinstance(v, int) else ("vec", None, tuple([v] * int(r["n"])), ())
            return mk("repeat", (v, r["n"]), dty)
        if "len" in r:
            return self.seqlen(p, self.read_at(p, *self.addr(p, r["len"], fid)))
        if "agg" in r:
            ops = tuple(self.operand(p, o, fid) for o in r["ops"])
            k = r["agg"]
            if k == "tuple":
                return ("tup", ops)
            if k == "array":
                return ("vec", None, ops, ())
            if k == "adt":
                return ("adt", r["adt"], r["variant"], ops)
            if k == "closure":
                return ("clo", r["id"], ops)
            raise Unmodelled("aggregate " + k)
        if "tls" in r:
            raise Unmodelled("thread local")
        raise Unmodelled("rvalue %s" % list(r))

    def discr(self, p, v):
        if isinstance(v, tuple) and v[0] == "adt":
            a = self.prog.adts.get(v[1])
            if a:
                return int(a["variants"][v[2]]["discr"])
            if v[1] == "std::cmp::Ordering":
                return (255, 0, 1)[v[2]]
            return v[2]
        if isinstance(v, tuple) and v[0] == "rec":
            return self.discr(p, v[1])
        if isinstance(v, T):
            if v.op == "as":
                return self.discr(p, v.args[0])
            if v.op == "call" and str(v.args[0]).endswith("::from_raw") and len(v.args) == 2:
                # the conversion from the raw number: the value with that number (C05 decides that it is)
                x = v.args[1]
                if isinstance(x, tuple) and x[0] == "adt" and len(x) > 3 and len(x[3]) == 1 and is_int(x[3][0]):
                    return p.norm(x[3][0])
            return p.norm(mk("discr", (v,), "isize"))
        raise Unmodelled("discriminant of %s" % show(v))

    def binop(self, p, op, a, b, ty, checked):
        a, b = p.norm(a), p.norm(b)
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if is_int(a) and is_int(b):
                return cmp_int(op, a, b)
            if a == b and op == "Eq":
                return 1
            return mk("cmp" + op, (self.snap(p, a), self.snap(p, b)), "bool")
        if not (is_int(a) and is_int(b)):
            return mk("bin" + op, (self.snap(p, a), self.snap(p, b)), ty)
        if op == "Add":
            v = ladd(a, b)
        elif op == "Sub":
            v = lsub(a, b)
        elif op == "Mul":
            if isinstance(a, int) or isinstance(b, int):
                v = ladd(0, b, a) if isinstance(a, int) else ladd(0, a, b)
            else:
                return mk("mul", (a, b) if a.n <= b.n else (b, a), ty)
        elif op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "BitXor":
                    return a ^ b
                if op == "Shl":
                    r = a << b
                    if ty in INT_RANGE and INT_RANGE[ty][0] == 0:
                        r &= INT_RANGE[ty][1]
                    return r
                if op == "Shr":
                    return a >> b
                if op == "Div" and b:
                    return _tdiv(a, b)
                if op == "Rem" and b:
                    return a - b * _tdiv(a, b)
            if ty == "bool" and op in ("BitAnd", "BitOr"):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    if op == "BitAnd":
                        return a if b else 0
                    return 1 if b else a
            if op == "BitAnd" and isinstance(a, int):
                a, b = b, a
            if op == "BitAnd" and isinstance(b, int) and ty in INT_RANGE and INT_RANGE[ty][0] == 0 and 0 < b < INT_RANGE[ty][1]:
                low = INT_RANGE[ty][1] - b      # clearing the low k bits is dividing by 2^k and multiplying again
                if low & (low + 1) == 0:
                    k = low.bit_length()
                    return ladd(0, mk("shr", (a, k), ty), 1 << k)
            name = {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}[op]
            if op == "BitAnd" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                lo, hi = p.itv(a)
                if lo >= 0 and hi <= b:
                    return a
            return mk(name, (a, b), ty)
        else:
            raise Unmodelled("binary " + op)
        if not checked and ty in INT_RANGE:
            lo, hi = INT_RANGE[ty]
            x = p.itv(v) if isinstance(v, T) else (v, v)
            if x[0] < lo or x[1] > hi:
                if isinstance(v, int):
                    n = hi - lo + 1
                    return (v - lo) % n + lo
                return mk("wrap", (v, ty), ty)
        return v

    def cast(self, p, k, a, sty, dty):
        if k.startswith("IntToInt"):
            if isinstance(a, tuple) and a[0] == "adt":
                a = self.discr(p, a)
            if dty in INT_RANGE:
                lo, hi = INT_RANGE[dty]
                if isinstance(a, int):
                    return (a - lo) % (hi - lo + 1) + lo
                if isinstance(a, T):
                    x = p.itv(a)
                    if lo <= x[0] and x[1] <= hi:
                        return a
                    return mk("cast", (a, dty), dty)
            return mk("cast", (a, dty), dty)
        if k == "BoxDerefTransmute" and isinstance(a, tuple) and a[0] == "box":
            return ("ref", a[1], ())
        if k.startswith("PointerCoercion") or k.startswith("PtrToPtr"):
            return a
        if k.startswith("Transmute") or k.startswith("Subtype"):
            if isinstance(a, int) and dty in self.prog.adts:
                for i, v in enumerate(self.prog.adts[dty]["variants"]):
                    if int(v["discr"]) == a:
                        return ("adt", dty, i, ())
            if isinstance(a, T):
                if dty in INT_RANGE and (isinstance(a, int) and INT_RANGE[dty][0] <= a <= INT_RANGE[dty][1] or isinstance(a, T) and a.ty == dty):
                    return a
                return mk("transmute", (a,), dty)
            return a
        return mk("cast", (self.snap(p, a), dty), dty)

    # ---- exploration
    def start(self, fn, args, path=None):
        p = path.fork() if path is not None else Path()
        self.push(p, fn, args, None, None, None)
        return p

    def push(self, p, fn, args, dest, ret, post):
        self.fidc += 1
        fid = self.fidc
        p.frames.append(Frame(fid, fn, dest, ret, post))
        n = fn["nargs"]
        if fn.get("spread") is not None and len(args) != n:
            pass
        if len(args) != n:
            # rust-call ABI: (self, (a, b, ..))
            if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "tup":
                args = [args[0]] + list(args[1][1])
        if len(args) != n:
            raise Unmodelled("argument count of %s" % fn["def"])
        for i, a in enumerate(args):
            p.mem[(fid, i + 1)] = a
        self.inlined[fn["def"]] = self.inlined.get(fn["def"], 0) + 1
        return fid

    def run(self, fn, args, path=None):
        """All final partitions of a call."""
        p = self.start(fn, args, path)
        self.finals = []
        exits = self.explore([(p, 0)], None)
        assert not exits
        return self.finals

    def explore(self, work, boundary):
        """work: list of (path, block to enter in its top frame). Returns [(path, block)] leaving the boundary."""
        exits = []
        work = list(work)
        while work:
            p, b = work.pop()
            if len(self.finals) + len(work) > self.max_paths:
                raise Budget("too many paths")
            while True:
                fr = p.frames[-1]
                if boundary is not None and fr.fid == boundary[0]:
                    if b == boundary[1] and not boundary[3].get("first"):
                        exits.append((p, b, "back"))
                        break
                    if b not in boundary[2]:
                        exits.append((p, b, "exit"))
                        break
                    boundary[3]["first"] = False
                lp = loops_of(fr.fn)
                if b in lp and not self.unroll and (fr.fn["def"], b) not in self.flat \
                        and not (boundary is not None and fr.fid == boundary[0] and b == boundary[1]):
                    for q, nb in self.loop(p, b, lp[b]):
                        work.append((q, nb))
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("too many steps")
                nxt = self.block(p, fr, b)
                # nxt: list of (path, block) in the (possibly new) top frames, finished ones filtered out
                cont = []
                for q, nb in nxt:
                    if q.status is not None:
                        self.finals.append(q)
                    else:
                        cont.append((q, nb))
                if not cont:
                    break
                p, b = cont[0]
                work.extend(cont[1:])
        return exits

    def loop(self, p0, head, body):
        fr = p0.frames[-1]
        fid = fr.fid
        changed = {}       # (cell, leafpath) -> phi
        invs = {}          # phi -> set of candidate facts still alive
        apart = set()      # leaves that must not share a phi
        key = (fr.fn["def"], head)
        entry = p0.fork()
        # temporaries assigned in the body and not live at the head keep stale values: they are generalised too
        for rnd in range(12):
            p = entry.fork()
            for cell, leaves in changed.items():
                for leaf, phi in leaves.items():
                    self._set_leaf(p, cell, leaf, phi)
            alive = []
            for phi, cands in invs.items():
                for c in sorted(cands, key=lambda t: t.n):
                    if p.assume(c):
                        alive.append((phi, c))
            p.event("loop", key)
            headp = p.fork()
            saved = self.finals
            self.finals = []
            back, exits = [], []
            for q, b, kind in self.explore([(p, head)], (fid, head, body, {"first": True})):
                (back if kind == "back" else exits).append((q, b))
            inner_finals = self.finals
            self.finals = saved
            new = False
            fresh_leaves = []
            if self._split(changed, apart, [q for q, _ in back], fr, fid, head, invs):
                continue
            for q, _ in back:
                for cell in set(q.mem) | set(headp.mem):
                    if cell[0] != fid and isinstance(cell[0], int) and cell not in headp.mem:
                        continue
                    if cell not in headp.mem:
                        if cell[0] in ("deref",):
                            try:
                                hv = self.load_cell(headp, cell)
                            except Unmodelled:
                                continue
                        else:
                            continue
                    else:
                        hv = headp.mem[cell]
                    qv = q.mem.get(cell, hv)
                    if hv is qv or hv == qv:
                        continue
                    ty = fr.fn["locals"][cell[1]] if cell[0] == fid and isinstance(cell[1], int) else None
                    for leaf, v0, lty in self._diff(hv, qv, (), ty):
                        if leaf in changed.get(cell, {}):
                            continue
                        # drop deeper leaves covered by this one
                        m = changed.setdefault(cell, {})
                        for o in [o for o in m if o[:len(leaf)] == leaf]:
                            del m[o]
                        if any(leaf[:len(o)] == o for o in m):
                            continue
                        self.fidc += 1
                        name = "%s@%s:%s#%d" % (self._cellname(fr.fn, cell, fid), fr.fn["def"].split("::")[-1], head, self.fidc)
                        phi = self._phi(name, v0, lty)
                        m[leaf] = phi
                        if isinstance(phi, T) and (lty in INT_RANGE or isinstance(v0, int) or (isinstance(v0, T) and v0.ty in INT_RANGE) or (isinstance(v0, T) and v0.op == "lin")):
                            if is_int(v0):
                                invs[phi] = {c for c in (lez(lsub(v0, phi)), lez(lsub(phi, v0))) if isinstance(c, T)}
                        elif isinstance(phi, tuple) and phi[0] == "vec" and isinstance(phi[1], T):
                            n, n0 = mk("len", (phi[1],), "usize"), self.seqlen(headp, v0)
                            if is_int(n0):
                                invs[n] = {c for c in (lez(lsub(n0, n)), lez(lsub(n, n0))) if isinstance(c, T)}
                        new = True
                        fresh_leaves.append((cell, leaf, phi, v0))
            if new:
                self._merge(fresh_leaves, changed, apart, [q for q, _ in back], headp, invs)
                # hints: further candidate invariants over the head state
                for h in self.hints:
                    q = entry.fork()
                    for cell, leaves in changed.items():
                        for leaf, phi in leaves.items():
                            self._set_leaf(q, cell, leaf, phi)
                    for c in h(self, key, entry, q):
                        if isinstance(c, T):
                            invs.setdefault(("hint", c), set()).add(c)
                # entry must satisfy the hints
                for k2 in list(invs):
                    if isinstance(k2, tuple):
                        c = self._subst(k2[1], self._entry_map(entry, changed))
                        if entry.truth(c) != 1:
                            del invs[k2]
                continue
            # check the candidates are re-established
            bad = False
            for phi, c in alive:
                for q, _ in back:
                    c2 = self._subst(c, self._entry_map(q, changed))
                    if q.truth(c2) != 1:
                        invs[phi].discard(c)
                        bad = True
                        break
            if bad:
                continue
            self.finals.extend(inner_finals)
            self.loop_log.setdefault(key, []).append((headp, [q for q, _ in back], [q for q, _ in exits]))
            self.loop_entry[id(headp)] = entry
            self.loop_changed[id(headp)] = changed
            return exits
        raise Budget("loop at %s does not stabilise" % (key,))

    def _leafval(self, q, cell, leaf):
        try:
            return self._leaf_load(q.mem[cell] if cell in q.mem else self.load_cell(q, cell), leaf)
        except (Unmodelled, TypeError, IndexError, KeyError):
            return None

    def _eqv(self, q, a, b):
        if a is None or b is None:
            return False
        if is_int(a) and is_int(b):
            try:
                return q.norm(lsub(a, b)) == 0
            except Unmodelled:
                return False
        return False

    def _merge(self, leaves, changed, apart, backs, headp, invs):
        """Integer leaves that start equal and stay equal over one pass share one phi (undone by _split)."""
        reps = []
        if not self.merge:
            return
        for cell, leaf, phi, v0 in leaves:
            if not isinstance(phi, T) or not is_int(v0) or changed.get(cell, {}).get(leaf) is not phi or (cell, leaf) in apart:
                continue
            for c2, l2, phi2, w0 in reps:
                if phi.ty == phi2.ty and self._eqv(headp, v0, w0) and all(
                        self._eqv(q, self._leafval(q, cell, leaf), self._leafval(q, c2, l2)) for q in backs):
                    changed[cell][leaf] = phi2
                    invs.pop(phi, None)
                    break
            else:
                reps.append((cell, leaf, phi, v0))

    def _split(self, changed, apart, backs, fr, fid, head, invs):
        by = {}
        for cell, leaves in changed.items():
            for leaf, phi in leaves.items():
                if isinstance(phi, T):
                    by.setdefault(phi, []).append((cell, leaf))
        did = False
        for phi, ls in by.items():
            c0, l0 = ls[0]
            for cell, leaf in ls[1:]:
                if not all(self._eqv(q, self._leafval(q, cell, leaf), self._leafval(q, c0, l0)) for q in backs):
                    apart.add((cell, leaf))
                    self.fidc += 1
                    changed[cell][leaf] = mk("phi", ("%s@%s:%s#%d" % (self._cellname(fr.fn, cell, fid), fr.fn["def"].split("::")[-1], head, self.fidc),), phi.ty)
                    did = True
        return did

    def _cellname(self, fn, cell, fid):
        if cell[0] == fid:
            for v in fn["vars"]:
                if v[1][0] == cell[1] and not v[1][1]:
                    return v[0]
            return "_%s" % cell[1]
        return str(cell[0]) if not isinstance(cell[0], int) else "f%s_%s" % cell[:2]

    def _phi(self, name, v0, ty):
        if isinstance(v0, tuple) and v0[0] == "vec":
            et = None
            if isinstance(v0[1], T):
                et = v0[1].ty
            return ("vec", mk("phi", (name,), et or ty), (), ())
        if isinstance(v0, tuple) and v0[0] in ("str", "String", "bytes"):
            return (v0[0], mk("phi", (name,), "str"))
        if ty is None and isinstance(v0, T) and v0.op != "lin":
            ty = v0.ty
        if ty == "int":
            ty = None
        return lift(mk("phi", (name,), ty), ty)

    def _diff(self, a, b, leaf, ty):
        """Differing leaves of two values: yields (leaf path, value of a, type)."""
        if a is b or a == b:
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
            k = a[0]
            if k == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                info = self.prog.adts.get(a[1])
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    fty = None
                    if info and i < len(info["variants"][a[2]]["ftys"]):
                        fty = info["variants"][a[2]]["ftys"][i]
                    yield from self._diff(x, y, leaf + (("a", i),), fty)
                return
            if k == "tup" and len(a[1]) == len(b[1]):
                tys = split_top(ty[1:-1]) if ty and ty.startswith("(") else [None] * len(a[1])
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    yield from self._diff(x, y, leaf + (("t", i),), tys[i] if i < len(tys) else None)
                return
            if k == "it" and len(a) == len(b) and a[1] == b[1]:
                for i in range(2, len(a)):
                    yield from self._diff(a[i], b[i], leaf + (("n", i),), "usize" if is_int(a[i]) else None)
                return
        yield leaf, a, ty

    def _set_leaf(self, p, cell, leaf, v):
        old = p.mem.get(cell)
        if old is None and leaf:
            old = self.load_cell(p, cell)
        p.mem[cell] = self._leaf_store(old, leaf, v)

    def _leaf_store(self, old, leaf, v):
        if not leaf:
            return v
        k, i = leaf[0]
        if k == "a":
            fs = list(old[3])
            fs[i] = self._leaf_store(fs[i], leaf[1:], v)
            return ("adt", old[1], old[2], tuple(fs))
        if k == "t":
            fs = list(old[1])
            fs[i] = self._leaf_store(fs[i], leaf[1:], v)
            return ("tup", tuple(fs))
        fs = list(old)
        fs[i] = self._leaf_store(fs[i], leaf[1:], v)
        return tuple(fs)

    def _leaf_load(self, v, leaf):
        for k, i in leaf:
            if k == "a":
                v = v[3][i]
            elif k == "t":
                v = v[1][i]
            else:
                v = v[i]
        return v

    def _entry_map(self, q, changed):
        m = {}
        for cell, leaves in changed.items():
            for leaf, phi in leaves.items():
                try:
                    v = q.mem[cell] if cell in q.mem else self.load_cell(q, cell)
                    val = self._leaf_load(v, leaf)
                except (Unmodelled, TypeError, IndexError, KeyError):
                    continue
                if isinstance(phi, T):
                    m[phi] = val
                elif isinstance(phi, tuple) and phi[0] == "vec" and isinstance(phi[1], T):
                    m[mk("len", (phi[1],), "usize")] = self.seqlen(q, val)
                    m[phi[1]] = val
        return m

    def _subst(self, t, m):
        """t with terms replaced (one simultaneous pass)."""
        if isinstance(t, int):
            return t
        if isinstance(t, T):
            if t in m:
                return m[t]
            if t.op == "lin":
                r = t.args[0]
                for x, k in t.args[1]:
                    y = self._subst(x, m)
                    if not is_int(y):
                        return t
                    r = ladd(r, y, k)
                return r
            if t.op == "lez":
                return lez(self._subst(t.args[0], m))
            if t.op == "eqz":
                return eqz(self._subst(t.args[0], m))
            if t.op == "not":
                return lnot(self._subst(t.args[0], m))
            if t.op == "len":
                x = self._subst(t.args[0], m)
                if x is not t.args[0]:
                    if isinstance(x, tuple) and x and x[0] in ("vec",):
                        return self.seqlen(Path(), x)
                    if isinstance(x, T):
                        return mk("len", (x,), t.ty)
                return t
            if t.op in ("sym", "phi"):
                return t
            args = tuple(self._subst(a, m) for a in t.args)
            if args != t.args:
                if t.op == "slice":
                    return sslice(*args)
                return mk(t.op, args, t.ty)
            return t
        if isinstance(t, tuple):
            return tuple(self._subst(x, m) if isinstance(x, (tuple, T)) else x for x in t)
        return t

    # ---- one block
    def block(self, p, fr, b):
        fn, fid = fr.fn, fr.fid
        blk = fn["blocks"][b]
        if Engine.cover is not None:
            Engine.cover.add((fn["def"], b))
        try:
            for s in blk["s"]:
                if "p" in s:
                    pl = s["p"]
                    dty = fn["locals"][pl[0]] if not pl[1] else None
                    v = self.rvalue(p, s["r"], fid, fn, dty)
                    if not pl[1]:
                        p.mem[(fid, pl[0])] = v
                    else:
                        cell, path = self.addr(p, pl, fid)
                        self.write_at(p, cell, path, v)
                elif "sd" in s:
                    raise Unmodelled("set discriminant")
            return self.term(p, fr, blk["t"], b)
        except Unmodelled as e:
            p.status, p.why = "unmodelled", "%s in %s bb%d" % (e, fn["def"], b)
            return [(p, None)]

    def panic(self, p, fr, what, line):
        q = p.fork()
        q.status, q.why = "panic", (fr.fn["def"], what, line)
        return q

    def term(self, p, fr, t, b):
        k = t["k"]
        fn, fid = fr.fn, fr.fid
        if k in ("goto", "drop"):
            return [(p, t["to"])]
        if k == "switch":
            v = p.norm(self.operand(p, t["on"], fid))
            return self.switch(p, v, [(int(x), y) for x, y in t["br"]], t["else"])
        if k == "return":
            ret = p.mem.get((fid, 0), UNIT)
            p.frames.pop()
            p.mem = {c: x for c, x in p.mem.items() if c[0] != fid}
            if fr.post is not None:
                return fr.post(p, ret)
            if not p.frames:
                p.ret, p.status = ret, "return"
                return [(p, None)]
            self.write_dest(p, fr.dest, ret)
            return [(p, fr.ret)]
        if k == "unreachable":
            p.status, p.why = "unreachable", (fn["def"], b)
            # infeasible by construction of the match
            return []
        if k == "assert":
            c = p.norm(self.operand(p, t["cond"], fid))
            exp = 1 if t["exp"] else 0
            out = []
            r = p.truth(c) if not isinstance(c, int) else c
            if r is None and isinstance(c, T) and c.op == "or":
                parts = [p.truth(x) for x in c.args]
                r = 1 if 1 in parts else (0 if parts == [0, 0] else None)
            if r is None:
                if self.panics:
                    q = p.fork()
                    ok = True
                    if not (isinstance(c, T) and c.op == "or"):
                        ok = q.assume(c, 1 - exp)
                    if ok:
                        out.append((self.panic(q, fr, t["msg"]["m"] + ":" + t["msg"].get("op", ""), t["l"]), None))
                if isinstance(c, T) and c.op == "or":
                    if exp == 0:
                        okc = all(p.assume(x, 0) for x in c.args)
                    else:
                        okc = True
                else:
                    okc = p.assume(c, exp)
                if okc:
                    out.append((p, t["to"]))
                return out
            if r == exp:
                return [(p, t["to"])]
            return [(self.panic(p, fr, t["msg"]["m"] + ":" + t["msg"].get("op", ""), t["l"]), None)]
        if k == "call":
            return self.call(p, fr, t)
        if k in ("resume", "abort"):
            return []
        raise Unmodelled("terminator " + k)

    def write_dest(self, p, dest, v):
        if dest is None:
            return
        fid, pl = dest
        if not pl[1]:
            p.mem[(fid, pl[0])] = v
        else:
            cell, path = self.addr(p, pl, fid)
            self.write_at(p, cell, path, v)

    def switch(self, p, v, br, other):
        if isinstance(v, int):
            for x, y in br:
                if x == v or (v < 0 and x == v + (1 << 128)) or (v < 0 and x >= 1 << 7 and any(x == v + (1 << w) for w in (8, 16, 32, 64, 128))):
                    return [(p, y)]
            return [(p, other)]
        if not isinstance(v, T):
            raise Unmodelled("switch on %s" % show(v))
        out = []
        if v.ty == "bool" and len(br) == 1:
            x, y = br[0]
            q = p.fork()
            if q.assume(v, x):
                out.append((q, y))
            if p.assume(v, 1 - x):
                out.append((p, other))
            return out
        for x, y in br:
            if x >= 1 << 127:
                x -= 1 << 128
            else:
                lo, hi = p.itv(v)
                if lo < 0:
                    for w in (8, 16, 32, 64):
                        ty = v.ty
                        if ty in INT_RANGE and INT_RANGE[ty] == (-(1 << (w - 1)), (1 << (w - 1)) - 1) and x >= 1 << (w - 1):
                            x -= 1 << w
            q = p.fork()
            if q.assume(eqz(lsub(v, x))):
                out.append((q, y))
            if not p.assume(eqz(lsub(v, x)), 0):
                return out
        rest = self.remaining(p, v, [x for x, _ in br])
        if rest is not None:
            if not rest:
                return out
            if len(rest) == 1 and not p.assume(eqz(lsub(v, rest[0]))):
                return out
        out.append((p, other))
        return out

    def remaining(self, p, v, seen):
        """Discriminants a value of a known enumeration can still have (None: not known)."""
        if v.op != "discr" or not isinstance(v.args[0], T) or not v.args[0].ty:
            return None
        name = re.sub(r"<.*$", "", v.args[0].ty)
        if name in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
            all_ = [0, 1]
        else:
            a = self.prog.adts.get(name)
            if not a or a.get("kind", "enum") != "enum":
                return None
            all_ = [int(x["discr"]) for x in a["variants"]]
        rest = [x for x in all_ if x not in seen]
        if len(rest) > 3:
            return None
        return [x for x in rest if p.truth(eqz(lsub(v, x))) != 0]

    # ---- calls
    def call(self, p, fr, t):
        f = t["f"]
        fid = fr.fid
        args = [self.operand(p, a, fid) for a in t["args"]]
        dest = (fid, t["dest"])
        dty = fr.fn["locals"][t["dest"][0]] if not t["dest"][1] else None
        cid = f.get("id")
        ctx = CallCtx(self, fr, t, dest, dty, f)
        if cid is None:
            if f["def"] == "<indirect>" or f["def"] == "<const>":
                fv = self.operand(p, f["op"], fid)
                return self.apply(p, fv, args, ctx.finish)
            name = f["def"]
        else:
            name = f["res"]
        return self.invoke(p, cid, name, args, ctx)

    def invoke(self, p, cid, name, args, ctx):
        fr = ctx.fr
        if len(args) == 2 and str(ctx.f.get("def", "")).startswith("std::ops::Fn") and ctx.f["def"].rsplit("::", 1)[-1] in ("call", "call_mut", "call_once"):
            v = args[1]
            v = self.read(p, v) if isinstance(v, tuple) and v and v[0] == "ref" else v
            if isinstance(v, tuple) and v and v[0] == "tup":
                fv = args[0]
                k = 0
                while isinstance(fv, tuple) and fv and fv[0] in ("ref", "&") and k < 4:
                    fv, k = (self.read(p, fv) if fv[0] == "ref" else fv[1]), k + 1
                if isinstance(fv, tuple) and fv and fv[0] in ("clo", "fn"):
                    return self.apply(p, args[0] if k == 1 and args[0][0] == "ref" else fv, list(v[1]), ctx.finish)
        m = self.models.get(name)
        if m is None and ctx.f.get("inst"):
            m = self.models.get(ctx.f["inst"])
        if m is not None:
            r = m(self, p, args, ctx)
            if r is not NotImplemented:
                return r
        fn = self.prog.fns.get(cid)
        if fn is not None and fn["def"] not in self.opaque and not any(x.fn is fn for x in p.frames):
            if fn["krate"] == self.prog.crate or "closure" in fn["def"]:
                self.push(p, fn, args, ctx.dest, ctx.t["to"], None)
                return [(p, 0)]
        inst = ctx.f.get("inst") or name
        for rx, m in self.model_patterns:
            if rx.search(inst) or rx.search(name):
                r = m(self, p, args, ctx)
                if r is not NotImplemented:
                    return r
        return self.opaque_call(p, name, args, ctx)

    def opaque_call(self, p, name, args, ctx):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if Engine.outside is not None:
            Engine.outside.add(name)
        sn = tuple(self.snap(p, a) for a in args)
        mut = False
        for a, o in zip(args, ctx.t["args"]):
            ty = self.otype(o, ctx.fr.fn)
            if ty and ty.startswith("&mut ") or self._holds_mut(ty):
                mut = True
                try:
                    if isinstance(a, tuple) and a[0] == "ref" or isinstance(a, T):
                        inner = strip_ref(ty)
                        self.write(p, a, lift(self.fresh(p, "mut:" + name.split("::")[-1], inner), inner))
                except Unmodelled:
                    pass
        if ctx.t["to"] is None:
            p.event("call", name, sn)
            return [(self.panic(p, ctx.fr, "call " + name, ctx.t.get("l")), None)]
        if mut:
            v = lift(self.fresh(p, name.split("::")[-1], ctx.dty), ctx.dty)
        else:
            v = lift(mk("call", (name,) + sn, ctx.dty), ctx.dty)
        p.event("call", name, sn, v)
        return ctx.finish(p, v)

    def _holds_mut(self, ty):
        return False

    def apply(self, p, fv, args, post):
        """Calls a closure or function value; post(p, ret) continues."""
        if isinstance(fv, tuple) and fv[0] == "ref":
            fv0 = self.read(p, fv)
            if isinstance(fv0, tuple) and fv0[0] in ("clo", "fn"):
                fv = fv0
        if isinstance(fv, tuple) and fv[0] == "clo":
            fn = self.prog.fns.get(fv[1])
            if fn is None:
                raise Unmodelled("closure body")
            if any(x.fn is fn for x in p.frames):
                raise Unmodelled("recursive closure")
            env = fv
            if fn["locals"][1].startswith("&"):
                self.fidc += 1
                cell = ("env", self.fidc)
                p.mem[cell] = fv
                env = ("ref", cell, ())
            n = fn["nargs"]
            a = list(args)
            self.push(p, fn, [env] + a, None, None, post)
            return [(p, 0)]
        if isinstance(fv, tuple) and fv[0] == "fn":
            fn = self.prog.fns.get(fv[1])
            if fn is not None:
                self.push(p, fn, list(args), None, None, post)
                return [(p, 0)]
            # constructor or foreign function used as a value
            path = str(fv[2]).split("::")
            ads = [(n, a) for n, a in self.prog.adts.items() if n.endswith("::".join(path[-3:-1]))] if len(path) > 2 else []
            for n, ad in ads if len(ads) == 1 else ():
                for k, v in enumerate(ad["variants"]):
                    if v["name"] == path[-1] and len(v["fields"]) == len(args):
                        return post(p, ("adt", n, k, tuple(args)))
            raise Unmodelled("function value %s" % (fv[2],))
        raise Unmodelled("call of %s" % show(fv))


class CallCtx:
    __slots__ = ("eng", "fr", "t", "dest", "dty", "f")

    def __init__(self, eng, fr, t, dest, dty, f):
        self.eng, self.fr, self.t, self.dest, self.dty, self.f = eng, fr, t, dest, dty, f

    def finish(self, p, v):
        self.eng.write_dest(p, self.dest, v)
        if self.t["to"] is None:
            return [(self.eng.panic(p, self.fr, "diverge", self.t.get("l")), None)]
        return [(p, self.t["to"])]

    def panic(self, p, what):
        return (self.eng.panic(p, self.fr, what, self.t.get("l")), None)

    def split(self, p, cond, then, other):
        """Partition on a boolean; `then`/`other` are functions path -> continuation list."""
        r = p.truth(cond)
        if r == 1:
            return then(p)
        if r == 0:
            return other(p)
        q = p.fork()
        out = []
        if q.assume(cond, 1):
            out += then(q)
        if p.assume(cond, 0):
            out += other(p)
        return out
