"""The compiler from regular expressions to automata (crates/automata), decided on the summaries of its functions.

`build_nfa_from_regex_node` is summarised once: per variant of the syntax tree the states it makes, the edges it draws, the
sub-expressions it delegates to, and per loop the transfer of one pass.  The summary of each operator is then instantiated
for small operands (loops are uniform in their counter) into the transition graph it describes, and the language of that graph
is compared with the language the operator denotes.  Two structural facts carry that to operands of any size: an operator draws
no edge into its own start state and none out of its own accepting state, so a fragment can stand wherever a letter can."""
import itertools
import multiprocessing
from .dump import where
from .driver import loops_of
from .eng import Arr, Budget, Engine, Path, T, Unmodelled, eqz, lift, lsub, mk, show
from .onepass import args_of
from .panics import Cannot, Ground

UNIT = ("tup", ())
EPS = "eps"


class Node:
    """An instance of the syntax tree."""

    def __init__(self, name, *fields):
        self.name, self.fields = name, list(fields)

    def __repr__(self):
        f = self.fields
        if self.name == "Char":
            return chr(f[0]) if 32 < f[0] < 127 else "\\x%02x" % f[0]
        if self.name in ("AnyOf", "NoneOf"):
            return "[%s%s]" % ("^" if self.name == "NoneOf" else "", "".join(chr(x) if 32 < x < 127 else "\\x%02x" % x for x in f[0]))
        if self.name == "Concatenation":
            return "(%s)" % "".join(map(repr, f[0]))
        if self.name == "Alternative":
            return "(%s)" % "|".join(map(repr, f[0]))
        if self.name == "ZeroOrMore":
            return "(%r)*" % f[0]
        if self.name == "OneOrMore":
            return "(%r)+" % f[0]
        if self.name == "Repeat":
            return "(%r){%d,%d}" % (f[0], f[1], f[2])
        return "{%s}" % f[0]


class Wrong(Exception):
    pass


class Infeasible(Exception):
    pass


class Sim(Ground):
    """A summary applied to given operands."""

    def __init__(self, eng, env, adt_names=None):
        self.eng, self.env = eng, env
        self.s = self.i = self.n = None
        self.loops = {}
        for l in loops_of(eng):
            self.loops.setdefault(l.key, []).append(l)
        self.adts = adt_names or {}
        self.steps = 0
        self.used = {}

    # ------------------------------------------------------------ values
    def val(self, t):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            return t
        if isinstance(t, T) and t in self.env:
            return self.env[t]
        if isinstance(t, tuple) and t:
            h = t[0]
            if h == "&" or h == "ptr":
                return self.val(t[1])
            if h == "adt":
                return self.adt(t)
            if h == "tup":
                return tuple(self.val(x) for x in t[1])
            if h == "s":
                return t[1].encode()
            if h in ("String", "str", "bytes"):
                return self.val(t[1])
            raise Cannot(str(t)[:60])
        if not isinstance(t, T):
            raise Cannot(repr(t)[:40])
        a = t.args
        if t.op == "deref":
            return self.val(a[0])
        if t.op == "cast":
            return self.val(a[0])
        if t.op in ("cmpEq", "binBitAnd") and any(isinstance(x, tuple) and x and x[0] == "&" for x in a[:1]):
            return 0               # the alignment and null checks of a fresh box
        if t.op == "transmute":
            v = self.val(a[0])
            if isinstance(v, Node):
                return 4096
            raise Cannot(show(t)[:60])
        if t.op == "as":
            v = self.val(a[0])
            if isinstance(v, Node):
                k = a[1]
                if self.variants[k] != v.name:
                    raise Cannot("as")
                return ("of", v)
            raise Cannot(show(t)[:60])
        if t.op == "fld":
            v = self.val(a[0])
            if isinstance(v, tuple) and v and v[0] == "of":
                return v[1].fields[a[1]]
            if isinstance(v, Node) and a[1] == 0:
                return v           # Box -> Unique -> NonNull -> the node itself
            if isinstance(v, (tuple, list)) and isinstance(a[1], int) and a[1] < len(v):
                return v[a[1]]
            raise Cannot(show(t)[:60])
        if t.op == "discr":
            v = self.val(a[0])
            if isinstance(v, Node):
                return self.variants.index(v.name)
            raise Cannot(show(t)[:60])
        if t.op == "elem":
            s, k = self.val(a[0]), self.val(a[1])
            if not isinstance(s, (list, bytes)) or not 0 <= k < len(s):
                raise Cannot("elem")
            return s[k]
        if t.op in ("mapget", "maphas"):
            m, k = self.val(a[0]), self.val(a[1])
            if t.op == "maphas":
                return int(k in m)
            if k not in m:
                raise Cannot("mapget")
            return m[k]
        if t.op == "call" and isinstance(a[0], str):
            if a[0].endswith("::contains") and len(a) == 3:
                return int(self.val(a[2]) in self.val(a[1]))
            if a[0].endswith("::clone"):
                return self.val(a[1])
        return super().val(t)

    def adt(self, t):
        raise Cannot(str(t)[:60])

    # ------------------------------------------------------------ paths
    def record(self, q, i):
        """The loop that event i of q runs."""
        key = q.events[i][1]
        out = []
        for l in self.loops.get(key, ()):
            ep = l.entry_path
            if tuple(ep.events) in (tuple(q.events[:i]), tuple(q.events[:i + 1])) and all(q.facts.get(b) == v for b, v in ep.facts.items()):
                out.append(l)
        if len(out) > 1:                   # several partitions enter the loop: the one whose counters this path goes on with
            used = self.terms(q)
            out = [l for l in out if any(k in used for k in l.entry)] or out
        if len(out) > 1:
            most = max(len(l.entry_path.facts) for l in out)
            out = [l for l in out if len(l.entry_path.facts) == most]
        if len(out) != 1:
            raise Cannot("loop of a path")
        return out[0]

    def terms(self, q):
        """Every symbol the facts of a path mention."""
        if id(q) not in self.used:
            out, st = set(), [k for m in (q.facts, q.eqs, q.ne, q.iv, q.strs, q.lins) for k in m] + [q.ret]
            while st:
                x = st.pop()
                if isinstance(x, T):
                    if x in out:
                        continue
                    out.add(x)
                    st.extend(x.args)
                elif isinstance(x, (tuple, list)):
                    st.extend(x)
            self.used[id(q)] = out
        return self.used[id(q)]

    def apply(self, q, start):
        """Runs the events of q from index start."""
        for i in range(start, len(q.events)):
            ev = q.events[i]
            if ev[0] == "loop":
                self.loop(self.record(q, i))
            else:
                self.event(ev)
            if ev[0] in ("loop", "sub") and not self.maybe(q):
                raise Infeasible

    def event(self, ev):
        raise Cannot(ev[0])

    def mark(self):
        return None

    def reset(self, m):
        pass

    def maybe(self, q):
        try:
            return self.holds(q)
        except Cannot:
            return True

    def choose(self, qs, starts):
        """Takes the one path among qs that is possible here."""
        got, unk = None, None
        base, m = dict(self.env), self.mark()
        for q, st in zip(qs, starts):
            self.env = dict(base)
            self.reset(m)
            if not self.maybe(q):
                continue
            try:
                self.apply(q, st)
                ok = self.holds(q)
            except Infeasible:
                continue
            except Cannot as e:
                unk = e
                continue
            if ok:
                if got is not None:
                    raise Cannot("two paths are possible")
                got = (q, self.env, self.mark())
        if got is None:
            self.env = base
            self.reset(m)
            if unk is not None:
                raise unk
            return None
        if unk is not None:
            raise unk
        if got[0].status == "unmodelled":
            raise Cannot(str(got[0].why))
        self.env = got[1]
        self.reset(got[2])
        return got[0]

    def loop(self, l):
        base = dict(self.env)
        cur = {k: self.val(v) for k, v in l.entry.items()}
        for _ in range(600):
            self.env = dict(base)
            self.env.update(cur)
            starts = []
            for b in l.backs:
                k = max((i for i, e in enumerate(b.events) if e[0] == "loop" and e[1] == l.key), default=-1)
                starts.append(k + 1)
            q = self.choose(l.backs, starts)
            if q is None:
                self.env = dict(base)
                self.env.update(cur)
                return
            nx = l.next(q)
            cur = {k: self.val(nx[k]) if k in nx else cur[k] for k in cur}
        raise Cannot("a loop that does not end")


# ---------------------------------------------------------------- languages
class Graph:
    def __init__(self):
        self.n = 0
        self.edges = []          # (from, label, to)

    def new(self):
        self.n += 1
        return self.n - 1


def reference(node, defs, g, s, e):
    """The language a node denotes, drawn with a construction of our own."""
    f = node.fields
    if node.name == "Char":
        g.edges.append((s, f[0], e))
    elif node.name == "AnyOf":
        g.edges.extend((s, b, e) for b in set(f[0]))
    elif node.name == "NoneOf":
        g.edges.extend((s, b, e) for b in range(1, 256) if b not in f[0])
    elif node.name == "Alternative":
        for x in f[0]:
            sub(x, defs, g, s, e)
    elif node.name == "Concatenation":
        cur = s
        for x in f[0]:
            nx = g.new()
            sub(x, defs, g, cur, nx)
            cur = nx
        g.edges.append((cur, EPS, e))
    elif node.name == "ZeroOrMore":
        m = g.new()
        g.edges += [(s, EPS, m), (m, EPS, e)]
        sub(f[0], defs, g, m, m)
    elif node.name == "OneOrMore":
        m = g.new()
        sub(f[0], defs, g, s, m)
        sub(f[0], defs, g, m, m)
        g.edges.append((m, EPS, e))
    elif node.name == "Repeat":
        cur = s
        for i in range(f[2]):
            if i >= f[1]:
                g.edges.append((cur, EPS, e))
            nx = g.new()
            sub(f[0], defs, g, cur, nx)
            cur = nx
        g.edges.append((cur, EPS, e))
    elif node.name == "Reference":
        sub(defs[f[0]], defs, g, s, e)
    else:
        raise Cannot(node.name)


def sub(x, defs, g, s, e):
    a, b = g.new(), g.new()
    g.edges.append((s, EPS, a))
    reference(x, defs, g, a, b)
    g.edges.append((b, EPS, e))


def closure(adj, ss):
    out, todo = set(ss), list(ss)
    while todo:
        x = todo.pop()
        for y in adj.get((x, EPS), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return frozenset(out)


def differ(g1, s1, e1, g2, s2, e2):
    """A shortest string in one language and not in the other, or None."""
    def adj(g):
        d = {}
        for a, l, b in g.edges:
            d.setdefault((a, l), []).append(b)
        return d
    a1, a2 = adj(g1), adj(g2)
    letters = sorted({l for g in (g1, g2) for _, l, _ in g.edges if l != EPS})
    p = (closure(a1, [s1]), closure(a2, [s2]))
    seen, todo = {p: b""}, [p]
    while todo:
        nxt = []
        for x, y in todo:
            w = seen[(x, y)]
            if (e1 in x) != (e2 in y):
                return w, e1 in x
            for l in letters:
                q = (closure(a1, [b for s in x for b in a1.get((s, l), ())]), closure(a2, [b for s in y for b in a2.get((s, l), ())]))
                if (q[0] or q[1]) and q not in seen:
                    seen[q] = w + bytes([l])
                    nxt.append(q)
        todo = nxt
    return None


# ---------------------------------------------------------------- Thompson's construction
class Adt:
    """A value of an Option or a Result."""

    def __init__(self, k, *f):
        self.k, self.f = k, f

    def __eq__(self, o):
        return isinstance(o, Adt) and (self.k, self.f) == (o.k, o.f)

    __hash__ = None


class State:
    """A parser state: its fields by name."""

    def __init__(self, names, **f):
        self.names, self.f = names, f

    def get(self, k):
        return self.f[self.names[k]]

    def put(self, k, v):
        f = dict(self.f)
        f[self.names[k]] = v
        return State(self.names, **f)


IDENT = ("::into", "Box::<T>::new", "::clone", "::to_vec", "::to_string", "::from", "::to_owned", "::as_ref", "::deref", "::borrow", "::as_slice",
         "::iter", "::into_iter", "::cloned", "::copied", "::by_ref", "::as_bytes", "::into_bytes", "::as_mut", "::as_str", "::into_boxed_slice")


class Values(Sim):
    """Sequences, options, records and the library calls the compiler makes on them."""
    names = ()

    def clo(self, c, args):
        raise Cannot("closure")

    memo = None

    def holds(self, q):
        self.memo = {}
        try:
            return Sim.holds(self, q)
        finally:
            self.memo = None

    def val(self, t):
        if self.memo is None or not isinstance(t, T):
            return self.value(t)
        try:
            return self.memo[t]
        except KeyError:
            v = self.memo[t] = self.value(t)
            return v

    def seq(self, t):
        """The elements an iterator or sequence still has."""
        if isinstance(t, tuple) and t and t[0] == "&":
            return self.seq(t[1])
        if isinstance(t, tuple) and t and t[0] == "it":
            if t[1] in ("ref", "val"):
                s = self.val(t[2])
                return list(s)[self.val(t[3]):]
            if t[1] == "map":
                return [self.clo(t[3], [x]) for x in self.seq(t[2])]
            if t[1] in ("cloned", "copied"):
                return self.seq(t[2])
            if t[1] == "filter":
                return [x for x in self.seq(t[2]) if self.clo(t[3], [x])]
            if t[1] == "rev":
                return self.seq(t[2])[::-1]
            raise Cannot("it " + str(t[1]))
        if isinstance(t, tuple) and t and t[0] == "adt" and t[1].endswith(("ops::Range", "ops::RangeInclusive")):
            return list(range(self.val(t[3][0]), self.val(t[3][1]) + int(t[1].endswith("Inclusive"))))
        if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], str):
            n = t.args[0].rsplit("::", 1)[-1]
            if n == "flat_map":
                return [y for x in self.seq(t.args[1]) for y in self.clo(t.args[2], [x])]
            if n in ("copied", "cloned", "iter", "into_iter", "by_ref", "drain") and len(t.args) == 2:
                return self.seq(t.args[1])
            if n == "map" and len(t.args) == 3:
                return [self.clo(t.args[2], [x]) for x in self.seq(t.args[1])]
            if n == "filter" and len(t.args) == 3:
                return [x for x in self.seq(t.args[1]) if self.clo(t.args[2], [x])]
            if n == "filter_map" and len(t.args) == 3:
                return [x.f[0] for x in (self.clo(t.args[2], [y]) for y in self.seq(t.args[1])) if x.k == 1]
            if n == "chain" and len(t.args) == 3:
                return self.seq(t.args[1]) + self.seq(t.args[2])
            if n == "rev" and len(t.args) == 2:
                return self.seq(t.args[1])[::-1]
            if n in ("take", "skip") and len(t.args) == 3:
                k, v = self.val(t.args[2]), self.seq(t.args[1])
                return v[:k] if n == "take" else v[k:]
            if n == "enumerate" and len(t.args) == 2:
                return [(i, x) for i, x in enumerate(self.seq(t.args[1]))]
        v = self.val(t)
        if isinstance(v, (list, bytes)):
            return list(v)
        raise Cannot("sequence")

    def value(self, t):
        if isinstance(t, Arr):
            return list(t.v)
        if isinstance(t, tuple) and t:
            h = t[0]
            if h == "vec":
                base = list(self.val(t[1])) if t[1] is not None else []
                base += [self.val(x) for x in t[2]]
                for k, path, v in t[3]:
                    k = self.val(k)
                    if path or not 0 <= k < len(base):
                        raise Cannot("vec")
                    base[k] = self.val(v)
                return base
            if h == "sub":
                s, lo, hi = self.val(t[1]), self.val(t[2]), self.val(t[3])
                if not 0 <= lo <= hi <= len(s):
                    raise Cannot("sub")
                return s[lo:hi]
            if h == "rec":
                st = self.val(t[1])
                if isinstance(st, State) and t[2] is None:
                    for k, v in t[3]:
                        st = st.put(k, self.val(v))
                    return st
                raise Cannot("rec")
            if h == "adt" and (t[1].endswith("Option") or t[1].endswith("Result")):
                return Adt(t[2], *[self.val(x) for x in t[3]])
            if h == "adt" and t[1].endswith("RegexpNode"):
                return Node(self.variants[t[2]], *[self.val(x) for x in t[3]])
            if h == "it":
                return self.seq(t)
            if h == "clo":
                return t
        if isinstance(t, T) and t not in self.env:
            a = t.args
            if t.op == "extended":
                return list(self.val(a[0])) + self.seq(a[1])
            if t.op == "popped":
                s = self.val(a[0])
                if not s:
                    raise Cannot("popped")
                return s[:-1]
            if t.op == "fld":
                v = self.val(a[0])
                if isinstance(v, State):
                    return v.get(a[1])
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "of" and isinstance(v[1], Adt):
                    return v[1].f[a[1]]
            if t.op == "discr":
                v = self.val(a[0])
                if isinstance(v, Adt):
                    return v.k
            if t.op == "as":
                v = self.val(a[0])
                if isinstance(v, Adt):
                    if v.k != a[1]:
                        raise Cannot("as")
                    return ("of", v)
            if t.op in ("it_all", "it_any"):
                f = all if t.op == "it_all" else any
                c = a[1] if isinstance(a[1], tuple) and a[1] and a[1][0] == "clo" else ("clo",) + tuple(a[1])
                return int(f(self.clo(c, [x]) for x in self.seq(a[0])))
            if t.op in ("parses", "parsed"):
                v = self.val(a[0])
                r = self.parse(bytes(v), a[1], a[2])
                if t.op == "parses":
                    return int(r is not None)
                if r is None:
                    raise Cannot("parsed")
                return r
            if t.op == "wrap" or t.op == "trunc":
                return self.val(a[0])
            if t.op == "call" and isinstance(a[0], str):
                return self.call(a[0], a[1:], t)
        return Sim.val(self, t)

    def collected(self, t, s):
        ty = str(getattr(t, "ty", "") or "")
        if "Map<" in ty.split("<")[0] + "<":
            return dict(s)
        if "Set<" in ty.split("<")[0] + "<":
            try:
                s = list(dict.fromkeys(s))
                return sorted(s) if "BTree" in ty else s
            except TypeError:
                raise Cannot("a set")
        return s

    def call(self, name, a, t=None):
        last = name.rsplit("::", 1)[-1]
        if last == "to_digit" and len(a) == 2:
            c, k = self.val(a[0]), self.val(a[1])
            d = int(chr(c), 36) if c < 128 and chr(c).isalnum() else 36
            return Adt(1, d) if d < k else Adt(0)
        if last == "from_utf8":
            v = bytes(self.val(a[0]))
            try:
                v.decode()
            except UnicodeDecodeError:
                return Adt(1, ("err",))
            return Adt(0, v)
        if last == "starts_with" and len(a) == 2:
            s, k = list(self.val(a[0])), list(self.val(a[1]))
            return int(s[:len(k)] == k)
        if last == "ends_with" and len(a) == 2:
            s, k = list(self.val(a[0])), list(self.val(a[1]))
            return int(s[len(s) - len(k):] == k)
        if last == "collect":
            return self.collected(t, self.seq(a[0]))
        if last == "flat_map":
            return [y for x in self.seq(a[0]) for y in self.clo(a[1], [x])]
        if last == "contains" and len(a) == 2:
            return int(self.val(a[1]) in self.val(a[0]))
        if last in ("to_ascii_lowercase", "to_ascii_uppercase") and len(a) == 1:
            v = self.val(a[0])
            f = bytes.lower if last == "to_ascii_lowercase" else bytes.upper
            return f(bytes([v]))[0] if isinstance(v, int) else f(bytes(v))
        if last == "is_empty" and len(a) == 1:
            return int(not self.val(a[0]))
        if last == "to_string" and len(a) == 1 or any(name.endswith(x) for x in IDENT):
            return self.val(a[0])
        raise Cannot(name)

    def event(self, ev):
        if ev[0] in ("next", "push", "panic"):
            return
        if ev[0] == "call":
            name, args, res = ev[1], ev[2], ev[3]
            last = name.rsplit("::", 1)[-1]
            if isinstance(res, T) and res.op == "sym":
                if last == "position":
                    s = self.seq(args[0])
                    k = next((i for i, x in enumerate(s) if self.clo(args[1], [x])), None)
                    self.env[res] = Adt(0) if k is None else Adt(1, k)
                    return
                raise Cannot(name)
            return             # a pure call: its value is computed where it is used
        raise Cannot(ev[0])


class Shut(Values):
    """The body of a closure that has no effect."""

    def __init__(self, e, formals, vals):
        Sim.__init__(self, e, {})
        for t, v in zip(formals, vals):
            while isinstance(t, tuple) and t[0] in ("&", "ref"):
                t = t[1]
            self.env[t] = v

    def value(self, t):
        if isinstance(t, T) and t not in self.env and t.op == "fld":
            v = self.val(t.args[0])
            if isinstance(v, list):
                return v[t.args[1]]
        return Values.value(self, t)


class Build(Values):
    def __init__(self, tc, node, s, e, g, defs):
        self.tc = tc
        self.variants = tc.variants
        env = {}
        Sim.__init__(self, tc.eng, env)
        a = tc.args
        for t, v in zip(a, (("nfa",), (s, e), node, defs)):
            if isinstance(t, tuple) and t[0] == "&":
                t = t[1]
            env[t] = v
        self.g, self.defs, self.jobs, self.own = g, defs, [], []

    def mark(self):
        return (self.g.n, list(self.g.edges), list(self.jobs), list(self.own))

    def reset(self, m):
        self.g.n, self.g.edges, self.jobs, self.own = m[0], list(m[1]), list(m[2]), list(m[3])

    def adt(self, t):
        if t[1].endswith("NFAFragment"):
            return tuple(self.val(x) for x in t[3])
        if t[1].endswith("Transition"):
            name = self.tc.transitions[t[2]]
            return EPS if name == "Epsilon" else self.val(t[3][0])
        return Values.adt(self, t)

    def clo(self, c, args):
        if c[0] != "clo" or c[1] not in self.tc.prog.fns:
            raise Cannot("closure")
        fn = self.tc.prog.fns[c[1]]
        if c[1] not in self.tc.clos:
            e = Engine(self.tc.prog, panics=False)
            a = args_of(fn)
            self.tc.clos[c[1]] = e, a, e.run(fn, a, Path())
        e, a, paths = self.tc.clos[c[1]]
        r = Shut(e, a, [[self.val(x) for x in c[2]]] + list(args))
        q = r.choose(paths, [0] * len(paths))
        if q is None or q.status != "return":
            raise Cannot("closure")
        return r.val(q.ret)

    def event(self, ev):
        if ev[0] == "new":
            self.env[ev[1]] = self.g.new()
        elif ev[0] == "edge":
            a, b, l = (self.val(x) for x in ev[1:4])
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Cannot("edge")
            self.g.edges.append((a, l, b))
            self.own.append((a, l, b))
        elif ev[0] == "sub":
            fr, node = self.val(ev[1]), self.val(ev[2])
            if not isinstance(node, Node):
                raise Cannot("sub")
            self.jobs.append((fr, node))
        elif ev[0] == "for_each":
            for x in self.seq(ev[1]):
                self.inside(ev[2], [x])
        elif ev[0] == "call" and ev[1].rsplit("::", 1)[-1] in ("for_each", "fold"):
            acc = self.val(ev[2][1]) if ev[1].endswith("fold") else None
            for x in self.seq(ev[2][0]):
                acc = self.inside(ev[2][-1], [x] if acc is None else [acc, x])
                acc = None if ev[1].endswith("for_each") else acc
            if isinstance(ev[3], T):
                self.env[ev[3]] = acc
        else:
            Values.event(self, ev)

    def inside(self, c, args):
        """Runs a closure with its effects on the graph."""
        fn = self.tc.prog.fns.get(c[1]) if c[0] == "clo" else None
        if fn is None:
            raise Cannot("closure")
        if (c[1], "effects") not in self.tc.clos:
            e = Engine(self.tc.prog, panics=False, models=self.tc.models)
            a = args_of(fn)
            self.tc.clos[(c[1], "effects")] = e, a, e.run(fn, a, Path())
        e, a, paths = self.tc.clos[(c[1], "effects")]
        b = Body(self.tc, e, a, [[self.val(x) for x in c[2]]] + list(args), self)
        q = b.choose(paths, [0] * len(paths))
        if q is None or q.status != "return":
            raise Cannot("closure")
        self.jobs, self.own = b.jobs, b.own
        return b.val(q.ret)


class Body(Build):
    def __init__(self, tc, e, formals, vals, outer):
        self.tc, self.variants = tc, tc.variants
        Sim.__init__(self, e, {})
        for t, v in zip(formals, vals):
            while isinstance(t, tuple) and t[0] in ("&", "ref"):
                t = t[1]
            self.env[t] = v
        self.g, self.defs, self.jobs, self.own = outer.g, outer.defs, list(outer.jobs), list(outer.own)

    def value(self, t):
        if isinstance(t, T) and t not in self.env and t.op == "fld":
            v = self.val(t.args[0])
            if isinstance(v, (list, tuple)) and not isinstance(v, bytes) and not (len(v) == 2 and v[0] == "of"):
                return v[t.args[1]]
        return Build.value(self, t)


class Thompson:
    def __init__(self, prog):
        self.prog = prog
        fns = {f["def"]: f for f in prog.fns.values()}
        self.fn = next((f for n, f in sorted(fns.items()) if n.endswith("::build_nfa_from_regex_node")), None)
        if self.fn is None:
            raise Unmodelled("no build_nfa_from_regex_node")
        new = next((n for n in fns if n.endswith("NFA::<'a>::new_state")), None)
        add = next((n for n in fns if n.endswith("::add_transition")), None)
        if new is None or add is None:
            raise Unmodelled("no new_state or add_transition")
        self.variants = [v["name"] for v in prog.adt("regexp::RegexpNode")["variants"]]
        self.transitions = [v["name"] for v in prog.adt("nfa::Transition")["variants"]]

        def new_state(e, p, a, c):
            t = mk("sym", ("st%d" % len(p.events),), "automata::nfa::NFAState")
            p.event("new", t)
            return c.finish(p, ("&", t))

        def edge(e, p, a, c):
            p.event("edge", *[e.snap(p, x) for x in a])
            return c.finish(p, UNIT)

        def rec(e, p, a, c):
            p.event("sub", *[e.snap(p, x) for x in a[1:3]])
            return c.finish(p, UNIT)
        self.models = {new: new_state, add: edge, self.fn["def"]: rec}
        self.eng = Engine(prog, panics=False, models=self.models)
        self.args = args_of(self.fn)
        self.paths = self.eng.run(self.fn, self.args, Path())
        self.unclean, self.clos = {}, {}

    def graph(self, node, defs):
        g = Graph()
        s, e = g.new(), g.new()
        todo = [((s, e), node)]
        while todo:
            (a, b), x = todo.pop()
            sim = Build(self, x, a, b, g, defs)
            q = sim.choose(self.paths, [0] * len(self.paths))
            if q is None:
                raise Cannot("no path for %s" % x.name)
            if q.status != "return":
                raise Wrong("the compiler gives up on %r" % (x,))
            if any(t == a or f == b for f, _, t in sim.own):
                self.unclean[x.name] = x
            todo += sim.jobs
        return g, s, e


def ch(c):
    return Node("Char", ord(c) if isinstance(c, str) else c)


def bases():
    a, b, c = ch("a"), ch("b"), ch("c")
    return [a, Node("AnyOf", [97, 98]), Node("Concatenation", [a, b]), Node("Alternative", [a, b]), Node("ZeroOrMore", a), Node("OneOrMore", a),
            Node("Repeat", a, 0, 1), Node("Repeat", a, 2, 3), Node("Reference", b"name")]


def instances():
    """(operator, node) for small operands, including operands that are operators themselves."""
    a, b, c = ch("a"), ch("b"), ch("c")
    for x in (0, 1, 10, 97, 128, 255):
        yield "Char", ch(x)
    for bs in ([97], [97, 98, 255], [0, 1, 2], [97, 97], list(range(256))):
        yield "AnyOf", Node("AnyOf", bs)
    for bs in ([], [10, 13], [97], [1, 255], [0], list(range(97, 123)), list(range(1, 255))):
        yield "NoneOf", Node("NoneOf", bs)
    for n in range(1, 4):
        yield "Alternative", Node("Alternative", [a, b, c][:n])
    for n in range(0, 4):
        yield "Concatenation", Node("Concatenation", [a, b, c][:n])
    yield "Concatenation", Node("Concatenation", [a, a])
    for lo in range(0, 4):
        for hi in range(max(lo, 1), 5):
            yield "Repeat", Node("Repeat", a, lo, hi)
    yield "Reference", Node("Reference", b"name")
    for x in bases():
        for y in bases():
            yield "Alternative", Node("Alternative", [x, y])
            yield "Concatenation", Node("Concatenation", [x, y])
        yield "Concatenation", Node("Concatenation", [b, x, b])
        yield "Alternative", Node("Alternative", [c, x, b])
        yield "ZeroOrMore", Node("ZeroOrMore", x)
        yield "OneOrMore", Node("OneOrMore", x)
        for lo, hi in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 2), (1, 3), (4, 4), (8, 8)):
            yield "Repeat", Node("Repeat", x, lo, hi)


def thompson(chk, prog):
    tc = Thompson(prog)
    w = where(tc.fn)
    defs = {b"name": Node("Alternative", [ch("x"), Node("Concatenation", [ch("x"), ch("y")])])}
    res = {}
    for op, node in instances():
        if op not in tc.variants:
            continue
        bad, unk, n = res.setdefault(op, ([], [], [0]))
        n[0] += 1
        if bad:
            continue
        try:
            g, s, e = tc.graph(node, defs)
        except Cannot as x:
            unk.append("%r: %s" % (node, x))
            continue
        except Wrong as x:
            bad.append(str(x))
            continue
        r = Graph()
        s2, e2 = r.new(), r.new()
        reference(node, defs, r, s2, e2)
        d = differ(g, s, e, r, s2, e2)
        if d is not None:
            bad.append("the automaton built for %r %s %r" % (node, "accepts" if d[1] else "does not accept", d[0]))
    for op in tc.variants:
        bad, unk, n = res.get(op, ([], ["an operator the rule does not know"], [0]))
        chk.count("operator_instances", n[0])
        if bad:
            chk.refuted("operator:" + op, w, bad[0])
        elif unk:
            chk.undecided("operator:" + op, w, unk[0])
        elif op in tc.unclean:
            chk.undecided("operator:" + op, w, "%s draws an edge into its own start or out of its own accepting state" % op)
        else:
            chk.proved("operator:" + op, w)
    return tc


# ---------------------------------------------------------------- the pattern parser
DELEGATES = ("parse_single_node", "parse_alternative", "parse_group", "parse_quoted_string", "parse_ref_or_qualifier", "parse_character_class_to_node",
             "parse_escape_sequence_as_byte")


def m_extend(e, p, a, c):
    v = e.snap(p, e.read(p, a[0]))
    e.write(p, a[0], lift(mk("extended", (v, e.snap(p, a[1])), getattr(v, "ty", None) or "std::vec::Vec<automata::regexp::RegexpNode>"),
                          "std::vec::Vec<automata::regexp::RegexpNode>"))
    return c.finish(p, UNIT)


class Fn:
    """One function of the parser, summarised with some of the others left to a contract."""

    def __init__(self, pp, name, opaque):
        self.pp, self.name = pp, name
        fn = pp.fns.get(name)
        if fn is None:
            raise Unmodelled("no " + name)
        self.fn = fn

        def contract(nm, ret):
            def m(e, p, a, c):
                k = len(p.events)
                st = mk("sym", ("%s.self%d" % (nm, k),), "automata::regexp::RegexpParser")
                r = mk("sym", ("%s.ret%d" % (nm, k),), ret)
                p.event("sub", nm, e.snap(p, e.read(p, a[0])), r, st)
                e.write(p, a[0], st)
                return c.finish(p, r)
            return m
        models = {}
        for o in opaque:
            f = pp.fns.get(o)
            if f is not None and o != name:
                models[f["def"]] = contract(o, f["locals"][0])
        models["<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend"] = m_extend
        self.eng = Engine(pp.prog, panics=False, models=models)
        self.args = args_of(fn)
        self.paths = self.eng.run(fn, self.args, Path())
        self.where = where(fn)


class Run(Values):
    """One function of the parser on one state."""

    def __init__(self, f, state, contracts, args=()):
        self.f, self.contracts = f, contracts
        self.variants = f.pp.variants
        Sim.__init__(self, f.eng, {})
        for t, v in zip(f.args, (state,) + tuple(args)):
            self.env[t if isinstance(t, T) else t[1]] = v

    def clo(self, c, args):
        return self.f.pp.closure(c, args, self)

    def event(self, ev):
        if ev[0] == "sub":
            c = self.contracts.get(ev[1])
            if c is None:
                raise Cannot(ev[1])
            r, st = c(self.val(ev[2]))
            self.env[ev[3]], self.env[ev[4]] = r, st
            return
        Values.event(self, ev)

    def go(self):
        """(result, state afterwards), or None when it panics."""
        q = self.choose(self.f.paths, [0] * len(self.f.paths))
        if q is None:
            return None
        if q.status != "return":
            return None
        st = self.f.eng.snap(q, self.f.eng.read(q, self.f.args[0]))
        return self.val(q.ret), self.val(st)


class ClosureRun(Values):
    def __init__(self, pp, eng, args, vals, variants):
        self.pp, self.variants = pp, variants
        Sim.__init__(self, eng, {})
        for t, v in zip(args, vals):
            self.env[t if isinstance(t, T) else t[1]] = v

    def clo(self, c, args):
        return self.pp.closure(c, args, self)


class Patterns:
    def __init__(self, prog):
        self.prog = prog
        self.variants = [v["name"] for v in prog.adt("regexp::RegexpNode")["variants"]]
        adt = prog.adt("regexp::RegexpParser")
        self.names = [f if isinstance(f, str) else f["name"] if isinstance(f, dict) else f[0] for f in adt["variants"][0]["fields"]]
        self.fns = {f["def"].rsplit("::", 1)[-1]: f for f in prog.fns.values() if "regexp::RegexpParser::" in f["def"] and "{" not in f["def"]}
        self.cache = {}
        self.closures = {}

    def get(self, name, opaque=DELEGATES):
        if name not in self.cache:
            self.cache[name] = Fn(self, name, opaque)
        return self.cache[name]

    def closure(self, c, args, sim):
        if c[0] == "fn" and str(c[2]).rsplit("::", 1)[-1] in self.variants and "RegexpNode" in str(c[2]):
            return Node(str(c[2]).rsplit("::", 1)[-1], *args)
        if c[2]:
            raise Cannot("a closure that captures")
        key = c[1]
        if key not in self.closures:
            fn = self.prog.fns.get(key)
            if fn is None:
                raise Cannot("closure")
            e = Engine(self.prog, panics=False)
            a = args_of(fn)
            self.closures[key] = (e, a, e.run(fn, a, Path()), fn)
        e, a, paths, fn = self.closures[key]
        r = ClosureRun(self, e, a[1:], args, self.variants)
        q = r.choose(paths, [0] * len(paths))
        if q is None or q.status != "return":
            raise Cannot("closure")
        return r.val(q.ret)

    def state(self, text, index=0, stack=()):
        f = {}
        for n in self.names:
            f[n] = index if n == "index" else list(text) if n == "bytes" else [list(x) for x in stack] if n == "parsing_context_stack" else None
        if None in f.values():
            raise Unmodelled("a parser field the rule does not know")
        return State(self.names, **f)


def same_language(x, y, defs=None):
    if x is None or y is None:
        return x is y
    defs = defs or {}
    g1, g2 = Graph(), Graph()
    ends = []
    for g, n in ((g1, x), (g2, y)):
        s, e = g.new(), g.new()
        reference(n, _Names(defs), g, s, e)
        ends.append((s, e))
    return differ(g1, ends[0][0], ends[0][1], g2, ends[1][0], ends[1][1]) is None


class _Names:
    """Stands for any named pattern: a letter of its own per name."""

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        k = bytes(k)
        return self.m.setdefault(k, Node("Concatenation", [ch(0), Node("Concatenation", [ch(c) for c in k])]))


def cat(*xs):
    return Node("Concatenation", list(xs))


class Decide:
    """One obligation: a function of the parser on a family of its own inputs."""

    def __init__(self, chk, pp, oid, name, contracts=None):
        self.chk, self.pp, self.oid, self.name = chk, pp, oid, name
        self.contracts = contracts or {}
        self.bad, self.unk, self.n = None, None, 0
        try:
            self.f = pp.get(name)
        except Unmodelled as e:
            self.f, self.unk = None, str(e)

    def on(self, text, want, end, stack=(), after=None, args=(), at=1, byte=False, state=None):
        if self.f is None or self.bad:
            return
        self.n += 1
        pp = self.pp
        try:
            r = Run(self.f, state or pp.state(b"Z" * at + text, at, stack), self.contracts, args).go()
        except Cannot as e:
            self.unk = self.unk or "%r: %s" % (text, e)
            return
        if r is None:
            self.bad = "%s panics on %r" % (self.name, text)
            return
        v, st = r
        after = [list(x) for x in (stack if after is None else after)]
        try:
            if byte:
                if v != want:
                    self.bad = "%s reads %r as the byte %r instead of %r" % (self.name, text, v, want)
            elif not isinstance(v, Node) or not same_language(v, want):
                self.bad = "%s reads %r as %r instead of %r" % (self.name, text, v, want)
            if not self.bad and end is not None and st.f["index"] != at + end:
                self.bad = "%s stops after %d bytes of %r instead of %d" % (self.name, st.f["index"] - at, text, end)
            got = [list(x) for x in st.f["parsing_context_stack"]]
            if not self.bad and (len(got) != len(after) or any(len(a) != len(b) or not all(same_language(x, y) for x, y in zip(a, b)) for a, b in zip(got, after))):
                self.bad = "%s leaves the operands %r after %r instead of %r" % (self.name, got, text, after)
        except Cannot as e:
            self.unk = self.unk or "%r: %s" % (text, e)

    def done(self):
        w = self.f.where if self.f else ""
        self.chk.count("parser_instances", self.n)
        self.chk.count("parser_partitions", len(self.f.paths) if self.f else 0)
        if self.bad:
            self.chk.refuted("pattern:" + self.oid, w, self.bad)
        elif self.unk:
            self.chk.undecided("pattern:" + self.oid, w, self.unk)
        else:
            self.chk.proved("pattern:" + self.oid, w)


ESC = {"b": 8, "f": 12, "t": 9, "r": 13, "n": 10, "v": 11}


def patterns(chk, prog):
    pp = Patterns(prog)
    ix = pp.names.index("index")
    a, b, c = ch("a"), ch("b"), ch("c")

    def single(k, ret):
        def m(st):
            i = st.f["index"]
            if i + k > len(st.f["bytes"]):
                raise Cannot("end of the pattern")
            return ret(st.f["bytes"][i:i + k]), st.put(ix, i + k)
        return m
    esc = single(2, lambda s: ESC.get(chr(s[1]), s[1]))
    # escapes
    d = Decide(chk, pp, "escape", "parse_escape_sequence_as_byte")
    for x in range(256):
        k = chr(x)
        if k in "axcuUNE89" or k in "01234567":
            continue                       # outside the dialect, or below
        for tail in (b"", b" ", b"7", b"n"):
            d.on(b"\\" + bytes([x]) + tail, ESC.get(k, x), 2, byte=True)
    d.done()
    d = Decide(chk, pp, "escape:hex", "parse_escape_sequence_as_byte")
    for t in (b"0", b"9", b"a", b"A", b"f", b"F", b"00", b"41", b"7f", b"80", b"fF", b"ff", b"C3", b"1b", b"b1"):
        for tail in (b"", b"]", b"-", b"g", b"\\", b"Z", b"/", b":"):
            d.on(b"\\x" + t + tail, int(t, 16), 2 + len(t), byte=True)
    d.done()
    d = Decide(chk, pp, "escape:octal", "parse_escape_sequence_as_byte")
    for t in (b"0", b"1", b"7", b"12", b"00", b"77", b"000", b"101", b"177", b"200", b"377"):
        for tail in (b"", b"]", b"-", b"a", b"\\", b"/", b":"):
            d.on(b"\\" + t + tail, int(t, 8), 1 + len(t), byte=True)
    d.done()
    # classes
    d = Decide(chk, pp, "class", "parse_character_class_to_node", {"parse_escape_sequence_as_byte": esc})
    atoms = [("a", 97), ("c", 99), ("f", 102), ("-", None), ("^", 94), ("\\-", 45), ("\\n", 10), ("\\]", 93), ("\"", 34), ("\\\\", 92), ("*", 42)]
    for n in range(1, 6):
        pool = atoms if n <= 2 else atoms[:2] + atoms[3:8] if n == 3 else atoms[:4] + atoms[5:6] if n == 4 else atoms[:2] + atoms[3:4]
        for w in itertools.product(pool, repeat=n):
            if w[0][0] == "^":
                continue
            m = members(w)
            if m is None:
                continue
            t = "".join(x for x, _ in w)
            d.on(("[%s]" % t).encode(), Node("AnyOf", sorted(m)), len(t) + 2)
            if n < 4:
                d.on(("[^%s]d" % t).encode(), Node("NoneOf", sorted(m)), len(t) + 3)
    for lo, hi in ((0x80, 0xFF), (32, 126), (48, 57), (65, 90), (200, 200)):
        d.on(b"[" + bytes([lo]) + b"-" + bytes([hi]) + b"_]", Node("AnyOf", list(range(lo, hi + 1)) + [95]), 6)
    d.done()
    # quoted text
    d = Decide(chk, pp, "quoted", "parse_quoted_string")
    for x in range(1, 256):
        if x not in (34, 92):
            d.on(bytes([34, x, 34]), ch(x), 3)
    for t in (b"--", b"ab", b"*/+", b"a|b", b"(a)", b"[]", b"a.b", b"{1}x", b"<=", b"a b c d"):
        for tail in (b"", b"c", b"\"d\"", b"*"):
            d.on(b'"' + t + b'"' + tail, cat(*[ch(x) for x in t]), len(t) + 2)
    d.done()
    # braces
    st = [[a], [b, cat(a, c)]]
    d = Decide(chk, pp, "reference", "parse_ref_or_qualifier", {"parse_escape_sequence_as_byte": esc})
    for t in (b"a", b"space", b"xqstart", b"dolq_cont", b"op_chars", b"name1", b"n2x", b"_"):
        for tail in (b"", b"x", b"}", b"{2}"):
            d.on(b"{" + t + b"}" + tail, Node("Reference", t), len(t) + 2, st)
    d.done()
    d = Decide(chk, pp, "count", "parse_ref_or_qualifier", {"parse_escape_sequence_as_byte": esc})
    for lo, hi in ((1, 1), (2, 2), (4, 4), (8, 8), (12, 12), (0, 1), (1, 2), (1, 3), (2, 4), (0, 10), (9, 12)):
        forms = [b"%d,%d" % (lo, hi)] + ([b"%d" % lo] if lo == hi else [])
        for t in forms:
            for tail in (b"", b"x", b"*"):
                d.on(b"{" + t + b"}" + tail, Node("Repeat", cat(a, c), lo, hi), len(t) + 2, st, [[a], [b]])
    d.done()
    # one element
    mark = {n: ch(200 + i) for i, n in enumerate(DELEGATES)}
    cons = {n: single(1, lambda s, n=n: mark[n]) for n in DELEGATES}
    cons["parse_escape_sequence_as_byte"] = single(1, lambda s: 199)
    d = Decide(chk, pp, "element", "parse_single_node", cons)
    role = {"[": "parse_character_class_to_node", "(": "parse_group", "{": "parse_ref_or_qualifier", "\"": "parse_quoted_string"}
    quant = {"*": lambda x: Node("ZeroOrMore", x), "+": lambda x: Node("OneOrMore", x), "?": lambda x: Node("Repeat", x, 0, 1)}
    for x in range(1, 256):
        k = chr(x)
        if k in ")]}|/$^":
            continue                       # never the start of an element, or outside the dialect
        for tail in (b"", b"a", b"<<EOF>>", b"*"):
            t = bytes([x]) + tail
            if k in role:
                d.on(t, mark[role[k]], 1, st)
            elif k == "\\":
                d.on(t, ch(199), 1, st)
            elif k in quant:
                d.on(t, quant[k](st[-1][-1]), 1, st, [[a], [b]])
            elif k == ".":
                d.on(t, Node("NoneOf", [10] if dot(pp, cons) else []), 1, st)
            else:
                d.on(t, ch(x), 1, st)
    d.done()
    d = Decide(chk, pp, "end-of-file", "parse_single_node", cons)
    for tail in (b"", b"a", b"<<EOF>>", b")"):
        d.on(b"<<EOF>>" + tail, ch(0), 7, st)
    for t in (b"<", b"<=", b"<<", b"<<E", b"<<EOF", b"<<EOF>", b"<<eof>>", b"<<EOL>>"):
        d.on(t, ch("<"), 1, st)
    d.done()
    # groups
    inner = ch("m")
    for tail, where_ in ((b"", "group"),):
        d = Decide(chk, pp, where_, "parse_group", {"parse_alternative": single(2, lambda s: inner)})
        for t in (b"(xy)", b"(xy)*", b"(xy))", b"(xy)a(xy)"):
            d.on(t, inner, 4, st)
        d.done()
    # sequences and alternatives
    d = Decide(chk, pp, "alternatives", "parse_alternative", {"parse_single_node": single(1, lambda s: ch(s[0]))})
    for n in range(1, 6):
        for w in itertools.product("ab|" if n < 5 else "a|", repeat=n):
            w = "".join(w)
            if "" in w.split("|"):
                continue
            alts = [cat(*[ch(x) for x in p]) for p in w.split("|")]
            want = Node("Alternative", alts)
            for tail in (b"", b")", b")a", b")|b"):
                if n > 3 and tail not in (b"", b")a"):
                    continue
                d.on(w.encode() + tail, want, n, st)
                if n < 3:
                    d.on(w.encode() + tail, want, n, [])
    d.done()
    # the entry point
    seen = []

    def top(s):
        seen.append((s.f["index"], bytes(s.f["bytes"])))
        return inner, s
    d = Decide(chk, pp, "entry", "parse", {"parse_alternative": top})
    for t in (b"abc", b"", b"a|b"):
        del seen[:]
        d.on(t, inner, None, args=(t,), state=pp.state(b"left over", 4), at=0)
        if not d.bad and not d.unk and (0, t) not in seen:
            d.bad = "parse(%r) reads from position %r" % (t, seen)
    d.done()
    return pp


def dot(pp, cons):
    """Whether `.` leaves out the newline (both readings are in use)."""
    try:
        r = Run(pp.get("parse_single_node"), pp.state(b".", 0, [[]]), cons).go()
        return r is not None and same_language(r[0], Node("NoneOf", [10]))
    except Cannot:
        return False


def members(w):
    """The bytes a class of these atoms denotes; None when the notation is ambiguous or empty."""
    out, i = set(), 0
    dash = [i for i, x in enumerate(w) if x[1] is None]
    if any(j - i == 1 for i, j in zip(dash, dash[1:])):
        return None
    last = None
    while i < len(w):
        if w[i][1] is None:
            if i == 0 or i == len(w) - 1:
                out.add(45)
                i += 1
                continue
            if last != i - 1:
                return None                # a-c-f
            lo, hi = w[i - 1][1], w[i + 1][1]
            if lo is None or hi is None or lo > hi:
                return None
            out |= set(range(lo, hi + 1))
            i += 2
            continue
        out.add(w[i][1])
        last = i
        i += 1
    return out or None


# ---------------------------------------------------------------- the subset construction
def peel(e, p, r):
    v = e.read(p, r) if isinstance(r, tuple) and r and r[0] == "ref" else r
    while isinstance(v, tuple) and v and v[0] in ("&", "ref"):
        v = v[1] if v[0] == "&" else e.read(p, v)
    return v


def m_borrow(e, p, a, c):
    v = e.snap(p, e.read(p, a[0]))
    ty = getattr(v, "ty", None) or ""
    ty = ty[ty.find("RefCell<") + 8:-1] if "RefCell<" in ty else ty
    e.fidc += 1
    cell = ("tmp", e.fidc)
    p.mem[cell] = lift(mk("cell", (v,), ty), ty)
    return c.finish(p, ("ref", cell, ()))


def m_deref(e, p, a, c):
    v = e.read(p, a[0])
    return c.finish(p, v if isinstance(v, tuple) and v and v[0] == "ref" else a[0])


def m_setnew(e, p, a, c):
    return c.finish(p, mk("setnew", (), c.dty))


def m_setins(e, p, a, c):
    s, v = e.snap(p, e.read(p, a[0])), e.snap(p, a[1])
    h = mk("sethas", (s, v), "bool")
    e.write(p, a[0], mk("setins", (s, v), getattr(s, "ty", None)))
    return c.finish(p, mk("not", (h,), "bool"))


def m_sethas(e, p, a, c):
    return c.finish(p, mk("sethas", (e.snap(p, peel(e, p, a[0])), e.snap(p, a[1])), "bool"))


def m_empty(e, p, a, c):
    return c.finish(p, eqz(mk("len", (e.snap(p, peel(e, p, a[0])),), "usize")))


def m_len(e, p, a, c):
    return c.finish(p, mk("len", (e.snap(p, peel(e, p, a[0])),), "usize"))


def m_clone(e, p, a, c):
    return c.finish(p, e.snap(p, peel(e, p, a[0])))


def m_mapnew(e, p, a, c):
    return c.finish(p, mk("mapnew", (), c.dty))


def m_mapins(e, p, a, c):
    m, k, v = e.snap(p, e.read(p, a[0])), e.snap(p, a[1]), e.snap(p, a[2])
    e.write(p, a[0], mk("mapins", (m, k, v), getattr(m, "ty", None)))
    return c.finish(p, lift(e.fresh(p, "old", c.dty), c.dty))


_S, _S0 = "std::collections::BTreeSet::<T, A>::", "std::collections::BTreeSet::<T>::"
_M, _M0 = "std::collections::BTreeMap::<K, V, A>::", "std::collections::BTreeMap::<K, V>::"
COLL = {"std::cell::RefCell::<T>::borrow": m_borrow, "<std::cell::Ref<'_, T> as std::ops::Deref>::deref": m_deref,
        _S + "insert": m_setins, _S0 + "new": m_setnew, _S + "is_empty": m_empty, _S + "len": m_len, _S + "contains": m_sethas,
        _M0 + "new": m_mapnew, _M + "insert": m_mapins, _M + "len": m_len, _M + "is_empty": m_empty,
        "<std::collections::BTreeSet<T, A> as std::clone::Clone>::clone": m_clone}


class NS:
    """A state of a small automaton."""

    def __init__(self, sid):
        self.id, self.trans, self.accept = sid, {}, None

    def __repr__(self):
        return "s%d" % self.id


class Auto(Values):
    """A function of the determinisation on one small automaton."""

    def __init__(self, dc, eng, args, vals):
        self.dc, self.variants = dc, ()
        Sim.__init__(self, eng, {})
        for t, v in zip(args, vals):
            while isinstance(t, tuple) and t[0] in ("&", "ref"):
                t = t[1]
            self.env[t] = v

    def clo(self, c, args):
        return self.dc.closure(c, args)

    def adt(self, t):
        if t[1].endswith("Transition"):
            return EPS if self.dc.transitions[t[2]] == "Epsilon" else self.val(t[3][0])
        if t[1].endswith("DFAState") or t[1].endswith("::DFA"):
            return [self.val(x) for x in t[3]]
        if t[1].endswith("cmp::Ordering"):
            return Adt(t[2])
        return Values.adt(self, t)

    def value(self, t):
        if isinstance(t, tuple) and t and t[0] == "rec":
            st = self.val(t[1])
            if isinstance(st, list) and t[2] is None:
                st = list(st)
                for k, v in t[3]:
                    st[k] = self.val(v)
                return st
        if isinstance(t, T) and t not in self.env:
            a = t.args
            if t.op == "cell":
                return self.val(a[0])
            if t.op == "setnew":
                return frozenset()
            if t.op == "setins":
                return self.val(a[0]) | {self.val(a[1])}
            if t.op == "sethas":
                return int(self.val(a[1]) in self.val(a[0]))
            if t.op == "mapnew":
                return {}
            if t.op == "mapins":
                m = dict(self.val(a[0]))
                m[self.val(a[1])] = self.val(a[2])
                return m
            if t.op == "closure":
                return self.dc.meaning(self.val(a[0]), self.val(a[1]))
            if t.op == "elem":
                s = self.val(a[0])
                if isinstance(s, frozenset):
                    s = sorted(s, key=lambda x: x.id)
                    k = self.val(a[1])
                    if not 0 <= k < len(s):
                        raise Cannot("elem")
                    return s[k]
            if t.op == "fld":
                v = self.val(a[0])
                if isinstance(v, NS):
                    n = self.dc.fields[a[1]]
                    return v.id if n == "state_id" else v.trans if n == "transitions" else Adt(0) if v.accept is None else Adt(1, v.accept)
            if t.op == "fold":
                acc = self.val(a[1])
                for x in self.seq(a[0]):
                    acc = self.clo(a[2], [acc, x])
                return acc
        return Values.value(self, t)

    def call(self, name, a, t=None):
        last = name.rsplit("::", 1)[-1]
        if last == "fold" and len(a) == 3:
            acc = self.val(a[1])
            for x in self.seq(a[0]):
                acc = self.clo(a[2], [acc, x])
            return acc
        if last in ("min", "max") and len(a) == 1:
            s = self.seq(a[0])
            return Adt(1, min(s) if last == "min" else max(s)) if s else Adt(0)
        return Values.call(self, name, a, t)

    def seq(self, t):
        if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], str) and t.args[0].rsplit("::", 1)[-1] in ("iter", "into_iter"):
            return self.seq(t.args[1])
        if isinstance(t, tuple) and t and t[0] in ("it",) and t[1] in ("ref", "val"):
            s = self.val(t[2])
            if isinstance(s, frozenset):
                return sorted(s, key=lambda x: x.id)[self.val(t[3]):]
        if isinstance(t, tuple) and t and t[0] == "it" and t[1] == "filter_map":
            return [x.f[0] for x in (self.clo(t[3], [y]) for y in self.seq(t[2])) if x.k == 1]
        if isinstance(t, (T, tuple)):
            try:
                v = self.val(t) if isinstance(t, T) or t[0] == "&" else None
            except Cannot:
                v = None
            if isinstance(v, frozenset):
                return sorted(v, key=lambda x: x.id)
        return Values.seq(self, t)


def small_automata():
    """Small automata: shared prefixes, several rules on one state, epsilon chains and cycles, unreachable parts, the extreme bytes."""
    specs = [
        # (edges, accepting states, start)
        ([(0, "a", 1)], {1: 0}),
        ([(0, EPS, 1), (1, EPS, 2), (2, "a", 3), (3, EPS, 4)], {4: 7}),
        ([(0, EPS, 1), (0, EPS, 2), (1, "a", 3), (2, "a", 4), (4, "b", 5)], {3: 5, 4: 2, 5: 9}),
        ([(0, EPS, 1), (0, EPS, 2), (1, "a", 3), (2, "a", 4), (4, "b", 5)], {3: 2, 4: 5, 5: 0}),
        ([(0, EPS, 1), (1, EPS, 0), (1, "a", 0), (0, "b", 2), (2, EPS, 2), (2, EPS, 0)], {2: 3}),
        ([(0, 0, 1), (0, 255, 2), (1, 255, 1), (2, 0, 0), (0, 128, 0)], {1: 1, 2: 0}),
        ([(0, "a", 1), (0, "a", 2), (1, "b", 1), (2, "b", 3), (3, EPS, 1), (3, "a", 0)], {1: 4, 3: 1, 2: 6}),
        ([(0, EPS, 1), (1, "a", 1), (0, "b", 2), (2, "a", 2), (2, EPS, 3)], {0: 8, 1: 4, 3: 0}),
        ([(0, "a", 3), (3, EPS, 2), (2, EPS, 1), (1, "a", 3), (1, "c", 4)], {1: 2, 2: 1, 4: 4294967294}),
        ([(0, "a", 1), (1, EPS, 2), (1, EPS, 3), (1, EPS, 4), (2, "x", 5), (3, "x", 6), (4, "x", 7)], {5: 3, 6: 1, 7: 2}),
        ([(0, EPS, 1), (0, EPS, 2), (1, EPS, 3), (1, EPS, 4), (2, EPS, 5), (2, EPS, 6), (3, "a", 0), (4, "b", 0), (5, "c", 7), (6, "d", 7), (7, EPS, 8),
          (7, EPS, 9), (8, EPS, 10)], {10: 3, 9: 5}),
    ]
    for perm in (lambda x, n: x, lambda x, n: n - x):
        for edges, acc in specs:
            n = max(max(a, b) for a, _, b in edges)
            ss = [NS(perm(i, n)) for i in range(n + 1)]
            for a, l, b in edges:
                ss[a].trans.setdefault(ord(l) if isinstance(l, str) and l != EPS else l, []).append(ss[b])
            for i, r in acc.items():
                ss[i].accept = r
            yield ss


def empty_graphs():
    """Graphs of empty moves: every one of three states, and trees, chains, cycles and joins of up to seven."""
    for bits in range(1 << 9):
        ss = [NS(i) for i in range(3)]
        for i in range(9):
            if bits >> i & 1:
                ss[i // 3].trans.setdefault(EPS, []).append(ss[i % 3])
        yield ss
    for edges in ("01 02 13 14 25 26", "01 02 03 14 25 36", "03 02 01 36 25 14", "01 12 23 34 45 56 60", "01 02 13 23 34 35 46 56", "06 65 54 43 32 21",
                  "01 02 03 04 05 16 26", "03 31 16 62 24 45", "02 01 21 23 34 43 45 46 50"):
        for acc in ((), (0, 3, 6), (1, 2, 5)):
            ss = [NS(i) for i in range(7)]
            for x in edges.split():
                ss[int(x[0])].trans.setdefault(EPS, []).append(ss[int(x[1])])
            for i in acc:
                ss[i].accept = 7 - i
            yield ss


def wide_graphs():
    """Many moves out of one state, each going on; a deep chain; a full tree; a ladder."""
    for n, edges in ((25, [(0, i) for i in range(1, 13)] + [(i, i + 12) for i in range(1, 13)]), (20, [(i, i + 1) for i in range(19)]),
                     (15, [(i, 2 * i + k) for i in range(7) for k in (1, 2)]),
                     (16, [(i, i + 2) for i in range(14)] + [(i, i + 1) for i in range(0, 15, 2)] + [(15, 0)])):
        for rev in (False, True):
            ss = [NS(n - 1 - i if rev else i) for i in range(n)]
            for a, b in edges:
                ss[a].trans.setdefault(EPS, []).append(ss[b])
            ss[n - 1].accept, ss[n // 2].accept = 2, 6
            yield ss


class Determinise:
    def __init__(self, prog):
        self.prog = prog
        self.fns = {f["def"].rsplit("::", 1)[-1]: f for f in prog.fns.values() if "tests" not in f["def"]}
        self.transitions = [v["name"] for v in prog.adt("nfa::Transition")["variants"]]
        self.fields = [f if isinstance(f, str) else f["name"] if isinstance(f, dict) else f[0] for f in prog.adt("nfa::NFAState")["variants"][0]["fields"]]
        self.dfields = [f if isinstance(f, str) else f["name"] if isinstance(f, dict) else f[0] for f in prog.adt("dfa::DFAState")["variants"][0]["fields"]]
        self.clos = {}

    def meaning(self, s, x):
        """The contract of collect_epsilon_closure: everything reachable from x by empty moves is added (nothing when x is there)."""
        if x in s:
            return s
        out, todo = set(s), [x]
        out.add(x)
        while todo:
            for y in todo.pop().trans.get(EPS, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def closure(self, c, args):
        if c[2]:
            raise Cannot("a closure that captures")
        if c[1] not in self.clos:
            fn = self.prog.fns.get(c[1])
            if fn is None:
                raise Cannot("closure")
            e = Engine(self.prog, panics=False, models=COLL)
            a = args_of(fn)
            self.clos[c[1]] = (e, a, e.run(fn, a, Path()))
        e, a, paths = self.clos[c[1]]
        r = Auto(self, e, a[1:], args)
        q = r.choose(paths, [0] * len(paths))
        if q is None or q.status != "return":
            raise Cannot("closure")
        return r.val(q.ret)

    def summary(self, name, models=None):
        fn = self.fns.get(name)
        if fn is None:
            raise Unmodelled("no " + name)
        e = Engine(self.prog, panics=False, models=dict(COLL, **(models or {})))
        a = args_of(fn)
        return e, a, e.run(fn, a, Path()), fn

    def apply(self, s, vals):
        e, a, paths, fn = s
        r = Auto(self, e, a, vals)
        q = r.choose(paths, [0] * len(paths))
        if q is None or q.status != "return":
            return None
        return r, q


JOB = []


def construct(i):
    """Builds the i-th of the small automata with the summary and compares: (what is wrong, what is not understood)."""
    dc, s = JOB
    ss = list(small_automata())[i]
    try:
        r = dc.apply(s, (ss[0], Adt(0)))
        if r is None:
            return "no automaton is built", None
        sim, q = r
        return compare_dfa(dc, ss, sim.val(q.ret)), None
    except Cannot as e:
        return None, str(e)


def determinise(chk, prog):
    dc = Determinise(prog)
    # the closure
    s = dc.summary("collect_epsilon_closure")
    w, bad, unk, n = where(s[3]), None, None, 0
    for ss in itertools.chain(wide_graphs(), small_automata(), empty_graphs()):
        for x in ss[:1] if len(ss) > 12 else ss:
            for base in (frozenset(), frozenset(ss[-1:]), dc.meaning(frozenset(), ss[0])):
                if bad:
                    break
                if any(y not in base for z in base for y in z.trans.get(EPS, ())):
                    continue               # the set handed in is closed
                n += 1
                try:
                    r = dc.apply(s, (base, x))
                    if r is None:
                        bad = "no result for %r in %r" % (x, sorted(base, key=lambda z: z.id))
                        continue
                    sim, q = r
                    got = sim.val(s[0].snap(q, s[0].read(q, s[1][0])))
                except Cannot as e:
                    unk = unk or str(e)
                    continue
                want = dc.meaning(base, x)
                if got != want:
                    bad = "from %r with %r already there it collects %r instead of %r (empty moves %r)" % (
                        x, srt(base), srt(got), srt(want), [(a, b) for a in srt(ss) for b in a.trans.get(EPS, ())])
    chk.count("closure_instances", n)
    verdict(chk, "closure", w, bad, unk)
    # the choice among rules
    try:
        s = dc.summary("select_highest_priority_rule")
    except Unmodelled:
        s = None
    if s is not None:
        w, bad, unk = where(s[3]), None, None
        for accs in ([], [None], [3], [None, 2, None], [5, 1, 3], [1, 5], [2, 2], [0, 4294967294], [4294967294], [7, None, 0], [None, None]):
            ss = [NS(i) for i in range(len(accs))]
            for x, r in zip(ss, accs):
                x.accept = r
            known = [r for r in accs if r is not None]
            want = Adt(1, min(known)) if known else Adt(0)
            try:
                r = dc.apply(s, (frozenset(ss),))
                got = r[0].val(r[1].ret) if r else None
            except Cannot as e:
                unk = unk or str(e)
                continue
            chk.count("choice_instances")
            if got != want:
                bad = bad or "of the rules %r it selects %s" % (accs, "none" if got is None or got.k == 0 else got.f[0])
        verdict(chk, "choice", w, bad, unk)
    # the construction

    def closure_model(e, p, a, c):
        st, v = e.snap(p, e.read(p, a[0])), e.snap(p, a[1])
        e.write(p, a[0], mk("closure", (st, v), getattr(st, "ty", None)))
        return c.finish(p, lift(e.fresh(p, "acc", c.dty), c.dty))
    s = dc.summary("construct_dfa_with_state_mapping", {dc.fns["collect_epsilon_closure"]["def"]: closure_model})
    w, bad, unk = where(s[3]), None, None
    JOB[:] = [dc, s]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for b, u in pool.imap(construct, range(len(list(small_automata())))):
            chk.count("construction_instances")
            bad, unk = bad or b, unk or u
    chk.count("construction_partitions", len(s[2]))
    verdict(chk, "construction", w, bad, unk)


def srt(s):
    return sorted(s, key=lambda x: x.id)


def verdict(chk, oid, w, bad, unk):
    if bad:
        chk.refuted("determinise:" + oid, w, bad)
    elif unk:
        chk.undecided("determinise:" + oid, w, unk)
    else:
        chk.proved("determinise:" + oid, w)


def compare_dfa(dc, ss, dfa):
    """Walks the automaton that is built and the one it is built from together."""
    states = dfa[0]
    ti, ai = dc.dfields.index("transitions"), dc.dfields.index("accept_lexer_rule_id")
    start = (dc.meaning(frozenset(), ss[0]), 0)
    seen, todo = {start: b""}, [start]
    while todo:
        x, k = todo.pop()
        w = seen[(x, k)]
        if not 0 <= k < len(states):
            return "a transition leads to state %d of %d after %r" % (k, len(states), w)
        rules = [s.accept for s in x if s.accept is not None]
        acc = states[k][ai]
        if acc != (Adt(1, min(rules)) if rules else Adt(0)):
            return "after %r the automaton %s where rule %s matches" % (
                w, "accepts rule %d" % acc.f[0] if acc.k else "accepts nothing", min(rules) if rules else "none")
        row = states[k][ti]
        if len(row) != 256:
            return "a state has %d transitions" % len(row)
        for b in range(256):
            y = frozenset()
            for z in x:
                for t in z.trans.get(b, ()):
                    y = dc.meaning(y, t)
            d = row[b]
            if not y:
                if d not in (2 ** 64 - 1, -1):
                    return "after %r the byte %r leads to state %d where nothing matches" % (w, bytes([b]), d)
                continue
            if d in (2 ** 64 - 1, -1):
                return "after %r the byte %r is refused" % (w, bytes([b]))
            if (y, d) not in seen:
                if len(seen) > 400:
                    return "the automaton does not repeat"
                seen[(y, d)] = w + bytes([b])
                todo.append((y, d))
    return None


# ---------------------------------------------------------------- from the rules to the automata
class Compile(Auto):
    """to_flex_pattern_dfa on a few rules: which states it makes, marks, joins and determinises."""

    def __init__(self, cc, eng, args, vals):
        Auto.__init__(self, cc.dc, eng, args, vals)
        self.cc = cc
        self.n, self.edges, self.accepts, self.builds = 0, [], [], []

    def mark(self):
        return self.n, list(self.edges), list(self.accepts), list(self.builds)

    def reset(self, m):
        if m is not None:
            self.n, self.edges, self.accepts, self.builds = m[0], list(m[1]), list(m[2]), list(m[3])

    def fresh(self):
        self.n += 1
        return NS(self.n - 1)

    def adt(self, t):
        if t[1].endswith("NFAFragment"):
            return [self.val(x) for x in t[3]]
        if t[1].endswith("::NFA") or t[1].endswith("RegexpParser"):
            return "opaque"
        if t[1].endswith("ops::Range"):
            return list(range(self.val(t[3][0]), self.val(t[3][1])))
        return Auto.adt(self, t)

    def value(self, t):
        if isinstance(t, T) and t not in self.env:
            a = t.args
            if t.op == "mkdfa":
                return ("dfa", self.val(a[0]))
            if t.op == "parsedre":
                return ("re", bytes(self.val(a[0])))
            if t.op == "fld":
                v = self.val(a[0])
                if isinstance(v, Record):
                    return v.f[a[1]]
                if isinstance(v, list) and 0 <= a[1] < len(v):
                    return v[a[1]]
        return Auto.value(self, t)

    def call(self, name, a, t=None):
        last = name.rsplit("::", 1)[-1]
        if last == "len" and "Hash" in name or "BTreeSet" in name and last == "len":
            return len(set(self.val(a[0])))
        if last in ("max", "min") and len(a) == 1:
            s = self.seq(a[0])
            return Adt(1, max(s) if last == "max" else min(s)) if s else Adt(0)
        if name.endswith("From<&'a automata::nfa::NFAState<'a>>>::from") or last == "construct_dfa_with_state_mapping":
            return ("dfa", self.val(a[0]))
        return Auto.call(self, name, a, t)

    def clo(self, c, args):
        if c[0] == "fn":
            f = self.cc.prog.fns.get(c[1])
            d = f["def"] if f else str(c[2])
            if d.endswith("::from") and isinstance(args[0], NS):
                return ("dfa", args[0])
            if d.endswith("new_state"):
                return self.fresh()
            raise Cannot("fn " + d)
        fn = self.cc.prog.fns.get(c[1])
        if fn is None:
            raise Cannot("closure")
        e, a, paths = self.cc.body(c[1], fn)
        caps = [self.val(x) for x in c[2]]
        r = Compile(self.cc, e, a[1:], args)
        r.n = self.n
        if len(caps):
            r.env[peeled(a[0])] = caps
        q = r.choose(paths, [0] * len(paths))
        if q is None or q.status != "return" or r.edges or r.accepts or r.builds:
            raise Cannot("closure")
        v = r.val(q.ret)
        self.n = r.n
        return v

    def event(self, ev):
        if ev[0] == "new":
            self.env[ev[1]] = self.fresh()
        elif ev[0] == "edge":
            self.edges.append((self.val(ev[1]), self.val(ev[3]), self.val(ev[2])))
        elif ev[0] == "accept":
            self.accepts.append((self.val(ev[1]), self.val(ev[2])))
        elif ev[0] == "build":
            fr, node, defs = (self.val(x) for x in ev[2:5])
            self.builds.append((fr[0], fr[1], node, defs))
        elif ev[0] == "call" and isinstance(ev[3], T) and ev[1].endswith("::collect"):
            self.env[ev[3]] = self.collected(ev[3], self.seq(ev[2][0]))      # its closures run once, here
        else:
            Auto.event(self, ev)


def peeled(t):
    while isinstance(t, tuple) and t[0] in ("&", "ref"):
        t = t[1]
    return t


class Record:
    def __init__(self, *f):
        self.f = f


class Compiler:
    def __init__(self, prog):
        self.prog, self.dc, self.memo = prog, Determinise(prog), {}
        self.fn = next((f for f in prog.fns.values() if f["def"].endswith("::to_flex_pattern_dfa")), None)
        if self.fn is None:
            raise Unmodelled("no to_flex_pattern_dfa")
        self.pfields = fields(prog, "FlexPatternDef")
        self.nfields = fields(prog, "NameDefinition")
        self.ffields = fields(prog, "NFAFragment")

        def ev(kind):
            def m(e, p, a, c):
                p.event(kind, *[e.snap(p, x) for x in a])
                return c.finish(p, UNIT)
            return m

        def new_state(e, p, a, c):
            t = mk("sym", ("st%d" % len(p.events),), "automata::nfa::NFAState")
            p.event("new", t)
            return c.finish(p, ("&", t))

        def parse(e, p, a, c):
            return c.finish(p, mk("parsedre", (e.snap(p, a[1]),), c.dty))

        def dfa(e, p, a, c):
            return c.finish(p, mk("mkdfa", (e.snap(p, a[0]),), c.dty))
        self.models = dict(COLL)
        for f in prog.fns.values():
            d = f["def"]
            for end, m in (("NFA::<'a>::new_state", new_state), ("::add_transition", ev("edge")), ("::set_accept", ev("accept")),
                           ("::build_nfa_from_regex_node", ev("build")), ("RegexpParser::parse", parse), ("::construct_dfa_with_state_mapping", dfa),
                           ("NFAState<'a>>>::from", dfa)):
                if d.endswith(end):
                    self.models[d] = m
        self.models["std::collections::HashMap::<K, V>::new"] = m_mapnew
        self.models["std::collections::HashMap::<K, V, S, A>::insert"] = m_mapins

    def body(self, k, fn):
        if k not in self.memo:
            e = Engine(self.prog, panics=False, models=self.models)
            a = args_of(fn)
            self.memo[k] = (e, a, e.run(fn, a, Path()))
        return self.memo[k]


def fields(prog, name):
    return [f if isinstance(f, str) else f["name"] if isinstance(f, dict) else f[0] for f in prog.adt(name)["variants"][0]["fields"]]


RULESETS = [
    ([[0]], []),
    ([[0], [0]], [(b"d", b"[0-9]")]),
    ([[0], [1], [0, 1]], [(b"d", b"[0-9]"), (b"e", b"{d}+")]),
    ([[2], [0, 2], [1], [0, 1, 2]], [(b"d", b"x"), (b"d", b"y")]),
    ([[0, 1, 2, 3], [3], [1, 2], [0], [2]], []),
    ([[1, 0], [0]], [(b"a", b"1"), (b"b", b"2"), (b"c", b"3")]),
]


def compiling(chk, prog):
    cc = Compiler(prog)
    w, bad, unk = where(cc.fn), None, None
    e, a, paths = cc.body(cc.fn["id"] if "id" in cc.fn else "main", cc.fn)
    si, pi = cc.pfields.index("state_set"), cc.pfields.index("pattern")
    ni, di = cc.nfields.index("name"), cc.nfields.index("definition")
    for sets, names in RULESETS:
        rules = []
        for i, s in enumerate(sets):
            r = [None, None]
            r[si], r[pi] = list(s), b"p%d" % i
            rules.append(Record(*r))
        defs = []
        for k, v in names:
            r = [None, None]
            r[ni], r[di] = k, v
            defs.append(Record(*r))
        try:
            sim = Compile(cc, e, a, (rules, defs))
            q = sim.choose(paths, [0] * len(paths))
            if q is None:
                bad = bad or "no result for rules of the states %r" % (sets,)
                continue
            if q.status != "return":
                bad = bad or "it gives up on rules of the states %r" % (sets,)
                continue
            dfas = sim.seq(q.ret)
        except Cannot as x:
            unk = unk or str(x)
            continue
        chk.count("ruleset_instances")
        bad = bad or compiled(cc, sim, dfas, sets, names)
    verdict(chk, "compile", w, bad, unk)


def compiled(cc, sim, dfas, sets, names):
    n = max(x for s in sets for x in s) + 1
    if len(dfas) != n or any(not isinstance(d, tuple) or d[0] != "dfa" for d in dfas):
        return "%d automata for %d lexer states" % (len(dfas), n)
    starts = [d[1] for d in dfas]
    if len({id(s) for s in starts}) != n:
        return "two lexer states share their automaton"
    want = {k: ("re", v) for k, v in names}
    by = {}
    for st, ac, node, defs in [(b[cc.ffields.index("start_state")], b[cc.ffields.index("accept_state")], b[2], b[3]) for b in sim.builds]:
        if dict(defs) != want:
            return "the pattern %r is built with the definitions %r of %r" % (node, dict(defs), names)
        by.setdefault(node, []).append((st, ac))
    ends = {}
    for i in range(len(sets)):
        f = by.get(("re", b"p%d" % i), [])
        if not f:
            return "the pattern of rule %d of %d is not built" % (i, len(sets))
        for st, ac in f:
            if [r for s, r in sim.accepts if s is ac] != [i]:
                return "the automaton of rule %d accepts as %r" % (i, [r for s, r in sim.accepts if s is ac])
        ends[i] = f
    if len(sim.accepts) != len(sim.builds):
        return "a state that ends no pattern accepts"
    allowed = set()
    for i, s in enumerate(sets):
        for k in s:
            if not any(x is starts[k] and l == EPS and y is f[0] for x, l, y in sim.edges for f in ends[i]):
                return "the automaton of state %d does not start rule %d of %r" % (k, i, sets)
            allowed |= {(id(starts[k]), id(f[0])) for f in ends[i]}
    for x, l, y in sim.edges:
        if l != EPS or (id(x), id(y)) not in allowed:
            return "an edge %r that no rule asks for, with rules of the states %r" % (l, sets)
    return None


def states(chk, prog):
    """Two states are one exactly when they have the same number, and every state gets a number of its own."""
    dc = Determinise(prog)
    for f in sorted(prog.fns.values(), key=lambda f: f["def"]):
        last = f["def"].rsplit("::", 1)[-1]
        if "nfa::NFAState" not in f["def"] or last not in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge") or " as " not in f["def"]:
            continue
        e = Engine(prog, panics=False, models=COLL)
        a = args_of(f)
        s = e, a, e.run(f, a, Path()), f
        bad = unk = None
        for x, y in ((0, 0), (0, 1), (1, 0), (5, 5), (7, 300), (2 ** 40, 3)):
            p, r = NS(x), NS(y)
            p.trans, r.accept = {EPS: [r]}, 4 if x else None
            try:
                v = dc.apply(s, (p, r))
                got = v[0].val(v[1].ret) if v else None
            except Cannot as z:
                unk = unk or str(z)
                continue
            order = (x > y) - (x < y)
            want = {"eq": int(x == y), "ne": int(x != y), "lt": int(x < y), "le": int(x <= y), "gt": int(x > y), "ge": int(x >= y)}.get(last)
            ok = got == want if want is not None else rank(got) == order if last == "cmp" else isinstance(got, Adt) and got.k == 1 and rank(
                got.f[0]) == order
            if not ok:
                bad = bad or "states %d and %d compare as %s" % (x, y, got.f if isinstance(got, Adt) and got.k == 1 else got)
        verdict(chk, "identity:" + last, where(f), bad, unk)
    f = next((f for f in prog.fns.values() if f["def"].endswith("NFA::<'a>::new_state")), None)
    if f is None:
        return chk.undecided("state:fresh", "", "no new_state")
    e = Engine(prog, panics=False, models=COLL)
    a = args_of(f)
    ok, why = True, ""
    for q in e.run(f, a, Path()):
        if q.status != "return":
            ok, why = None, "a path ends with %s" % q.status
            continue
        gets = [v[3] for v in q.events if v[0] == "call" and v[1].endswith("Cell::<T>::get")]
        sets = [v[2] for v in q.events if v[0] == "call" and v[1].endswith("Cell::<T>::set")]
        made = [v[2][-1] for v in q.events if v[0] == "call" and v[1].endswith("::alloc")]
        if not (len(made) == 1 and isinstance(made[0], tuple) and made[0][0] == "adt" and gets):
            ok, why = None, "how a state is made is not understood"
            continue
        sid = made[0][3][dc.fields.index("state_id")]
        steps = []
        for s in sets:
            d = q.norm(lsub(q.norm(s[1]), q.norm(sid)))
            steps.append(d if isinstance(d, int) else None)
        base = q.norm(lsub(q.norm(sid), q.norm(gets[0])))
        if None in steps or not isinstance(base, int):
            ok, why = None, "how states are numbered is not understood"
        elif not steps or steps[-1] + base <= base or steps[-1] <= 0:
            ok, why = False, "a state gets the number of the state before it"
    chk.decide("state:fresh", ok, where(f), why)


def rank(v):
    """Less, Equal, Greater."""
    return v - 1 if isinstance(v, int) else v.k - 1 if isinstance(v, Adt) else None
