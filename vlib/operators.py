"""Operators (rule 62): where a run of operator characters ends and which token it is.

The partitions of the action are compared with the cut PostgreSQL prescribes.  The terms the prescription talks about
are the first comment start (two substring searches), the last kept byte, a search for a character outside the SQL
operators, and the loop that drops trailing signs; loops and searches are taken from the code's summary and must have
exactly that meaning."""
from .dump import AnalysisError, where
from .eng import Engine, Path, T, S, mk, ladd, lsub, lez, eqz, show, slen, sslice
from . import flex, compare, scan
from .rules import Scanner, LexShape, Spec, Lang, Case, EXPECT, ANY
from .driver import loops_of, strip
from .compare import Env, same

OPS = b"~!@#^&|`?+-*/%<>="
SELF = b",()[].;:+-*/%^<>="
QUAL = frozenset(b"~!@#^&|`?%")
PAIRS = {b"=>": "EQUALS_GREATER", b">=": "GREATER_EQUALS", b"<=": "LESS_EQUALS", b"<>": "NOT_EQUALS", b"!=": "NOT_EQUALS"}
SIGNS = frozenset(b"+-")
LIMIT = 64


class Ops(compare.Compare):
    def __init__(self, sc, lx, mode, lang, value):
        compare.Compare.__init__(self, sc, lx, 62, mode, lang, value)
        self.out = []

    def facts(self, p, s, i, n):
        compare.Compare.facts(self, p, s, i, n)
        text = sslice(s, i, ladd(i, n))
        self.text = text
        self.has = [mk("str_contains", (text, S(x)), "bool") for x in ("/*", "--")]
        self.at = [mk("str_find", (text, S(x)), "usize") for x in ("/*", "--")]
        # rules 2 and 1 would have matched at least as much text and come first
        for t in self.at:
            p.assume(lez(lsub(1, t)))

    def byte(self, k):
        return mk("byte", (self.s, ladd(self.i, k)), "u8")

    # -------------------------------------------------------- pieces of the code's summary
    def predicate(self, t):
        """Bytes for which the predicate of a search term holds, or None."""
        if t in self.preds:
            return self.preds[t]
        self.preds[t] = None
        fv = t.args[1]
        if t.op == "str_contains" and isinstance(fv, tuple) and len(fv) == 3 and fv[0] == "clo":
            fv = fv[1:]
        if not (isinstance(fv, tuple) and len(fv) == 2 and isinstance(fv[0], str)):
            return None
        e = Engine(self.sc.prog, panics=False)
        p = Path()
        caps = []
        for k, c in enumerate(fv[1]):
            if isinstance(c, tuple) and c and c[0] == "&":
                p.mem[("arg", "cap%d" % k)] = c[1]
                c = ("ref", ("arg", "cap%d" % k), ())
            caps.append(c)
        fn = self.sc.prog.fns.get(fv[0])
        if fn is None:
            return None
        env = ("clo", fv[0], tuple(caps))
        if fn["locals"][1].startswith("&"):
            p.mem[("arg", "env")] = env
            env = ("ref", ("arg", "env"), ())
        if t.op == "str_contains":
            b = x = mk("sym", ("ch",), "char")      # operator characters are single bytes
        else:
            x = mk("sym", ("ic",), "usize")
            p.assume(lez(lsub(ladd(x, 1), self.n)))
            b = self.byte(x)
        yes = set()
        for f in e.run(fn, [env, x], p):
            if f.status != "return":
                continue
            if f.ret not in (0, 1):
                return None
            if f.ret == 1:
                for o in OPS:
                    q = f.fork()
                    if q.assume(eqz(lsub(b, o))):
                        if any(y.op == "byte" and y is not b for z in q.facts for y in scan.subterms(z)):
                            return None
                        yes.add(o)
        self.preds[t] = frozenset(yes)
        return self.preds[t]

    def searches(self, q, c0):
        """[(term, byte set)] of searches over the bytes before the last kept one, and those not understood"""
        good, bad = [], []
        for b in list(q.facts):
            for t in scan.subterms(b):
                if t.op == "str_contains" and t not in self.has and isinstance(t.args[0], T) and t.args[0].op == "slice" \
                        and t.args[0].args[0] is self.s:
                    ps, (lo, hi) = self.predicate(t), t.args[0].args[1:]
                    if ps is not None and same(q, lo, self.i) is True and same(q, hi, ladd(self.i, ladd(c0, -1))) is True:
                        good.append((t, ps))
                    else:
                        bad.append((t, ps, None))
                    continue
                if t.op not in ("it_any", "it_all"):
                    continue
                r = t.args[0]
                ps = self.predicate(t)
                ok = isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("Range") and ps is not None
                if ok and t.op == "it_all":
                    ps = frozenset(OPS) - ps
                if ok and same(q, r[3][0], 0) is True and same(q, r[3][1], ladd(c0, -1)) is True:
                    good.append((t, ps))
                else:
                    bad.append((t, ps, r[3] if ok else None))
        return good, bad

    def signs(self, q, k):
        """Is byte k a sign: True / False / None"""
        b = self.byte(k)
        lo, hi = q.itv(b)
        left = [o for o in OPS if lo <= o <= hi and q.truth(eqz(lsub(b, o))) != 0]
        if set(left) <= SIGNS:
            return True
        if not set(left) & SIGNS:
            return False
        return None

    def strip_loop(self, e, q):
        """(entry value, result term) of the loop that drops trailing signs this partition went through"""
        keys = [ev[1] for ev in q.events if ev[0] == "loop"]
        if not keys:
            return None
        for l in loops_of(e):
            if len(l.phis) != 1 or l.key not in keys:
                continue
            k = l.phis[0]
            if not any(k in scan.subterms(x) for src in (q.facts, q.eqs, q.ne, q.iv) for x in src) and \
                    not any(k in scan.subterms(x) for x in q.lins):
                continue
            return l, k
        return None

    def loop_ok(self, l, k):
        """The loop's rounds each drop one trailing sign; 0: tested before, -1: tested after dropping."""
        key = (id(l.head), k)
        if key in self.loops:
            return self.loops[key]
        self.loops[key] = None
        shape = None
        for b in l.backs:
            m = l.next(b)
            if b.norm(lsub(m[k], ladd(k, -1))) != 0:
                return None
            c = ladd(k, -1)
            if b.truth(lez(lsub(2, c))) == 1 and self.signs(b, ladd(c, -1)):
                s = -1
            elif b.truth(lez(lsub(2, k))) == 1 and self.signs(b, ladd(k, -1)):
                s = 0
            else:
                return None
            if shape not in (None, s):
                return None
            shape = s
        self.loops[key] = shape
        return shape

    def loop_wrong(self, l, k):
        """A round of the sign-dropping loop that drops what must stay, or None."""
        for b in l.backs:
            m = l.next(b)
            d = b.norm(lsub(m[k], k))
            if isinstance(d, int) and d < -1:
                return "a round of the loop that drops signs drops %d characters" % -d
            if d != -1:
                return None
            tested = [x for x in (ladd(k, -1), k) if self.signs(b, ladd(x, -1)) is True]
            if not tested:
                # a definite character that is no sign
                if any(self.signs(b, ladd(x, -1)) is False and self.itv_one(b, ladd(x, -1)) for x in (ladd(k, -1), k)):
                    return "the loop that drops signs drops a character that is none"
                # the characters dropped now and next are free in this round, although all it tests are characters
                about = [t for t in list(b.facts) + list(b.eqs) + list(b.iv) if k in scan.subterms(t)]
                plain = all(x.op in ("eqz", "lez", "byte", "lin", "phi", "sym", "len", "bound") for t in about for x in scan.subterms(t))
                w = b.fork()
                if plain and w.assume(lez(lsub(3, k))) and all(w.assume(eqz(lsub(self.byte(ladd(k, -x)), ord("<")))) for x in (1, 2)):
                    return "the loop that drops signs drops characters it does not look at"
                return None
            x = tested[0]
            w = b.fork()
            if w.assume(eqz(ladd(x, -1))):
                return "the loop that drops signs may drop the only character left"
        return None

    def itv_one(self, q, k):
        return isinstance(q.norm(self.byte(k)), int)

    # -------------------------------------------------------- comparison
    def run(self):
        sc, mode = self.sc, self.mode
        e, ref, (s, i, n), finals = self.finals()
        self.s, self.i, self.n = s, i, n
        self.preds, self.loops = {}, {}
        f0 = Path()
        ref0 = sc.shape.lexer(f0, {"state": sc.shape.mode(mode), "input": ("String", s), "index_bytes": i})
        self.e, self.ref = e, ref
        for f in finals:
            self.npaths += 1
            if f.status in ("panic", "unreachable"):
                continue
            self.env = Env(sc, e, f0, ref0, s, i, n, f)
            self.f = f
            self.partition(f)
        return self.out

    def judge(self, label, q, case, unknown):
        self.ncases += 1
        for aspect, ok, d in self.one(self.e, q, self.f, case, self.env, self.ref):
            if ok is True:
                self.out.append((aspect, label, True, ""))
                continue
            why = "%s: %s; prescribed: %s" % (self.describe(q), d, case.text())
            if ok is False and unknown is None:
                self.out.append((aspect, label, False, why))
            else:
                self.out.append((aspect, label, None, why + (" [not understood: %s]" % unknown if unknown else "")))

    def describe(self, q):
        fs = []
        for b, v in q.facts.items():
            if b.op == "bound" or "it_a" in show(b):
                continue
            fs.append("%s%s" % ("" if v else "not ", show(b).replace(show(self.text), "text")))
        return ("when " + " and ".join(fs[-5:])[:400]) if fs else "always"

    def known(self, okterms):
        for t in self.env.terms:
            if t in okterms or t in self.has or t in self.at or t.op in ("bound", "byte"):
                continue
            if t.op == "str_contains" and isinstance(t.args[0], tuple) and t.args[0][0] == "s":
                continue
            if t.op == "streq" and self.prefix_test(t):
                continue
            if not self.env.known_term(t):
                return show(t)[:100]
        return None

    def prefix_test(self, t):
        """A comparison of a definite part of the matched text with a constant."""
        for x, y in (t.args, t.args[::-1]):
            if isinstance(x, tuple) and x[0] == "s" and isinstance(y, T) and y.op == "slice" and y.args[0] is self.s:
                try:
                    lo, hi = lsub(y.args[1], self.i), lsub(y.args[2], self.i)
                except Exception:
                    return False
                return isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi
        return False

    def partition(self, f):
        text = self.text
        for v1 in (0, 1):
            for v2 in (0, 1):
                q = f.fork()
                ok = all(q.assume(h, v) for h, v in zip(self.has, (v1, v2)))
                for v, a in zip((v1, v2), self.at):
                    ok = ok and (not v or (q.assume(lez(lsub(1, a))) and q.assume(lez(lsub(ladd(a, 2), self.n)))))
                if not ok:
                    continue
                a, b = self.at
                if v1 and v2:
                    for cond, c0 in ((lez(lsub(ladd(a, 1), b)), a), (lez(lsub(ladd(b, 1), a)), b)):
                        r = q.fork()
                        if r.assume(cond):
                            self.cut(r, c0, "both")
                else:
                    self.cut(q, a if v1 else b if v2 else self.n, "slash" if v1 else "dash" if v2 else "whole")

    def cut(self, q, c0, label):
        # facts like "the text up to the comment start" hold by the meaning of a first occurrence
        r = q.fork()
        if r.assume(eqz(ladd(c0, -1))):
            self.after(r, c0, c0, label + "-one")
        if not q.assume(lez(lsub(2, c0))):
            return
        last = self.byte(ladd(c0, -1))
        r = q.fork()
        if all(r.assume(eqz(lsub(last, o)), 0) for o in SIGNS):
            self.after(r, c0, c0, label + "-plain")
        for o in sorted(SIGNS):
            r = q.fork()
            if r.assume(eqz(lsub(last, o))):
                self.sign(r, c0, label)

    def sign(self, q, c0, label):
        good, bad = self.searches(q, c0)
        wrong = [(t, ps) for t, ps in good if ps != QUAL]
        lp = self.strip_loop(self.e, q)
        res = None
        okterms = {t for t, ps in good} | {t for t, ps in self.preds.items() if ps is not None}
        if lp:
            l, k = lp
            shape = self.loop_ok(l, k)
            if shape is not None and same(l.entry_path, l.entry[k], c0) is True:
                res = ladd(k, shape)
                okterms.add(k)
            elif same(l.entry_path, l.entry[k], c0) is True:
                why = self.loop_wrong(l, k)
                if why is not None and self.known(okterms | {k}) is None:
                    self.out.append(("span", label + "-stripped", False, why))
                    return
        unknown = self.known(okterms)
        if wrong:
            t, ps = wrong[0]
            self.out.append(("span", label + "-qualifier", False if unknown is None else None,
                             "characters that keep a trailing sign are %s, prescribed %s" % (setstr(ps), setstr(QUAL))))
            return
        if bad and not good:
            t, ps, rng = bad[0]
            # the searched part is a definite other part of the operator
            why = "the search for a character that keeps a trailing sign covers %s" % (show(rng) if rng else "an unknown part")
            ok = None
            if rng is not None and ps == QUAL and unknown is None:
                d0, d1 = q.norm(lsub(rng[0], 0)), q.norm(lsub(rng[1], ladd(c0, -1)))
                if isinstance(d0, int) and isinstance(d1, int):
                    # looking at the last byte too makes no difference: it is a sign
                    ok = True if d0 == 0 and d1 == 1 else False
            if ok is not True:
                self.out.append(("span", label + "-qualifier", ok, why))
                return
            good = [(t, ps)]
        if good:
            t = good[0][0]
            pos = t.op != "it_all"
            alts = [(t, 1 if pos else 0, True), (t, 0 if pos else 1, False)]
        else:
            alts = [(None, 0, True), (None, 0, False)]
        for t, v, qual in alts:
            r = q.fork()
            if t is not None and not r.assume(t, v):
                continue
            if qual:
                self.after(r, c0, c0, label + "-qualified", unknown)
                continue
            if res is None:
                # nothing was dropped, or by a loop of unknown meaning
                k = mk("sym", ("stripped",), "usize")
                r.assume(lez(lsub(1, k)))
                r.assume(lez(lsub(ladd(k, 1), c0)))
                self.after(r, c0, k, label + "-stripped", "the loop that drops signs" if lp else unknown)
                continue
            # the result: one byte left, or the last one is no sign
            b = self.byte(ladd(res, -1))
            if r.truth(eqz(ladd(res, -1))) != 1:
                w = r.fork()
                stays = w.assume(lez(lsub(2, res))) and w.assume(eqz(lsub(b, 43)))
                w2 = r.fork()
                stays2 = w2.assume(lez(lsub(2, res))) and w2.assume(eqz(lsub(b, 45)))
                if stays or stays2:
                    self.out.append(("span", label + "-stripped", False if unknown is None else None,
                                     "dropping trailing signs may stop at a sign although more than one byte is left" + ("" if unknown is None else " [not understood: %s]" % unknown)))
                    continue
            self.after(r, c0, res, label + "-stripped", unknown)

    def after(self, q, c0, c, label, unknown=0):
        """c bytes are kept: which token is it?"""
        if unknown == 0:
            okterms = {t for t, ps in self.preds.items() if ps is not None}
            lp = self.strip_loop(self.e, q)
            if lp and self.loop_ok(*lp) is not None:
                okterms.add(lp[1])
            unknown = self.known(okterms)
        i, n = self.i, self.n
        end = ladd(i, c)

        def tok(kind, payload=ANY):
            return Case([], "token", tok=kind, start=i, end=end, resume=end, payload=payload, state="INITIAL")
        short = q.fork()
        if c is not n and short.assume(lez(lsub(ladd(c, 1), n))):
            one = short.fork()
            if one.assume(eqz(ladd(c, -1))):
                for x in OPS:
                    r = one.fork()
                    if r.assume(eqz(lsub(self.byte(0), x))) and self.consistent(r):
                        if x in SELF:
                            self.judge(label + ":self", r, tok("RAW", ("text", sslice(self.s, i, ladd(i, 1)))), unknown)
                        else:
                            self.judge(label + ":op", r, tok("Op"), unknown)
            two = short.fork()
            if two.assume(eqz(ladd(c, -2))):
                letters = self.letters(two)
                for x in letters:
                    r0 = two.fork()
                    if not r0.assume(eqz(lsub(self.byte(0), x))):
                        continue
                    for y in letters:
                        r = r0.fork()
                        if r.assume(eqz(lsub(self.byte(1), y))) and self.consistent(r):
                            self.judge(label + (":pair" if bytes([x, y]) in PAIRS else ":op"), r,
                                       tok(PAIRS.get(bytes([x, y]), "Op")), unknown)
            if short.assume(lez(lsub(3, c))):
                self.length(short, c, label, tok, unknown)
        whole = q.fork()
        if whole.assume(eqz(lsub(n, c))):
            self.length(whole, c, label, tok, unknown)

    def length(self, q, c, label, tok, unknown):
        r = q.fork()
        if r.assume(lez(lsub(c, LIMIT - 1))) and self.consistent(r):
            self.judge(label + ":op", r, tok("Op"), unknown)
        if q.assume(lez(lsub(LIMIT, c))) and self.consistent(q):
            self.judge(label + ":long", q, Case([], "error", msg="operator too long"), unknown)

    def letters(self, q):
        out = set(b"=><!*~%")
        for t in self.env.terms:
            if t.op == "streq":
                for x in t.args:
                    if isinstance(x, tuple) and x[0] == "s":
                        out |= {o for o in x[1].encode() if o in OPS}
        return sorted(out)

    def bytes_at(self, q, v):
        """The bytes of a slice of the matched text where they are determined, or None."""
        if isinstance(v, tuple) and v[0] == "s":
            return v[1].encode()
        if not (isinstance(v, T) and v.op == "slice" and v.args[0] is self.s):
            return None
        lo, hi = q.norm(lsub(v.args[1], self.i)), q.norm(lsub(v.args[2], self.i))
        if not (isinstance(lo, int) and isinstance(hi, int)) or not 0 <= lo <= hi <= lo + 4:
            return None
        bs = [q.norm(self.byte(k)) for k in range(lo, hi)]
        return bytes(bs) if all(isinstance(b, int) for b in bs) else None

    def consistent(self, q):
        """Facts about determined bytes are evaluated."""
        for b, v in list(q.facts.items()):
            r = None
            if b.op == "streq":
                x, y = (self.bytes_at(q, z) for z in b.args)
                if x is not None and y is not None:
                    r = int(x == y)
            elif b.op == "str_contains":
                h, nd = b.args
                if isinstance(h, tuple) and h[0] == "s":
                    y = q.norm(nd) if isinstance(nd, T) and nd.op == "byte" else None
                    if isinstance(nd, T) and nd.op == "char":
                        y = q.norm(nd.args[0])
                    if isinstance(y, int):
                        r = int(chr(y) in h[1])
            if r is not None and r != v:
                return False
        return True


def setstr(ps):
    return "".join(sorted(chr(x) for x in ps))


def report(chk, prog, pid="C25", values=compare.values_table, prefix="", aspects=None):
    sc = Scanner(prog)
    lx = LexShape(sc)
    defs, states, rs, trees, dfas = flex.mode_dfas()
    r = [x for x in rs if x.index == 62]
    w = where(sc.fn)
    if not r or r[0].pattern != EXPECT[62] or r[0].states != ["INITIAL"] and list(r[0].states) != ["INITIAL"]:
        chk.undecided(prefix + "operator", "scan.l", "the operator rule of scan.l is not the known one")
        return
    vals = chk.guard(prefix + "tables:INITIAL", values, sc, "INITIAL", dfas["INITIAL"])
    if vals is None:
        return
    if 62 not in vals:
        chk.undecided(prefix + "operator", w, "no accept value of the tables stands for the operator rule")
        return
    cmp = Ops(sc, lx, "INITIAL", Lang(dfas["INITIAL"], 62), vals[62])
    res = chk.guard(prefix + "operator", cmp.run)
    if res is None:
        return
    chk.count("partitions", cmp.npaths)
    chk.count("comparisons", cmp.ncases)
    by = {}
    for aspect, label, ok, d in res:
        if aspects and aspect not in aspects:
            continue
        by.setdefault("%soperator:%s:%s" % (prefix, label, aspect), []).append((ok, d))
    for oid, xs in sorted(by.items()):
        f = [x for x in xs if x[0] is False] or [x for x in xs if x[0] is None]
        chk.decide(oid, f[0][0] if f else True, w, f[0][1] if f else "%d comparisons" % len(xs))
