"""Comparison of the summarised scanner actions with the prescribed ones (rules.py)."""
from collections import Counter
from .dump import AnalysisError, where
from .eng import lin_parts, Engine, Path, T, mk, ladd, lsub, lez, eqz, show, slen, sslice, streq
from . import scan, flex, rules
from .rules import Scanner, LexShape, Spec, Lang, Case, ANY, EXPECT, SLICES, LIVE, MAXV, canon_text, assume_byte

FITS_DIGITS = {10: 9, 16: 7, 8: 10, 2: 31}


def subst(t, m):
    if isinstance(t, int):
        return t
    if isinstance(t, T):
        if t in m:
            return m[t]
        if t.op == "lin":
            r = t.args[0]
            for x, k in t.args[1]:
                y = subst(x, m)
                if y is None:
                    return None
                r = ladd(r, y, k)
            return r
        if any(x in m for x in scan.subterms(t)):
            return None
    return t


class Env:
    """Terms the prescribed cases talk about, for one final partition."""

    def __init__(self, sc, e, f0, ref, s, i, n, final):
        self.sc, self.e, self.ref0, self.s, self.i, self.n = sc, e, ref, s, i, n
        self.f0, self.final = f0, final
        terms = set()
        for src in (final.facts, final.eqs, final.ne, final.iv, final.strs):
            for k in src:
                terms |= set(scan.subterms(k))
        for k in final.lins:
            terms |= set(scan.subterms(k))
        self.terms = terms

    def L(self, name, content=False):
        v = self.sc.shape.get(self.e, self.f0, self.ref0, name)
        if content and isinstance(v, tuple) and v[0] == "String":
            v = v[1]
        return v

    def matching(self, op, drop, under, radix, end):
        out = []
        for t in self.terms:
            if t.op != op or t.args[1] != radix:
                continue
            c = canon_text(t.args[0], self.s, self.i)
            if c is None:
                continue
            if c[0] == drop and self.final.norm(lsub(c[1], end)) == 0 and (c[2] == under or not under):
                out.append(t)
        return sorted(out, key=lambda t: t.n)

    def num(self, drop, under, radix):
        end = ladd(self.i, self.n)
        for t in self.matching("parsed", drop, under, radix, end):
            if MAXV.get(t.args[2], 0) >= 2 ** 32 - 1:
                return t
        for t in self.matching("parses", drop, under, radix, end):
            if MAXV.get(t.args[2], 0) >= 2 ** 32 - 1:
                return mk("parsed", t.args, t.args[2])
        return mk("sym", ("escape value",), "u32")

    def parses(self, drop, under, radix, ty, end):
        return ("fits", drop, under, radix, ty, end)

    def maphas(self, key):
        return mk("maphas", (self.L("keyword_map"), ("str", key)), "bool")

    def isdiscr(self, field, k):
        return eqz(ladd(self.e.discr(self.f0, self.L(field)), -k))

    def expand(self, conds):
        """Alternatives of plain fact lists for a condition list."""
        alts = [[]]
        for b, v in conds:
            if isinstance(b, tuple) and b[0] == "fits":
                opts = self.fits(*b[1:], v)
            else:
                opts = [[(b, v)]]
            alts = [a + o for a in alts for o in opts]
        return alts

    def fits(self, drop, under, radix, ty, end, v):
        """Fact lists equivalent to "the digits fit the type" being v, in terms of the conversions the code makes."""
        ms = self.matching("parses", drop, under, radix, end)
        same_ty = [t for t in ms if t.args[2] == ty]
        ndig = lsub(lsub(end, self.i), drop)
        if not v and self.final.truth(lez(lsub(ndig, FITS_DIGITS.get(radix, 0)))) == 1:
            return []
        base = [[(same_ty[0] if same_ty else mk("fits", (drop, under, radix, ty), "bool"), v)]]
        for t in ms:
            if t.args[2] == ty:
                continue
            val = mk("parsed", t.args, t.args[2])
            mx, my = MAXV[t.args[2]], MAXV[ty]
            if mx > my:
                opts = [[(t, 1), (lez(lsub(val, my)), 1)]] if v else [[(t, 0)], [(t, 1), (lez(lsub(my + 1, val)), 1)]]
            else:
                opts = [[(t, 0)], [(t, 1)]] if v else [[(t, 0)]]
            base = [a + o for a in base for o in opts]
        return base

    def known(self):
        """None when every fact of the partition is understood, else the first that is not."""
        for t in self.terms:
            if not self.known_term(t):
                return show(t)
        for ev in self.final.events:
            if ev[0] not in ("match", "tok", "lexref", "loopexit", "next", "push", "reverse"):
                return "event " + str(ev[0])
        return None

    def known_term(self, t):
        if t.op == "sym":
            return t in (self.s, self.i, self.n) or t.args[0] in ("lexer", "escape value")
        if t.op == "band":  # bits of a value are not related to the value; a single one is taken as free
            m = [x for x in t.args if isinstance(x, int)]
            return len(m) == 1 and m[0] & (m[0] - 1) == 0
        if t.op in ("lin", "not", "lez", "eqz", "len", "discr", "fld", "shl", "shr", "lower", "maphas", "max",
                    "min", "slice", "fits", "cast"):
            return True
        if t.op == "byte":
            return t.args[0] is self.s
        if t.op in ("parses", "parsed"):
            return canon_text(t.args[0], self.s, self.i) is not None
        if t.op == "replace":
            return canon_text(t, self.s, self.i) is not None
        if t.op == "streq":
            text = sslice(self.s, self.i, ladd(self.i, self.n))
            return all(x is text or (isinstance(x, T) and x.op == "fld") for x in t.args)
        return False


def same(p, a, b):
    """Are two values equal on this partition: True / False / None."""
    if a is None or b is None:
        return None
    if a == b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    if isinstance(a, (int, T)) and isinstance(b, (int, T)):
        if any(isinstance(x, T) and x.op in ("slice", "lower") for x in (a, b)):
            return same_text(p, a, b)
        try:
            d = p.norm(lsub(a, b))
        except Exception:
            return None
        if isinstance(d, int):
            return d == 0
        return p.truth(eqz(d)) == 1
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == "String" and b[0] == "String":
            return same_text(p, a[1], b[1])
        if a[0] == "adt" and b[0] == "adt":
            if a[1] != b[1] or a[2] != b[2]:
                return False
            return True if not a[3] and not b[3] else None
    return None


def shifted_ok(q):
    """What the partition says of shifted values against the bounds of what they are shifted from."""
    def bounds(t):
        if t.op == "shr" and isinstance(t.args[1], int):
            lo, hi = q.itv(t.args[0])
            if lo >= 0 and hi < 1 << 64:
                return lo >> t.args[1], hi >> t.args[1]
        return None
    for t, v in q.eqs.items():
        b = bounds(t) if isinstance(t, T) and isinstance(v, int) else None
        if b and not b[0] <= v <= b[1]:
            return False
    for f, v in q.facts.items():
        if f.op == "eqz" and v == 0:
            c, ts = lin_parts(f.args[0])
            b = bounds(ts[0][0]) if len(ts) == 1 else None
            if b and b[0] == b[1] and c + ts[0][1] * b[0] == 0:
                return False
    return True


def same_text(p, a, b):
    if a == b:
        return True
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op:
        if a.op == "lower":
            return same_text(p, a.args[0], b.args[0])
        if a.op == "slice" and a.args[0] is b.args[0]:
            x, y = same(p, a.args[1], b.args[1]), same(p, a.args[2], b.args[2])
            if x and y:
                return True
            if x is False or y is False:
                return False
            return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "s" and b[0] == "s":
        return a[1] == b[1]
    try:
        return True if p.truth(streq(a, b)) == 1 else None
    except Exception:
        return None


def plain(v):
    if isinstance(v, int):
        return True
    if isinstance(v, T):
        return all(x.op in ("sym", "fld", "lin", "slice", "lower", "len") and "#" not in str(x.args[0]) for x in scan.subterms(v))
    if isinstance(v, tuple):
        return all(plain(x) if isinstance(x, (T, tuple, int)) else True for x in v)
    return False


class Compare:
    """Compares the partitions of one (mode, rule) with the prescribed cases."""

    def __init__(self, sc, lexshape, r, mode, lang, value):
        self.sc, self.lx, self.r, self.mode, self.lang, self.value = sc, lexshape, r, mode, lang, value
        self.spec = Spec(sc)
        self.npaths = self.ncases = 0

    def facts(self, p, s, i, n):
        sc, lang, mode = self.sc, self.lang, self.mode
        ref = ("ref", ("arg", "lexer"), ())
        if lang.eof and not lang.pos and lang.max == 0:
            p.assume(eqz(lsub(i, slen(s))))
        for k, bs in enumerate(lang.pos[:12]):
            assume_byte(p, s, i, k, bs)
        e = Engine(sc.prog, panics=False)
        if mode == "xc":
            p.assume(lez(lsub(0, sc.shape.get(e, p, ref, "xcdepth"))))
        if mode != "INITIAL":
            p.assume(lez(lsub(sc.shape.get(e, p, ref, "yylloc_bytes"), i)))
        if mode == "xeu":
            v = sc.shape.get(e, p, ref, "utf16_first_part")
            p.assume(lez(lsub(0xD800, v)))
            p.assume(lez(lsub(v, 0xDBFF)))

    def finals(self):
        lang = self.lang
        hi = lang.max
        if hi is not None and lang.last and max(lang.last) >= 0x80:
            hi = hi + 3
        return self.sc.run(self.mode, self.value, (lang.min, hi), facts=self.facts)

    def run(self):
        sc, mode = self.sc, self.mode
        e, ref, (s, i, n), finals = self.finals()
        f0 = Path()
        ref0 = sc.shape.lexer(f0, {"state": sc.shape.mode(mode), "input": ("String", s), "index_bytes": i})
        out = []       # (aspect, verdict, detail)
        for f in finals:
            self.npaths += 1
            if f.status == "panic":
                continue
            env = Env(sc, e, f0, ref0, s, i, n, f)
            cases = self.spec.cases(self.r, mode, env)
            if cases is None:
                return None
            unknown = env.known()
            for c in cases:
                for alt in env.expand(c.conds):
                    q = f.fork()
                    if not all(q.assume(b, v) for b, v in alt) or not shifted_ok(q):
                        continue
                    # an escape's digits always denote a number that fits
                    if self.r in (27, 28) and any(t.op == "parses" and q.facts.get(t) == 0 for t in env.terms):
                        continue
                    self.ncases += 1
                    for aspect, ok, d in self.one(e, q, f, c, env, ref):
                        if ok is True:
                            out.append((aspect, True, ""))
                            continue
                        why = "%s: %s; prescribed: %s" % (self.describe(q), d, c.text_safe())
                        if ok is False and unknown is None:
                            out.append((aspect, False, why))
                        else:
                            out.append((aspect, None, why + (" [not understood: %s]" % unknown if unknown else "")))
        if not self.ncases:
            out.append(("effect", None, "no partition reaches an end"))
        return out

    def describe(self, q):
        fs = [("%s" if v else "not %s") % show(b) for b, v in list(q.facts.items())]
        fs = [x for x in fs if "byte(" not in x]
        return ("when " + " and ".join(fs[-4:])[:300]) if fs else "always"

    def field(self, e, q, ref, name):
        return self.sc.shape.get(e, q, ref, name)

    def one(self, e, q, f, c, env, ref):
        if c.kind == "any":
            return [("effect", True, "")]
        if f.status == "next":
            if c.kind != "next":
                return [("error" if c.kind in ("error", "report") else "effect", False, "the scanner goes on without returning")]
            return self.cmp_next(e, q, c, env, f.why)
        if f.status != "return":
            return [("effect", None, "%s: %s" % (f.status, f.why))]
        ret = q.ret
        if not (isinstance(ret, tuple) and ret[0] == "adt" and ret[1].endswith("Result")):
            return [("effect", None, "result %s" % show(ret))]
        if ret[2] == 1:
            return self.cmp_err(q, c, ret[3][0])
        o = ret[3][0]
        if not (isinstance(o, tuple) and o[0] == "adt"):
            return [("effect", None, "result %s" % show(ret))]
        if o[2] == 0:
            return [("error" if c.kind in ("error", "report") else "effect", c.kind == "eof", "scanning ends as if the input ended")]
        return self.cmp_tok(e, q, c, env, ref, o[3][0])

    def cmp_err(self, q, c, err):
        txt = show(err)[:160]
        if c.kind not in ("error", "report"):
            return [("error", False, "fails with %s" % txt)]
        strs = []

        def rec(v):
            if isinstance(v, tuple):
                if v and v[0] == "s":
                    strs.append(v[1])
                else:
                    for x in v:
                        rec(x)
        rec(err)
        if not strs:
            return [("error", None, "fails with %s" % txt)]
        if c.kind == "report":
            ok = c.msg in strs and c.detail in strs
            try:
                pos = same(q, err[3][0][3][2], c.pos)
            except (IndexError, TypeError):
                pos = None
            if ok and pos is not True:
                ok = pos
        else:
            ok = strs == [c.msg]
        return [("error", ok, "fails with %s" % txt)]

    def mode_ob(self, e, q, st, name):
        shape = self.sc.shape
        k = shape.modes.index(name)
        if isinstance(st, tuple) and st[0] == "adt":
            return ("effect", st[2] == k, "the mode becomes %s" % shape.modes[st[2]])
        if isinstance(st, T):
            d = q.truth(eqz(ladd(e.discr(q, st), -k)))
            return ("effect", True if d == 1 else (False if plain(st) else None), "the mode becomes %s" % show(st))
        return ("effect", None, "the mode becomes %s" % show(st))

    def cmp_next(self, e, q, c, env, ref):
        out = []
        st = self.field(e, q, ref, "state")
        if isinstance(c.state, tuple):
            want = env.L(c.state[1])
            out.append(("effect", True if st == want else (False if plain(st) or isinstance(st, tuple) else None),
                        "the mode becomes %s" % show(st)))
            target, live = None, ()
        else:
            target = c.state
            out.append(self.mode_ob(e, q, st, target))
            live = LIVE.get(target, ())
        idx = self.field(e, q, ref, "index_bytes")
        out.append(("span", self.definite(same(q, idx, ladd(env.i, c.adv)), idx), "scanning continues at %s" % show(idx)))
        if target != "INITIAL":
            y = self.field(e, q, ref, "yylloc_bytes")
            out.append(("span", self.definite(same(q, y, c.start), y), "the token start becomes %s" % show(y)))
        for name in live:
            v = self.field(e, q, ref, name)
            want = c.sets.get(name)
            if name == "literal":
                cont = v[1] if isinstance(v, tuple) and v[0] == "String" else v
                if want is None:
                    continue
                if want == "empty":
                    t = q.truth(eqz(slen(cont)))
                    ok = True if t == 1 else (False if t == 0 or cont == env.L("literal", True) else None)
                else:
                    t = q.truth(lez(lsub(1, slen(cont))))
                    if t is None and isinstance(cont, tuple) and cont[0] == "cat":
                        t = 1 if any(q.truth(lez(lsub(1, slen(x)))) == 1 for x in cont[1]) else None
                    if t is None and cont == env.L("literal", True):
                        t = 0
                    ok = True if t == 1 else False if t == 0 else None
                out.append(("effect", ok, "the collected text becomes %s" % show(cont)))
                continue
            if want is None:
                want = env.L(name)
            r = same(q, v, want)
            if r is None and plain(v) and plain(want):
                r = v == want
            out.append(("effect", self.definite(r, v), "%s becomes %s" % (name, show(v))))
        return out

    def definite(self, ok, v):
        return None if ok is False and not plain(v) else ok

    def cmp_tok(self, e, q, c, env, ref, kind):
        names = self.spec.token_names
        if not (isinstance(kind, tuple) and kind[0] == "adt"):
            return [("kind", None, "token %s" % show(kind))]
        name = names[kind[2]]
        if c.kind in ("error", "report"):
            return [("error", False, "returns token %s" % name)]
        if c.kind != "token":
            return [("kind", False, "returns token %s" % name)]
        out = [("kind", name == c.tok, "returns token %s" % name)]
        if name == c.tok and c.payload is not ANY and kind[3]:
            got = kind[3][0]
            g = got[1] if isinstance(got, tuple) and got[0] in ("String", "str") else got
            if c.payload[0] == "text":
                ok = same_text(q, g, c.payload[1])
            else:
                want = (env.L("keyword_map"), ("str", c.payload[1]))
                ok = None
                if isinstance(g, T) and g.op == "mapget":
                    ok = g.args[0] == want[0] and (g.args[1] == want[1] or g.args[1] == want[1][1])
            out.append(("kind", ok, "the token is %s" % show(kind)))
        out.append(self.mode_ob(e, q, self.field(e, q, ref, "state"), "INITIAL"))
        m = {self.lx.syms[f]: self.field(e, q, ref, f) for f in self.lx.FIELDS}
        parts = self.lx.by_kind.get(name, ())
        if not parts:
            out.append(("kind", None, "delivery of kind %s" % name))
        for part in parts:
            if part[0] == "token":
                for what, got, want in (("token start", part[1], c.start), ("token end", part[2], c.end),
                                        ("next scan position", part[3], c.resume)):
                    g = subst(got, m)
                    out.append(("span", self.definite(same(q, g, want), g), "the %s is %s" % (what, show(g))))
                if not part[4]:
                    out.append(("kind", False if isinstance(part[6], tuple) and part[6][0] == "adt" else None,
                                "the delivered kind is %s" % show(part[6])))
                if not part[5]:
                    out.append(("span", False if part[5] == 0 else None, "the delivered text is %s" % show(part[7])[:80]))
            elif part[0] == "none":
                out.append(("kind", False, "no token is delivered for kind %s" % name))
            elif part[0] == "stop":
                out.append(("kind", False if isinstance(part[1], tuple) and part[1][0] == "adt" else None,
                            "scanning stops at a token of kind %s" % name))
            else:
                out.append(("kind", None, str(part[1])))
        return out


def rule_values(tab, dfa):
    """rule index -> accept value the tables give where that rule wins (majority)."""
    trans, acc = [x.v for x in tab.trans.v], tab.acc.v
    votes = {}
    seen, todo = {(tab.start, 0)}, [(tab.start, 0)]
    while todo:
        d, s = todo.pop()
        if dfa.acc[s] and d < len(acc) and acc[d] != tab.dead:
            votes.setdefault(dfa.acc[s][0], Counter())[acc[d]] += 1
        if (d, s) == (tab.start, 0) and dfa.trans[0][flex.EOF] is not None:
            es, e = dfa.trans[0][flex.EOF], trans[d][0]
            if dfa.acc[es] and e < len(acc) and acc[e] != tab.dead:
                votes.setdefault(dfa.acc[es][0], Counter())[acc[e]] += 1
        for b in range(1, 256):
            d2 = trans[d][b] if b < len(trans[d]) else tab.dead
            s2 = dfa.trans[s][b]
            if d2 < len(trans) and s2 is not None and (d2, s2) not in seen:
                seen.add((d2, s2))
                todo.append((d2, s2))
    return {r: c.most_common(1)[0][0] for r, c in votes.items()}


def wanted(pid, r, aspect):
    if pid == "C26":
        return aspect == "span"
    if pid == "C12":
        return aspect == "error"
    return True


def values_table(sc, mode, dfa):
    tab = scan.analyse_match(sc.prog, sc.shape, mode)
    if not hasattr(tab, "start"):
        raise AnalysisError("scan tables of mode %s" % mode)
    return rule_values(tab, dfa)


def report(chk, prog, pid, values=values_table, prefix="", skip=()):
    """Adds the obligations of one property slice."""
    sc = Scanner(prog)
    lx = LexShape(sc)
    defs, states, rs, trees, dfas = flex.mode_dfas()
    bad = [r for r in rs if EXPECT.get(r.index) != r.pattern]
    if bad or len(rs) != len(EXPECT):
        chk.undecided(prefix + "rules", "scan.l", "the rule list of scan.l is not the known one: %s" % bad[:3])
        return
    w = where(sc.fn)
    todo = set(SLICES[pid]) if pid in SLICES else set(range(81))
    todo -= {62} | set(skip)
    for mode in states:
        here = [r for r in rs if mode in r.states and r.index in todo]
        if not here:
            continue
        vals = chk.guard(prefix + "tables:" + mode, values, sc, mode, dfas[mode])
        if vals is None:
            continue
        for r in here:
            oid = "%srule:%s:%d" % (prefix, mode, r.index)
            lang = Lang(dfas[mode], r.index)
            if lang.min is None:
                chk.count("unmatchable_rules")
                continue
            if r.index not in vals:
                chk.undecided(oid, w, "no accept value of the tables stands for rule %s" % r.pattern)
                continue
            chk.guard(oid, one_rule, chk, sc, lx, r, mode, lang, vals[r.index], pid, oid, w)


def one_rule(chk, sc, lx, r, mode, lang, value, pid, oid, w):
    cmp = Compare(sc, lx, r.index, mode, lang, value)
    res = cmp.run()
    if res is None:
        chk.undecided(oid, w, "no prescription for rule %d" % r.index)
        return
    chk.count("partitions", cmp.npaths)
    chk.count("comparisons", cmp.ncases)
    rel = [x for x in res if wanted(pid, r.index, x[0])]
    if not rel:
        return
    w2 = "%s, rule %d %s in mode %s" % (w, r.index, r.pattern, mode)
    fails = [x for x in rel if x[1] is False]
    unk = [x for x in rel if x[1] is None]
    if fails:
        chk.refuted(oid, w2, fails[0][2])
    elif unk:
        chk.undecided(oid, w2, unk[0][2])
    else:
        chk.proved(oid, w2, "%d partitions" % cmp.npaths)
    chk.sample({"rule": r.index, "mode": mode, "partitions": cmp.npaths, "comparisons": cmp.ncases})
