"""The token filter that reclassifies two-token keywords, summarised and compared with base_yylex of parser.c."""
import os, re
from . import desugar
from .dump import AnalysisError, where, REPO
from .eng import Engine, Path, T, Unmodelled, mk, ladd, lsub, lez, eqz, show
from .driver import atoms, loops_of, same, slen_vec, unwrap, fld, strip
from .scan import subterms

BUILTIN = {"FORMAT": ("FORMAT_LA", ["JSON"]), "NOT": ("NOT_LA", ["BETWEEN", "IN_P", "LIKE", "ILIKE", "SIMILAR"]),
           "NULLS_P": ("NULLS_LA", ["FIRST_P", "LAST_P"]), "WITH": ("WITH_LA", ["TIME", "ORDINALITY"]),
           "WITHOUT": ("WITHOUT_LA", ["TIME"])}
PLAIN = {"UIDENT": "IDENT", "USCONST": "SCONST"}


def followers():
    """{keyword: (variant, followers)} of base_yylex."""
    p = os.path.join(REPO, "crates/lexer-generator/resources/parser.c")
    try:
        text = open(p).read()
    except OSError:
        return BUILTIN, "built-in table"
    out = {}
    for m in re.finditer(r"case\s+(\w+):\s*(?:/\*.*?\*/\s*)?switch\s*\(next_token\)\s*\{(.*?)\n\t\t\t\}", text, re.S):
        la = re.search(r"cur_token\s*=\s*(\w+);", m.group(2))
        if la and la.group(1).endswith("_LA"):
            out[m.group(1)] = (la.group(1), re.findall(r"case\s+(\w+):", m.group(2)))
    return (out, "parser.c") if len(out) == 5 else (BUILTIN, "built-in table")


class Filter:
    def __init__(self, prog, judge):
        prog = desugar.program(prog)
        self.prog, self.judge = prog, judge
        fs = prog.find("init_tokens")
        if len(fs) != 1:
            raise AnalysisError("init_tokens was not found")
        self.fn = fs[0]
        self.w = where(self.fn)
        self.kinds = [v["name"] for v in prog.adt("lexer::TokenKind")["variants"]]
        fl = [x if isinstance(x, str) else x["name"] for x in prog.adt("lexer::Token")["variants"][0]["fields"]]
        self.ki = fl.index("kind")
        self.KW = self.kinds.index("KEYWORD")
        self.comments = [self.kinds.index("C_COMMENT"), self.kinds.index("SQL_COMMENT")]
        self.table, self.source = followers()

    def run(self):
        ty = self.fn["locals"][1]
        if not ty.startswith("&mut"):
            raise AnalysisError("init_tokens takes %s" % ty)
        e = self.e = Engine(self.prog, panics=False)
        p = Path()
        self.toks = mk("sym", ("toks",), "[%s]" % [n for n in self.prog.adts if n.endswith("lexer::Token")][0])
        p.mem[("arg", 0)] = ("vec", self.toks, (), ())
        p.assume(lez(lsub(1, slen_vec(self.toks))))      # parse() calls it on a non-empty sequence only
        finals = e.run(self.fn, [("ref", ("arg", 0), ())], p)
        self.loops = loops_of(e)
        self.by_phi = {x: l for l in self.loops for x in l.phis}
        outer = []
        for l in self.loops:
            vs = [x for x in l.phis if x.op == "phi" and self.is_seq(l.entry[x])]
            if len(vs) == 1:
                l.seqphi = vs[0]
                outer.append(l)
        # a loop is analysed again for every way into it; the last one of each kind is the general one
        last = {}
        for l in outer:
            last[l.key] = l
        self.outer = list(last.values())
        if not self.outer:
            raise AnalysisError("the filter's loops were not recognised")
        self.search = {}
        la = 0
        self.plain = set()
        for l in self.outer:
            self.pos(l)
            if self.upgrades(l):
                la += 1
                self.check_main(l)
            else:
                self.check_plain(l)
        if la == 0:
            self.judge({"C09"}, "lookahead", None, True, self.w, "no loop reclassifies keywords")
        elif la > 1:
            self.judge({"C09"}, "lookahead", None, True, self.w, "%d loops reclassify keywords" % la)
        return self

    def is_seq(self, v):
        if isinstance(v, tuple) and v and v[0] == "vec":
            v = v[1]
        while isinstance(v, T) and v.op == "phi":
            l = self.by_phi.get(v)
            v = l.entry[v] if l else None
            v = v[1] if isinstance(v, tuple) and v and v[0] == "vec" else v
        return v is self.toks

    def pos(self, l):
        c = [x for x in l.phis if x.op == "phi" and x is not l.seqphi and l.backs and all(same(q, l.next(q)[x], ladd(x, 1)) == 1 for q in l.backs)]
        # the position is the one that indexes the sequence
        use = set()
        for q in l.backs:
            for t in atoms(q):
                for s in subterms(t):
                    if s.op == "elem":
                        use |= set(subterms(s.args[1])) if isinstance(s.args[1], T) else set()
        d = [x for x in c if x in use]
        if not d:
            raise AnalysisError("the filter's position was not recognised")
        l.pos = d[0]

    # ------------------------------------------------------------ token terms
    def token_at(self, l, idx):
        return self.e.elem(l.head.fork(), ("vec", l.seqphi, (), ()), idx)

    def kind(self, tok):
        return fld(tok, self.ki)

    def kind_of(self, q, k):
        """(variant or None, excluded variants, keyword text or None, excluded texts)"""
        d = mk("discr", (k,), "isize")
        v = q.eqs.get(d)
        if not isinstance(v, int):
            v = None
            for i in range(len(self.kinds)):
                if q.truth(eqz(lsub(d, i))) == 1:
                    v = i
        ex = {i for i in range(len(self.kinds)) if q.truth(eqz(lsub(d, i))) == 0} if v is None else set()
        text, no = None, frozenset()
        for t, (val, excl) in q.strs.items():
            if isinstance(t, T) and t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "as" and t.args[0].args[0] is k:
                text, no = val, excl
            elif isinstance(t, T) and k in set(subterms(t)) and t.op in ("fld", "as"):
                text, no = val, excl
        return v, ex, text, no

    def known(self, q, l, idx):
        toks = [self.kind(self.token_at(l, i)) for i in idx]
        for t in atoms(q):
            if t.op in ("len", "phi", "sym", "streq"):
                continue
            if t.op in ("discr", "fld", "as", "elem"):
                continue
            return False
        return True

    def updates(self, l, q):
        """[(index, new kind or None when something else changed)]"""
        v = l.next(q)[l.seqphi]
        if not (isinstance(v, tuple) and v[0] == "vec" and v[1] is l.seqphi):
            raise AnalysisError("the sequence becomes %s" % show(v)[:80])
        if v[2]:
            return [(None, None)]
        out = []
        for idx, path, val in v[3]:
            tok = self.token_at(l, idx)
            if path:
                out.append((idx, val if str(path).find("%d" % self.ki) >= 0 and len(path) == 1 else None))
                continue
            if isinstance(val, tuple) and val[0] == "rec":
                ch = dict(val[3])
                if set(ch) == {self.ki} and (val[1] is tok or val[1] == tok):
                    out.append((idx, ch[self.ki]))
                else:
                    out.append((idx, None))
            elif isinstance(val, tuple) and val[0] == "adt":
                ok = all(i == self.ki or x is fld(tok, i) or x == fld(tok, i) for i, x in enumerate(val[3]))
                out.append((idx, val[3][self.ki] if ok else None))
            elif val is tok or val == tok:
                continue
            else:
                out.append((idx, False))
        return out

    def name(self, k):
        """Name of a constant kind."""
        if isinstance(k, tuple) and k[0] == "adt" and k[1].endswith("TokenKind"):
            n = self.kinds[k[2]]
            if k[2] == self.KW:
                x = k[3][0]
                while isinstance(x, tuple) and x[0] in ("String", "str", "&", "s"):
                    x = x[1]
                return ("KEYWORD", x) if isinstance(x, str) else None
            return (n, None)
        return None

    def upgrades(self, l):
        for q in l.backs:
            for _, k in self.updates(l, q):
                n = self.name(k) if k else None
                if n and n[0] == "KEYWORD":
                    return True
        return False

    # ------------------------------------------------------------ loops
    def span(self, l, slack):
        """The loop visits every token (but the last one, when slack is 1)."""
        w = self.w
        ok = l.entry[l.pos] == 0
        self.judge({"C09"}, "from-first", ok if isinstance(l.entry[l.pos], int) else None, True, w, "the filter starts at token %s" % show(l.entry[l.pos]))
        n = slen_vec(l.seqphi)
        for x in l.exits:
            t = x.truth(lez(lsub(ladd(n, -slack), l.pos)))
            self.judge({"C09"}, "to-last", 1 if t == 1 else 0, self.known(x, l, [l.pos]), w, "the filter may stop before the last token")

    def check_plain(self, l):
        w = self.w
        self.span(l, 0)
        k = self.kind(self.token_at(l, l.pos))
        for q in l.backs:
            v, ex, text, no = self.kind_of(q, k)
            ups = self.updates(l, q)
            known = self.known(q, l, [l.pos])
            self.plain_step(q, l, v, ex, ups, known, True)

    def plain_step(self, q, l, v, ex, ups, known, must):
        w = self.w
        for idx, nk in ups:
            n = self.name(nk) if nk else None
            if idx is not l.pos or nk is None:
                self.judge({"C09"}, "only-kind", 0 if idx is None or nk is None else None, known, w, "the filter changes more than the current token's kind")
                continue
            ok = None if n is None or v is None and not ex else 1 if v is not None and PLAIN.get(self.kinds[v]) == n[0] else 0
            self.judge({"C09"}, "plain:kind", ok, known, w, "a token of kind %s becomes %s" % (self.kinds[v] if v is not None else "?", n))
        if not ups and must:
            for a, b in PLAIN.items():
                if a in self.kinds and (v == self.kinds.index(a) or v is None and self.kinds.index(a) not in ex):
                    self.judge({"C09"}, "plain:" + a, 0, known, w, "%s stays %s, which the grammar does not know" % (a, a))
                elif v is not None or True:
                    self.judge({"C09"}, "plain:other", 1, known, w, "")

    def candidate(self, l, q):
        """Index terms of tokens other than the current one that the partition looks at."""
        out = []
        for src in (q.facts, q.eqs, q.strs, q.ne, q.iv):
            for t in src:
                for s in subterms(t):
                    if s.op == "elem" and unwrap(s.args[0]) is l.seqphi and s.args[1] is not l.pos and s.args[1] not in out:
                        out.append(s.args[1])
        return out

    def search_ok(self, l, j, q):
        """Is index j the next token after the current one that is not a comment?  1 yes, 0 no, None unknown; plus
        whether it exists."""
        w = self.w
        nxt = ladd(l.pos, 1)
        if same(q, j, nxt) == 1:
            return "next"
        s = self.by_phi.get(j)
        if s is None:
            return None
        if s in self.search:
            return self.search[s]
        self.search[s] = None
        e = s.entry[j]
        if not (isinstance(e, (int, T)) and same(s.head, e, nxt) == 1):
            d = None
            try:
                d = s.head.norm(lsub(e, nxt))
            except Unmodelled:
                pass
            self.judge({"C09"}, "search:from", 0 if isinstance(d, int) else None, True, w, "the search for the next token starts at %s" % show(e))
            return None
        tok = self.kind(self.token_at(l, j))
        ok = True
        for b in s.backs:
            known = self.known(b, l, [j])
            v, ex, _, _ = self.kind_of(b, tok)
            if same(b, s.next(b)[j], ladd(j, 1)) != 1:
                self.judge({"C09"}, "search:advance", None, known, w, "the search moves to %s" % show(s.next(b)[j])[:60])
                ok = False
                continue
            c = v in self.comments if v is not None else None
            if not self.judge({"C09", "C10"}, "search:skips-comments", 1 if c else 0, known, w,
                              "the search for the next token may skip a token of kind %s" % (self.kinds[v] if v is not None else "other than " + ", ".join(self.kinds[i] for i in sorted(ex)) if ex else "any")):
                ok = False
        n = slen_vec(l.seqphi)
        for x in s.exits:
            if x.truth(lez(lsub(n, j))) == 1:
                continue
            known = self.known(x, l, [j])
            v, ex, _, _ = self.kind_of(x, tok)
            stops = 1 if v is not None and v not in self.comments or v is None and set(self.comments) <= set(ex) else 0
            if not self.judge({"C09", "C10"}, "search:stops-at-token", stops, known, w,
                              "the search for the next token may stop at a %s" % ("comment" if v is None else self.kinds[v])):
                ok = False
        self.search[s] = "search" if ok else None
        return self.search[s]

    def check_main(self, l):
        w = self.w
        self.span(l, 1)
        self.done = set()
        cur = self.kind(self.token_at(l, l.pos))
        five = self.table
        for q in l.backs:
            v, ex, text, no = self.kind_of(q, cur)
            ups = self.updates(l, q)
            js = self.candidate(l, q)
            known = self.known(q, l, [l.pos] + js)
            bad = [u for u in ups if u[1] is None or u[0] is not l.pos]
            for u in bad:
                self.judge({"C09"}, "only-kind", 0 if u[1] is None or u[0] is None else None, known, w, "the filter changes more than the current token's kind")
            if bad:
                continue
            names = [self.name(k) for _, k in ups]
            if any(n is None for n in names):
                self.judge({"C09"}, "value", None, known, w, "a token's kind becomes %s" % show(ups)[:80])
                continue
            # does the current token belong to the five?
            if v == self.KW and text in five:
                want, fol = five[text]
                st, wit = self.follower(l, q, js, fol, known)
                got = [n for n in names]
                if got and any(n != ("KEYWORD", want) for n in got):
                    self.judge({"C09"}, "kw:" + text, 0, known, w, "%s becomes %s" % (text, got))
                elif st == "unknown":
                    self.judge({"C09"}, "kw:" + text, None, known, w, "the next token was not recognised")
                elif st == "mixed":
                    self.judge({"C09"}, "kw:" + text, 0, known, w, "%s before %s %s" % (text, wit, "becomes " + want if got else "stays " + text))
                else:
                    self.judge({"C09"}, "kw:" + text, 1 if bool(got) == (st == "yes") else 0, known, w,
                               "%s before %s %s" % (text, wit, "becomes " + want if got else "stays " + text))
                self.done.add(text)
                continue
            may = [k for k in five if (v == self.KW or v is None and self.KW not in ex) and text is None and k not in no]
            if names:
                if v is not None and self.kinds[v] in PLAIN and names == [(PLAIN[self.kinds[v]], None)]:
                    self.judge({"C09"}, "plain:kind", 1, known, w, "")
                else:
                    self.judge({"C09"}, "other", 0, known, w, "a token of kind %s %s becomes %s" % (self.kinds[v] if v is not None else "?", text or "", names))
            elif may:
                # a partition that leaves one of the five alone without looking at the next token
                st = [self.follower(l, q, js, five[k][1], known) for k in may]
                if any(x[0] == "unknown" for x in st):
                    self.judge({"C09"}, "kw:" + may[0], None, known, w, "the next token was not recognised")
                elif any(x[0] in ("mixed", "yes") for x in st):
                    self.judge({"C09"}, "kw:" + may[0], 0, known, w, "%s is left alone before %s" % (may[0], st[0][1]))
                else:
                    self.judge({"C09"}, "other", 1, known, w, "")
            else:
                self.judge({"C09"}, "other", 1, known, w, "")

    def follower(self, l, q, js, fol, known):
        """What the partition says about the next non-comment token: yes (a follower), no, mixed, unknown."""
        n = slen_vec(l.seqphi)
        if not js:
            # either nothing was looked at, or the search found nothing
            s = [x for x in self.loops if any(e[0] == "loop" and e[1] == x.key for e in l.own(q)) and x is not l]
            for x in s:
                for ph in x.phis:
                    if q.truth(lez(lsub(n, ph))) == 1 and self.search_ok(l, ph, q) == "search":
                        return "no", "the end of the text"
            if q.truth(lez(lsub(ladd(n, -1), l.pos))) == 1:
                return "no", "the end of the text"
            return ("unknown" if s or not known else "mixed"), "any token"
        if len(js) > 1:
            js = [j for j in js if self.search_ok(l, j, q)]
            if len(js) != 1:
                return "unknown", "?"
        j = js[0]
        how = self.search_ok(l, j, q)
        if how is None:
            return "unknown", "?"
        if q.truth(lez(lsub(n, j))) == 1:
            return "no", "the end of the text"
        v, ex, text, no = self.kind_of(q, self.kind(self.token_at(l, j)))
        if v is not None and v in self.comments:
            if how == "next":
                return "mixed", "a comment and then " + fol[0]
            return "no", "a comment (not reached)"
        if how == "next" and v is None and not set(self.comments) <= ex and not (v == self.KW):
            return "mixed", "a comment and then " + fol[0]
        if v is not None and v != self.KW or v is None and self.KW in ex:
            return "no", "another kind of token"
        if v is None:
            return "mixed", "any token"
        if text is not None:
            return ("yes" if text in fol else "no"), text
        left = [f for f in fol if f not in no]
        if not left:
            return "no", "another keyword"
        return "mixed", left[0]


def report(chk, prog, pid, prefix=""):
    obs = []

    def judge(tags, oid, ok, known, w, detail):
        if ok == 1 or ok is True:
            obs.append((tags, oid, True, w, ""))
            return True
        obs.append((tags, oid, None if ok is None or not known else False, w, detail))
        return False
    f = Filter(prog, judge).run()

    class D:
        pass
    from . import driver
    d = D()
    d.obs = [(t, "filter:" + i, o, w, x) for t, i, o, w, x in obs]
    driver.emit(chk, d, pid, prefix, "")
    chk.sample({"followers from": f.source, "table": {k: [v[0]] + v[1] for k, v in f.table.items()}})
