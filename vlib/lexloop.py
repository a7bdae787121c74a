"""The loop of lex(): every token of the scanner is handed on once, in order and unchanged; errors end the scan."""
from .dump import AnalysisError, where
from .eng import Engine, Path, T, Unmodelled, mk, adt, ladd, lsub, lez, eqz, show, slen, sslice
from .driver import atoms, loops_of, same, slen_vec, fld, RES
from .rules import Scanner, LexShape, reaches, text_is
from .scan import subterms

OPT = "std::option::Option"


class LexLoop:
    def __init__(self, prog, judge):
        self.prog, self.judge = prog, judge
        self.sc = sc = Scanner(prog)
        self.shape = sc.shape
        self.fn = LexShape(sc).fn
        self.w = where(self.fn)
        self.kinds = [v["name"] for v in prog.adts[sc.token_adt]["variants"]]
        self.s = mk("sym", ("input",), "str")
        self.err = mk("sym", ("scan error",), None)
        self.made = {}

    def kind_at(self, n):
        return self.made.setdefault(n, mk("sym", ("kind%d" % n,), self.sc.token_adt))

    def model(self, e, p, a, c):
        ref = a[0]
        own = 0
        for x in reversed(p.events):
            if x[0] == "loop":
                break
            own += x[0] == "tok"
        n = own
        before = tuple(self.get(e, p, ref, f) for f in ("index_bytes", "state", "input"))
        for f in LexShape.FIELDS:
            e.write(p, (ref[0], ref[1], ref[2] + (("f", self.shape.field(f), "usize"),)), mk("sym", ("at%d.%s" % (n, f),), "usize"))
        y, E, N, I = (mk("sym", ("at%d.%s" % (n, f),), "usize") for f in ("yylloc_bytes", "yyllocend_bytes", "yyleng", "index_bytes"))
        e.write(p, (ref[0], ref[1], ref[2] + (("f", self.shape.field("state"), self.shape.state_ty),)), mk("sym", ("at%d.state" % n,), self.shape.state_ty))
        L = slen(self.s)
        for x, z in ((y, E), (I, L), (E, L), (ladd(I, N), L), (ladd(y, N), L), (0, y), (0, I), (0, N)):
            p.assume(lez(lsub(x, z)))
        out = []
        for what, v in (("err", adt(RES, 1, self.err)), ("none", adt(RES, 0, adt(OPT, 0))), ("some", adt(RES, 0, adt(OPT, 1, self.kind_at(n))))):
            q = p.fork()
            q.events = q.events + (("tok", what, n, ref, before),)
            out += c.finish(q, v)
        return out

    def get(self, e, p, ref, f):
        return e.read(p, (ref[0], ref[1], ref[2] + (("f", self.shape.field(f), self.shape.ftys[self.shape.field(f)]),)))

    def run(self):
        e = self.e = Engine(self.prog, panics=False, models={self.sc.fn["def"]: self.model})
        self.finals = e.run(self.fn, [("str", self.s)], Path())
        self.loops = [l for l in loops_of(e) if any(x[0] == "tok" for q in l.backs + l.exits for x in l.own(q))]
        if len({l.key for l in self.loops}) != 1:
            raise AnalysisError("the loop that collects the tokens was not found")
        for l in self.loops:
            self.by_loop(l)
        for q in self.finals:
            if q.status == "return" and not any(x[0] == "tok" for x in q.events):
                r = q.ret
                ok = isinstance(r, tuple) and r[0] == "adt" and r[1] == RES
                nul = ok and r[2] == 1
                # rejected before the scan: only for a NUL byte
                if nul:
                    self.judge({"C04", "C12"}, "lex:early-error", 1 if self.about_nul(q) else None, True, self.w, "the text is rejected before it is scanned")
                else:
                    self.judge({"C01", "C04"}, "lex:early-result", None, True, self.w, "a result is returned without scanning")

    def about_nul(self, q):
        ts = [t for t in q.facts if isinstance(t, T)]
        fs = [t for t in atoms(q) if t.op.startswith("str_") and self.s in set(subterms(t))]
        return len(fs) == 1 and "\0" in repr(fs[0].args[1:]).encode().decode("unicode_escape")

    # ------------------------------------------------------------ one pass
    def familiar(self, q):
        for t in atoms(q):
            if t.op in ("len", "phi", "sym", "elem", "slice", "byte", "lower", "bound", "streq") or t.op.startswith("str_"):
                continue
            if t.op in ("discr", "fld", "as"):
                x = t
                while isinstance(x, T) and x.op in ("discr", "fld", "as"):
                    x = x.args[0]
                if isinstance(x, T) and x.op in ("sym", "phi", "elem"):
                    continue
            return False
        return True

    def tokens(self, l, v):
        """(elements appended, base kept) of a token list."""
        if isinstance(v, tuple) and v[0] == "vec" and isinstance(v[1], T):
            return v[1], v[2]
        return v, None

    def by_loop(self, l):
        w = self.w
        vec = [x for x in l.phis if x.op == "phi" and isinstance(l.entry[x], tuple) and l.entry[x][0] == "vec"]
        vec = [x for x in vec if any(l.next(q)[x] is not x and self.pushed(l, q, x) is not None for q in l.backs)] or vec
        if len(vec) != 1:
            raise AnalysisError("the list of tokens was not found")
        vec = vec[0]
        ent = l.entry[vec]
        self.judge({"C01", "C26"}, "lex:starts-empty", 1 if not ent[2] and (ent[1] is None or ent[1] == 0) else None, True, w, "the list starts as %s" % show(ent)[:60])
        refs = {x[3] for q in l.backs + l.exits for x in l.own(q) if x[0] == "tok"}
        if len(refs) == 1:
            ref = refs.pop()
            p0 = l.entry_path
            i0, st0, in0 = (self.get(self.e, p0, ref, f) for f in ("index_bytes", "state", "input"))
            self.judge({"C01", "C26", "C07"}, "lex:starts-at-0", same(p0, i0, 0), True, w, "the scan starts at %s" % show(i0)[:60])
            self.judge({"C07", "C26"}, "lex:starts-INITIAL", 1 if st0 == self.shape.mode("INITIAL") else 0 if isinstance(st0, tuple) else None, True, w, "the scan starts in mode %s" % show(st0)[:60])
            c = in0
            while isinstance(c, tuple) and c[0] in ("String", "str", "&"):
                c = c[1]
            self.judge({"C01", "C26", "C07"}, "lex:scans-input", 1 if c is self.s else None, True, w, "the scanner is given %s" % show(in0)[:60])
        for q in l.backs:
            known = self.familiar(q)
            t = [x for x in l.own(q) if x[0] == "tok"]
            if len(t) != 1:
                self.judge({"C01", "C12", "C26"}, "lex:one-token", None, True, w, "%d tokens are scanned in one pass" % len(t))
                continue
            t = t[0]
            if t[1] == "err":
                self.judge({"C12"}, "lex:error", 0, known, w, "an error of the scanner does not end the scan")
                continue
            if t[1] == "none":
                self.judge({"C01", "C03"}, "lex:end", 0 if known else None, known, w, "the scan goes on after the end of the input")
                continue
            k = self.kind_at(t[2])
            items = self.pushed(l, q, vec)
            if items is None:
                self.judge({"C01", "C26"}, "lex:push", None, True, w, "the list becomes %s" % show(l.next(q)[vec])[:80])
                continue
            self.judge({"C01", "C26"}, "lex:push", 1 if len(items) == 1 else 0, known, w, "%d tokens are recorded for one token of the scanner" % len(items))
            if len(items) == 1:
                self.item(q, items[0], k, t, known)
        seen = set()
        for q in l.exits:
            known = self.familiar(q)
            t = [x for x in l.own(q) if x[0] == "tok"]
            if not t:
                ok = None
                self.judge({"C01"}, "lex:complete", 0, known, w, "the scan may stop before the scanner has reached the end")
                continue
            t = t[-1]
            if t[1] == "some":
                d = mk("discr", (self.kind_at(t[2]),), "isize")
                eof = q.truth(eqz(lsub(d, self.kinds.index("EOF")))) if "EOF" in self.kinds else 0
                if eof != 1:
                    self.judge({"C01", "C12"}, "lex:complete", 0, known, w, "the scan may stop at a token")
        # what is returned
        for q in self.finals:
            if q.status != "return":
                continue
            ts = [x for x in q.events if x[0] == "tok"]
            if not ts:
                continue
            known = self.familiar(q)
            r = q.ret
            if not (isinstance(r, tuple) and r[0] == "adt" and r[1] == RES):
                self.judge({"C12"}, "lex:result", None, True, w, show(r)[:80])
                continue
            if ts[-1][1] == "err":
                ok = r[2] == 1 and (r[3][0] is self.err or r[3][0] == self.err)
                self.judge({"C12"}, "lex:error", 1 if ok else 0 if r[2] == 0 else self.about(r[3][0]), known, w, "an error of the scanner becomes %s" % show(r)[:100])
                continue
            if r[2] == 1:
                self.judge({"C12", "C04"}, "lex:invented-error", 0, known, w, "an error is reported although the scanner found none")
                continue
            v = r[3][0]
            ok = isinstance(v, tuple) and v[0] == "vec" and v[1] is vec and not v[2]
            self.judge({"C01", "C26", "C04"}, "lex:returns-all", 1 if ok else None, known, w, "lex() returns %s" % show(v)[:100])

    def about(self, v):
        return None if self.err in set(subterms(v)) else 0

    def pushed(self, l, q, vec):
        v = l.next(q)[vec]
        if v is vec:
            return ()
        if isinstance(v, tuple) and v[0] == "vec" and v[1] is vec:
            return v[2]
        return None

    def item(self, q, it, k, t, known):
        w = self.w
        n = t[2]
        names = self.prog.adts[it[1]]["variants"][0]["fields"]
        fs = {(x if isinstance(x, str) else x["name"]): v for x, v in zip(names, it[3])}
        y, E, N, I = (mk("sym", ("at%d.%s" % (n, f),), "usize") for f in ("yylloc_bytes", "yyllocend_bytes", "yyleng", "index_bytes"))
        s, e, kd, val = (fs.get(x) for x in ("start_byte_pos", "end_byte_pos", "kind", "value"))
        ok = kd is k
        if not ok and isinstance(kd, tuple) and kd[0] == "adt":
            d = q.eqs.get(mk("discr", (k,), "isize"))
            ok = d == kd[2] if isinstance(d, int) else None
        else:
            ok = ok or None
        self.judge({"C01", "C04", "C26"}, "lex:kind", 1 if ok else 0 if ok is False and isinstance(kd, tuple) else None, known, w, "the recorded kind is %s" % show(kd)[:60])
        self.judge({"C01", "C26"}, "lex:start", 1 if same(q, s, y) == 1 else 0 if same(q, s, y) == 0 else None, known, w, "a token starts at %s" % show(s)[:60])
        ends = [same(q, e, x) for x in (E, ladd(y, N))]
        self.judge({"C01", "C26"}, "lex:end-kinds", 1 if 1 in ends else None, known, w, "a token ends at %s" % show(e)[:60])
        self.judge({"C01"}, "lex:text", text_is(q, val, self.s, s, e), known, w, "the text is %s" % show(val)[:80])
        ref = t[3]
        idx = self.get(self.e, q, ref, "index_bytes")
        st = self.get(self.e, q, ref, "state")
        self.judge({"C07", "C26"}, "lex:mode-kept", 1 if st is mk("sym", ("at%d.state" % n,), self.shape.state_ty) else 0 if isinstance(st, tuple) and st[0] == "adt" else None, known, w, "between two tokens the mode becomes %s" % show(st)[:60])
        inp = self.get(self.e, q, ref, "input")
        self.judge({"C01", "C26", "C07"}, "lex:input-kept", 1 if inp == t[4][2] else None, known, w, "between two tokens the input becomes %s" % show(inp)[:60])
        self.judge({"C01", "C26", "C03"}, "lex:advance", same(q, idx, ladd(I, N)), known, w, "the scan goes on at %s" % show(idx)[:60])


def report(chk, prog, pid):
    obs = {}

    def judge(tags, oid, ok, known, w, detail=""):
        if pid not in tags:
            return
        st = True if ok in (1, True) else None if ok is None or not known else False
        if pid == "C03" and st is False:
            st = None
        obs.setdefault(oid, []).append((st, w, detail))
    l = LexLoop(prog, judge)
    l.run()
    chk.count("lex_partitions", sum(len(x.backs) + len(x.exits) for x in l.loops) + len(l.finals))
    for oid, xs in sorted(obs.items()):
        bad = [x for x in xs if x[0] is False]
        unk = [x for x in xs if x[0] is None]
        x = (bad or unk or xs)[0]
        if bad:
            chk.refuted(oid, x[1], x[2])
        elif unk:
            chk.undecided(oid, x[1], x[2])
        else:
            chk.proved(oid, x[1], "%d partitions" % len(xs))
