"""The parser driver: one iteration of the LR loop, the loop over remaining tokens, and the emission of the tree,
summarised by abstract interpretation and compared with what an LR driver over these tables has to do.

Obligations carry the properties they belong to; a partition that is decided by anything outside the vocabulary of an
LR driver (token kinds, spans, the action and goto of the current state, lengths of the driver's own sequences) leaves
its obligations undecided instead of refuting them."""
from .dump import AnalysisError, where
from .eng import Engine, Path, T, Arr, Unmodelled, Budget, mk, lift, ladd, lsub, lez, eqz, show, adt, slen, sslice, some, lin_parts
from .scan import subterms

RES, OPT = "std::result::Result", "std::option::Option"
ERROR = 0x7FFF


def last(name):
    return name.split("::")[-1]


def leaves(t, out):
    """The atoms an integer or boolean term is built from."""
    if isinstance(t, T):
        if t.op == "lin":
            for x, _ in t.args[1]:
                leaves(x, out)
        elif t.op in ("lez", "eqz", "not", "and", "or"):
            for x in t.args:
                leaves(x, out)
        else:
            out.add(t)
    return out


def atoms(p):
    out = set()
    for src in (p.facts, p.eqs, p.ne, p.iv, p.strs):
        for k in src:
            leaves(k, out)
    for k in p.lins:
        leaves(k, out)
    return out


def find_it(v, pos, out):
    """Iterators over a sequence whose position is the term `pos`."""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "it" and v[1] in ("ref", "val") and v[3] is pos:
            out.append(v[2])
        for x in v:
            find_it(x, pos, out)


class Loop:
    def __init__(self, eng, key, rec):
        self.key = key
        self.head, self.backs, self.exits = rec
        self.changed = eng.loop_changed[id(self.head)]
        self.eng = eng
        self.entry_path = eng.loop_entry[id(self.head)]
        self.entry = eng._entry_map(self.entry_path, self.changed)
        self.phis = list(self.entry)

    def next(self, q):
        return self.eng._entry_map(q, self.changed)

    def own(self, q):
        """The events of one pass through this loop (or after it)."""
        k = max((i for i, e in enumerate(q.events) if e[0] == "loop" and e[1] == self.key), default=None)
        return [] if k is None else list(q.events[k + 1:])


def loops_of(eng):
    return [Loop(eng, key, rec) for key, recs in eng.loop_log.items() for rec in recs]


def same(p, a, b):
    """Equality of two values in a partition: 1 / 0 / None."""
    if a is b or a == b:
        return 1
    if isinstance(a, (int, T)) and isinstance(b, (int, T)):
        try:
            d = p.norm(lsub(p.norm(a), p.norm(b)))
        except Unmodelled:
            return None
        if isinstance(d, int):
            return 1 if d == 0 else 0
        return p.truth(eqz(d))
    return None


# what the termination argument takes from the LR step; a deviation there does not by itself make parsing endless
STEPS = {"shift:when", "reduce:when", "reduce:once", "reduce:rule", "reduce:name", "reduce:goto", "reduce:goto-valid", "reduce:pop",
         "reduce:count", "reduce:count-end", "shift:once", "shift:stack", "reduce:stack"}


class Driver:
    def __init__(self, prog):
        self.prog = prog
        self.obs = []
        self.parse = self.the("cst::parse")
        self.lookup = self.the("lookup_parser_action")
        self.goto = self.the("lookup_goto_state")
        self.tok_id = self.the("token_kind_to_component_id")
        self.rule_id = self.the("rule_name_to_component_id")
        self.lex = self.the("lexer::lex")
        self.filter = self.the("init_tokens")
        self.emit_root = self.the("cst::Parser::parse")
        self.emit_rec = self.the("parse_rec")
        self.from_raw = {f["def"] for f in prog.fns.values() if f["def"].endswith("Syntax>::from_raw") or f["def"].endswith("SyntaxKind::from_raw")}
        self.tokf = self.fields("lexer::Token", "start_byte_pos", "end_byte_pos", "kind", "value")
        self.nodef = self.fields("cst::Node", "token", "component_id", "children", "start_byte_pos", "end_byte_pos")
        self.kinds = [v["name"] for v in prog.adt("lexer::TokenKind")["variants"]]
        self.skinds = [v["name"] for v in prog.adt("syntax_kind::SyntaxKind")["variants"]]
        for n in ("Whitespace", "Root", "C_COMMENT", "SQL_COMMENT"):
            if n not in self.skinds:
                raise AnalysisError("no syntax kind %s" % n)
        self.comment = [self.kinds.index("C_COMMENT"), self.kinds.index("SQL_COMMENT")]
        self.s = mk("sym", ("input",), "str")
        self.toks = mk("sym", ("toks",), "std::vec::Vec<%s>" % self.token_ty())
        self.w = where(self.parse)

    # ------------------------------------------------------------ lookups in the program
    def the(self, name):
        fs = self.prog.find(name)
        if len(fs) != 1:
            raise AnalysisError("%s was not found" % name)
        return fs[0]

    def token_ty(self):
        for n in self.prog.adts:
            if n.endswith("lexer::Token"):
                return n
        raise AnalysisError("the Token structure was not found")

    def fields(self, ty, *names):
        fs = self.prog.adt(ty)["variants"][0]["fields"]
        fs = [f if isinstance(f, str) else f["name"] for f in fs]
        try:
            return {n: fs.index(n) for n in names}
        except ValueError:
            raise AnalysisError("%s has other fields: %s" % (ty, fs))

    # ------------------------------------------------------------ obligations
    def ob(self, tags, oid, ok, where_, detail):
        self.obs.append((tags, oid, ok, where_, detail))
        if oid in STEPS and "C03" not in tags:
            self.obs.append(({"C03"}, oid, None if ok is False else ok, where_, detail))
        return ok

    def judge(self, tags, oid, ok, known, where_, detail):
        """ok None or an unfamiliar partition: undecided when it is not proved."""
        if ok == 1 or ok is True:
            return self.ob(tags, oid, True, where_, "")
        if ok is None or not known:
            return self.ob(tags, oid, None, where_, detail)
        return self.ob(tags, oid, False, where_, detail)

    # ------------------------------------------------------------ the driver's summary
    def run(self):
        ok = mk("sym", ("scanned",), "bool")
        self.scanned = ok
        toks = ("vec", self.toks, (), ())
        err = mk("sym", ("scan error",), None)

        def lex(e, p, a, c):
            p.event("lex", e.snap(p, a[0]))
            return c.split(p, ok, lambda q: c.finish(q, adt(RES, 0, toks)), lambda q: c.finish(q, adt(RES, 1, err)))

        def filt(e, p, a, c):
            p.event("filter", e.snap(p, a[0]))
            return c.finish(p, ("tup", ()))
        opaque = {f["def"] for f in (self.lookup, self.goto, self.tok_id, self.rule_id, self.emit_root)} | self.from_raw
        self.err = err
        self.eng = e = Engine(self.prog, panics=False, opaque=opaque,
                              models={self.lex["def"]: lex, self.filter["def"]: filt})
        self.finals = e.run(self.parse, [("str", self.s)])
        self.loops = loops_of(e)
        self.finals = [q for q in self.finals if self.refine(q)]
        self.by_phi = {}
        for l in self.loops:
            l.backs = [q for q in l.backs if self.refine(q)]
            l.exits = [q for q in l.exits if self.refine(q)]
            for x in l.phis:
                self.by_phi[x] = l
        self.find_roles()
        self.check_setup()
        for q in self.main.backs:
            self.check_step(q)
        self.check_results()
        self.check_tail()
        self.check_emission()

    def guarded(self, tags, oid, f):
        try:
            f()
        except (AnalysisError, Budget, Unmodelled) as x:
            self.ob(set(tags), oid, None, self.w, "%s: %s" % (type(x).__name__, x))

    def calls(self, q, fn, events=None):
        return [e for e in (q.events if events is None else events) if e[0] == "call" and e[1] in (fn["def"], fn["name"])]

    def find_roles(self):
        mains = [l for l in self.loops if any(self.calls(q, self.lookup, l.own(q)) for q in l.backs + l.exits)]
        if not mains:
            raise AnalysisError("no loop over parser actions was found in %s" % self.parse["name"])
        # the run over at least one scanned token covers the run over none: same code, same generalised state
        full = [l for l in mains if l.head.truth(eqz(slen_vec(self.toks))) != 1] or mains
        self.main = l = full[0]
        self.mains = mains
        if len({x.key for x in mains}) != 1:
            raise AnalysisError("more than one loop over parser actions")
        # the stack: the sequence whose last element holds the state that is looked up
        st = set()
        self.A = {}
        for q in l.backs + l.exits:
            for c in self.calls(q, self.lookup, l.own(q)):
                a = c[2][0]
                base = top_of(a)
                if base is not None:
                    st.add(base)
        st = [x for x in st if x in l.entry]
        if len(st) != 1:
            raise AnalysisError("the state stack was not recognised")
        self.stack = st[0]
        # the token position: the source of the token whose kind is numbered
        pos = set()
        for q in l.backs + l.exits:
            for c in self.calls(q, self.tok_id, l.own(q)):
                for t in subterms(c[2][0]):
                    if t.op == "elem" and self.toks in set(subterms(t.args[0])):
                        pos |= {x for x in l.phis if x in set(subterms(t.args[1]))}
        if len(pos) != 1:
            raise AnalysisError("the token position was not recognised")
        self.pos = pos.pop()
        src = []
        for v in l.head.mem.values():
            find_it(v, self.pos, src)
        src = [x for x in src if isinstance(x, tuple) and x[0] == "vec"]
        if not src:
            raise AnalysisError("the token sequence was not recognised")
        self.seq = src[0]
        self.tok = l.eng.elem(l.head.fork(), self.seq, self.pos)
        f = self.tokf
        self.ts, self.te, self.tk, self.tv = (self.field(self.tok, f[n]) for n in ("start_byte_pos", "end_byte_pos", "kind", "value"))
        # extras: the sequence handed to the tree builder
        ex = set()
        for q in self.finals:
            for c in self.calls(q, self.emit_root):
                for a in c[2]:
                    if isinstance(a, tuple) and a[0] == "vec" and isinstance(a[1], T):
                        b = a[1]
                        while b in self.by_phi and b not in l.entry:
                            v = self.by_phi[b].entry[b]
                            if not (isinstance(v, tuple) and v[0] == "vec" and isinstance(v[1], T)):
                                break
                            b = v[1]
                        if b in l.entry:
                            ex.add(b)
        if len(ex) != 1:
            raise AnalysisError("the list of comments and whitespace was not recognised")
        self.extras = ex.pop()
        # the end of the last consumed token: the remaining integer state
        cand = set()
        for x in l.phis:
            if x in (self.pos, self.stack, self.extras) or x.op == "len" or isinstance(l.entry[x], tuple):
                continue
            if any(same(q, l.next(q)[x], self.te) == 1 for q in l.backs if self.consumes(q)):
                cand.add(x)
        if len(cand) != 1:
            raise AnalysisError("the end position of the last token was not recognised")
        self.lastpos = cand.pop()

    def field(self, v, i):
        p = Path()
        return self.eng.proj(p, v, ["f", i]) if False else fld(v, i)

    def consumes(self, q):
        return same(q, self.main.next(q)[self.pos], ladd(self.pos, 1)) == 1

    # ------------------------------------------------------------ vocabulary
    def refine(self, q):
        """Facts about the number of a token's kind become facts about the kind; False if they contradict others."""
        ids = set()
        for t in atoms(q):
            x = t
            while isinstance(x, T) and x.op in ("as", "fld"):
                x = x.args[0]
            if x is not t and self.is_call(x, self.tok_id):
                ids.add((t, x))
        if not ids:
            return True
        number = {n: i for i, n in enumerate(self.skinds)}
        for t, k in ids:
            arg = k.args[1]
            while isinstance(arg, tuple) and arg[0] == "&":
                arg = arg[1]
            if not isinstance(arg, T):
                continue
            d = mk("discr", (arg,), "isize")
            for i, n in enumerate(self.kinds):
                if n not in number:
                    continue
                r = q.truth(eqz(lsub(t, number[n])))
                if r is not None and not q.assume(eqz(lsub(d, i)), r):
                    return False
        return True

    def text_of_input(self, t):
        """A value computed from the text: of a token, of an extra, or of the input."""
        if not isinstance(t, T):
            return not isinstance(t, tuple) or all(self.text_of_input(x) for x in t)
        if t is self.s or t.op in ("len", "phi", "elem", "sym"):
            return True
        if t.op in ("fld", "as", "discr"):
            return self.text_of_input(t.args[0])
        if t.op in ("slice", "byte", "lower", "upper", "bound", "streq", "concat", "lin", "min", "max", "trim", "trim_end", "trim_start") or t.op.startswith("str_") or t.op.startswith("cmp"):
            return all(self.text_of_input(x) for x in t.args)
        return False

    def familiar(self, q):
        """Every fact of the partition is about something an LR driver may look at."""
        ok = True
        for t in atoms(q):
            if t is self.scanned or t.op in ("len", "phi"):
                continue
            if t.op == "discr":
                x = t.args[0]
                if x is self.tk or self.is_call(x, self.tok_id) or (isinstance(x, T) and x.op == "fld" and self.toks in set(subterms(x))):
                    continue
            if t.op == "call" and any(self.is_call(t, f) for f in (self.lookup, self.goto, self.rule_id, self.tok_id)):
                continue
            if t.op in ("fld", "as"):
                x = t
                while isinstance(x, T) and x.op in ("fld", "as", "discr"):
                    x = x.args[0]
                if isinstance(x, T) and (x.op in ("elem", "sym", "phi") or any(self.is_call(x, f) for f in (self.lookup, self.goto, self.rule_id, self.tok_id))):
                    continue
            if t.op == "elem":
                continue
            if t is self.s or t.op == "sym" or self.text_of_input(t):
                continue
            ok = False
        return ok

    def is_call(self, t, fn):
        return isinstance(t, T) and t.op == "call" and t.args[0] in (fn["def"], fn["name"])

    def is_comment(self, q):
        """1, 0 or None (the partition holds comments and other tokens)."""
        d = mk("discr", (self.tk,), "isize")
        ts = [q.truth(eqz(lsub(d, k))) for k in self.comment]
        if 1 in ts:
            return 1
        v = q.eqs.get(d)
        if isinstance(v, int):
            return 1 if v in self.comment else 0
        if ts == [0, 0]:
            return 0
        return None

    def whitespace(self, v):
        return isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("SyntaxKind") and self.skinds[v[2]] == "Whitespace"

    def token_kind_of(self, q, v):
        """Is v the syntax kind of the current token?"""
        if isinstance(v, T) and v.op == "call" and (v.args[0] in self.from_raw or last(v.args[0]) == "from_raw"):
            raw = v.args[1]
            if isinstance(raw, tuple) and raw[0] == "adt":
                return 1 if self.is_cid(raw[3][0]) else 0
            return None
        if isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("SyntaxKind"):
            d = mk("discr", (self.tk,), "isize")
            k = q.eqs.get(d)
            if k is None:
                for i in self.comment:
                    if q.truth(eqz(lsub(d, i))) == 1:
                        k = i
            if k is None:
                return None
            return 1 if self.kinds[k] == self.skinds[v[2]] else 0
        return None

    def is_cid(self, t):
        """The number of the current token's kind."""
        while isinstance(t, T) and t.op in ("as", "fld"):
            t = t.args[0]
        return self.is_call(t, self.tok_id) and self.tk in set(subterms(t))

    def token_text(self, q, v):
        c = v
        while isinstance(c, tuple) and c[0] in ("str", "String", "&"):
            c = c[1]
        if c is self.tv or c is mk("fld", (self.tok, self.tokf["value"])):
            return 1
        if c in ("", ("s", "")):
            return 0  # tokens with a text of their own are not empty
        if isinstance(c, T) and c.op == "slice" and c.args[0] is self.s:
            return 1 if same(q, c.args[1], self.ts) == 1 and same(q, c.args[2], self.te) == 1 else 0
        if isinstance(c, T) and set(subterms(c)) & {self.tv, self.s} and c.op in ("fld", "as"):
            return 1 if self.tok in set(subterms(c)) and str(c.args[-1]) == str(self.tokf["value"]) else None
        return None

    def slice_of(self, q, v, lo, hi):
        c = v
        while isinstance(c, tuple) and c[0] in ("str", "String", "&"):
            c = c[1]
        if isinstance(c, T) and c.op == "slice" and c.args[0] is self.s:
            return 1 if same(q, c.args[1], lo) == 1 and same(q, c.args[2], hi) == 1 else 0
        if c is self.s:
            return 1 if same(q, 0, lo) == 1 and same(q, slen(self.s), hi) == 1 else 0
        if c in ("", ("s", "")):
            return 1 if same(q, lo, hi) == 1 else 0
        return None

    def pos_is(self, q, a, b):
        """Is the position a the position b?  0 also when the step allows a token for which they differ."""
        r = same(q, a, b)
        if r is not None:
            return r
        known = {self.lastpos, self.ts, self.te, slen(self.s)}
        try:
            d = q.norm(lsub(q.norm(a), q.norm(b)))
            if not (isinstance(d, T) and set(self.linear_atoms(d)) <= known):
                return None
            w = q.fork()
            for c in (lez(lsub(self.lastpos, self.ts)), lez(lsub(ladd(self.ts, 1), self.te)), lez(lsub(self.te, slen(self.s)))):
                if not w.assume(c, 1):
                    return None
            return 0 if w.assume(eqz(d), 0) else None
        except Unmodelled:
            return None

    def linear_atoms(self, d):
        return [x for x, _ in d.args[1]] if d.op == "lin" else [d]

    # ------------------------------------------------------------ before the loop
    def check_setup(self):
        l = self.main
        w = self.w
        ev = l.entry_path.events
        filt = [i for i, e in enumerate(ev) if e[0] == "filter"]
        self.judge({"C09"}, "filter-applied", len(filt) == 1, True, w,
                   "the token filter is applied %d times before parsing" % len(filt))
        for q in self.finals:
            if q.status == "return" and q.truth(self.scanned) == 1 and not any(e[0] == "filter" for e in q.events) \
                    and q.truth(eqz(slen_vec(self.toks))) != 1:
                self.judge({"C09"}, "filter-applied:always", False, self.familiar(q), w, "a path parses tokens the filter has not seen")
        if filt:
            a = ev[filt[0]][1]
            while isinstance(a, tuple) and a[0] == "&":
                a = a[1]
            ok = a == ("vec", self.toks, (), ()) or a is self.toks or (isinstance(a, tuple) and a[0] == "vec" and a[1] is self.toks)
            self.judge({"C09"}, "filter-argument", 1 if ok else None, True, w, "the filter is applied to %s" % show(a)[:80])
        self.judge({"C01", "C04", "C11"}, "all-tokens", 1 if self.seq[1] is self.toks else None, True, w,
                   "the driver reads %s" % show(self.seq)[:100])
        suf = self.seq[2]
        if len(suf) == 1:
            end = suf[0]
            n = slen(self.s)
            p = l.head
            for nm, tags in (("start_byte_pos", {"C01", "C10", "C11"}), ("end_byte_pos", {"C11"})):
                v = fld(end, self.tokf[nm])
                self.judge(tags, "end-token:" + nm, same(p, v, n), True, w,
                           "the end token's %s is %s, not the input's length" % (nm, show(v)))
            from . import tables
            try:
                k, _ = tables.const_fn(self.prog, "end_rule_kind")
                self.judge({"C04"}, "end-token:kind", 1 if fld(end, self.tokf["kind"]) == k else None, True, w, "the end token's kind is not end_rule_kind()")
            except AnalysisError as x:
                self.ob({"C04"}, "end-token:kind", None, w, str(x))
        elif not suf:
            self.judge({"C04", "C11"}, "end-token", False, True, w, "no end token follows the scanned tokens")
        else:
            self.judge({"C04"}, "end-token", None, True, w, "%d tokens are appended" % len(suf))
        ent = l.entry
        v = ent[self.stack]
        ok = None
        if isinstance(v, tuple) and v[0] == "vec" and v[1] is None and len(v[2]) == 1:
            it = v[2][0]
            ok = 1 if it[0] == "tup" and it[1][0] == 0 else 0
        self.judge({"C04"}, "initial-state", ok, True, w, "the stack starts as %s" % show(v)[:120])
        nend = None
        if ok == 1:
            nend = fld(v[2][0][1][1], self.nodef["end_byte_pos"])
            self.judge({"C01", "C16"}, "initial-node-end", same(l.head, nend, 0), True, w, "the bottom node ends at %s" % show(nend))
        self.judge({"C01", "C10"}, "initial-position", same(l.head, ent[self.lastpos], 0), True, w,
                   "the text before position %s would be lost" % show(ent[self.lastpos]))
        v = ent[self.extras]
        self.judge({"C01", "C10"}, "initial-extras", 1 if v in (("vec", None, (), ()),) else None, True, w, show(v)[:80])
        self.judge({"C01", "C04", "C11"}, "initial-token", same(l.head, ent[self.pos], 0), True, w, "the first token read is number %s" % show(ent[self.pos]))

    # ------------------------------------------------------------ one step of the loop
    def action(self, q, own):
        """(action term, number of lookups with the right arguments)"""
        cs = self.calls(q, self.lookup, own)
        if len(cs) != 1:
            return None
        a = cs[0][2]
        good = top_of(a[0]) is self.stack and self.is_cid(a[1])
        A = mk("call", (self.lookup["def"],) + tuple(a))
        for t in list(atoms(q)) :
            for x in subterms(t):
                if self.is_call(x, self.lookup) and x.args[1:] == tuple(a):
                    A = x
        return A if good else False

    def classes(self, q, A):
        """The kinds of action the partition admits."""
        lo, hi = q.itv(A)
        out = set()
        if lo <= ERROR <= hi and q.truth(eqz(lsub(A, ERROR))) != 0:
            out.add("error")
        if q.truth(eqz(lsub(A, ERROR))) == 1:
            return {"error"}
        if hi >= 1 and q.truth(lez(A)) != 1:
            if lo < ERROR or hi > ERROR:
                out.add("shift")
        if lo <= 0 <= hi and q.truth(eqz(A)) != 0:
            out.add("accept")
        if lo <= -1:
            if q.truth(lez(lsub(0, A))) != 1:
                out.add("reduce")
        return out

    def check_step(self, q):
        l = self.main
        own = l.own(q)
        m = l.next(q)
        known = self.familiar(q)
        com = self.is_comment(q)
        pos = same(q, m[self.pos], ladd(self.pos, 1))
        stay = same(q, m[self.pos], self.pos)
        w = self.w
        if pos != 1 and stay != 1:
            self.judge({"C01", "C04", "C03"}, "step:position", 0 if isinstance(p_diff(q, m[self.pos], self.pos), int) else None, known, w,
                       "a step moves from token %s to token %s" % (show(self.pos), show(m[self.pos])))
            return
        st, ex = m[self.stack], m[self.extras]
        idle = stay == 1 and isinstance(st, tuple) and st[0] == "vec" and st[1] is self.stack and not st[2]
        self.judge({"C03"}, "step:progress", 0 if idle or pos != 1 and stay != 1 else 1, known, w,
                   "a step neither reads a token nor changes the parser stack")
        if pos == 1 and com != 0:
            self.step_comment(q, m, own, known, com, st, ex)
            if com is None:
                self.step_shift(q, m, own, known, st, ex)
            return
        if pos == 1:
            self.step_shift(q, m, own, known, st, ex)
            return
        # not consuming: a reduction
        if com == 1 or com is None and known:
            self.judge({"C10", "C04"}, "step:comment-acts", 0 if com == 1 or known else None, known, w,
                       "a comment token takes part in a parser action without being consumed")
        self.step_reduce(q, m, own, known, st, ex)

    def gap(self, q, ex, known, n, tags):
        """The whitespace between the last token and this one; returns the items that follow it."""
        w = self.w
        if not (isinstance(ex, tuple) and ex[0] == "vec" and ex[1] is self.extras_base):
            self.judge(tags, "gap:extras", None, known, w, "extras become %s" % show(ex)[:120])
            return None
        items = list(ex[2])
        t = q.truth(lez(ladd(lsub(self.lp, self.ts), 1)))
        ws = [i for i in items if isinstance(i, tuple) and i[0] == "tup" and self.whitespace(i[1][0])]
        if not ws:
            self.judge({"C01", "C10"}, "gap:emitted", 1 if t == 0 else 0, known, w,
                       "the text between the last token and a token after it is not kept")
            return items
        it = ws[0]
        self.judge({"C10"}, "gap:nonempty", 1 if t == 1 else 0, known, w, "a whitespace token may be emitted where there is no gap")
        self.judge({"C01", "C10"}, "gap:first", 1 if items[0] is it and len(ws) == 1 else 0, known, w, "the whitespace is not put before its token exactly once")
        _, a, b, txt = it[1] if len(it[1]) == 4 else (None, None, None, None)
        self.judge({"C01", "C10"}, "gap:start", self.pos_is(q, a, self.lp), known, w, "whitespace starts at %s" % show(a)[:80])
        self.judge({"C01", "C10"}, "gap:end", self.pos_is(q, b, self.ts), known, w, "whitespace ends at %s" % show(b)[:80])
        self.judge({"C01", "C10"}, "gap:text", self.slice_of(q, txt, self.lp, self.ts), known, w, "the whitespace text is %s" % show(txt)[:100])
        return items[1:]

    @property
    def extras_base(self):
        return self.extras

    @property
    def lp(self):
        return self.lastpos

    def extra_token(self, q, it, known, tags):
        w = self.w
        if not (isinstance(it, tuple) and it[0] == "tup" and len(it[1]) == 4):
            self.judge(tags, "comment:item", None, known, w, show(it)[:100])
            return
        k, a, b, txt = it[1]
        self.judge(tags | {"C05"}, "comment:kind", self.token_kind_of(q, k), known, w, "a comment is given kind %s" % show(k)[:80])
        self.judge(tags, "comment:start", self.pos_is(q, a, self.ts), known, w, "a comment starts at %s" % show(a)[:80])
        self.judge(tags, "comment:end", self.pos_is(q, b, self.te), known, w, "a comment ends at %s" % show(b)[:80])
        self.judge(tags, "comment:text", self.token_text(q, txt), known, w, "a comment's text is %s" % show(txt)[:100])

    def moved(self, q, m, known, tags=frozenset({"C01", "C10"})):
        self.judge(set(tags), "position-follows", self.pos_is(q, m.get(self.lastpos, self.lastpos), self.te), known, self.w,
                   "after a token the last position is %s, not its end" % show(m.get(self.lastpos, self.lastpos))[:80])

    def step_comment(self, q, m, own, known, com, st, ex):
        w = self.w
        if com is None:
            return
        T_ = {"C01", "C10"}
        same_stack = isinstance(st, tuple) and st[0] == "vec" and st[1] is self.stack and not st[2]
        self.judge({"C10", "C04"}, "comment:stack", 1 if same_stack else 0, known, w, "a comment is put on the parser stack")
        rest = self.gap(q, ex, known, 1, T_)
        if rest is not None:
            self.judge(T_, "comment:once", 1 if len(rest) == 1 else 0, known, w, "a comment is kept %d times" % len(rest))
            if rest:
                self.extra_token(q, rest[0], known, T_)
        self.moved(q, m, known)

    def step_shift(self, q, m, own, known, st, ex):
        w = self.w
        com = self.is_comment(q)
        if com is None:
            self.judge({"C10", "C04"}, "shift:comment", 0, known, w, "a comment token can be shifted")
        A = self.action(q, own)
        if A is None or A is False:
            self.judge({"C04", "C03", "C01"}, "shift:action", 0 if A is None else None, known, w,
                       "a token is consumed without one action being looked up for the state on top of the stack and its kind")
            return
        cl = self.classes(q, A)
        self.judge({"C04"}, "shift:when", 1 if cl == {"shift"} else 0, known, w, "a token is consumed on action codes of %s" % sorted(cl))
        if not (isinstance(st, tuple) and st[0] == "vec" and st[1] is self.stack):
            self.judge({"C04", "C01"}, "shift:stack", None, known, w, show(st)[:100])
            return
        self.judge({"C04", "C01"}, "shift:once", 1 if len(st[2]) == 1 else 0, known, w, "a shift pushes %d entries" % len(st[2]))
        if len(st[2]) != 1:
            return
        it = st[2][0]
        self.judge({"C04", "C20"}, "shift:state", same(q, it[1][0], ladd(A, -1)), known, w, "a shift goes to state %s" % show(it[1][0])[:100])
        nd = it[1][1]
        if not (isinstance(nd, tuple) and nd[0] == "adt"):
            self.judge({"C01", "C04"}, "shift:node", None, known, w, show(nd)[:100])
            return
        f = lambda n: nd[3][self.nodef[n]]
        tk = f("token")
        ok = None
        if isinstance(tk, tuple) and tk[0] == "adt" and tk[1] == OPT:
            if tk[2] == 0:
                ok = 0
            else:
                v = tk[3][0]
                if v == self.tok or v is self.tok:
                    ok = 1
                elif isinstance(v, tuple) and v[0] == "adt":
                    ok = self.token_text(q, v[3][self.tokf["value"]])
        self.judge({"C01", "C04"}, "shift:token", ok, known, w, "the shifted node carries %s" % show(tk)[:100])
        self.judge({"C05", "C04"}, "shift:kind", 1 if self.is_cid(f("component_id")) else 0, known, w, "the shifted node's kind number is %s" % show(f("component_id"))[:80])
        self.judge({"C01", "C16"}, "shift:start", self.pos_is(q, f("start_byte_pos"), self.ts), known, w, "the shifted node starts at %s" % show(f("start_byte_pos"))[:80])
        self.judge({"C01", "C16"}, "shift:end", self.pos_is(q, f("end_byte_pos"), self.te), known, w, "the shifted node ends at %s" % show(f("end_byte_pos"))[:80])
        rest = self.gap(q, ex, known, 0, {"C01", "C10"})
        if rest is not None:
            self.judge({"C01", "C10"}, "shift:extras", 1 if not rest else 0, known, w, "a shift adds %d items beside the whitespace" % len(rest))
        self.moved(q, m, known)

    def popped(self, base):
        """(rule-length term or int, children sequence value) of the loop that took symbols off the stack to reach `base`."""
        if base is self.stack:
            return 0, None, None
        l = self.by_phi.get(base)
        if l is None or l is self.main:
            return None
        v = l.entry[base]
        if not (isinstance(v, tuple) and v[0] == "vec" and v[1] is self.stack and not v[2]):
            return None
        return l, base, None

    def step_reduce(self, q, m, own, known, st, ex):
        w = self.w
        A = self.action(q, own)
        if A is None or A is False:
            self.judge({"C04", "C03"}, "reduce:action", 0 if A is None else None, known, w,
                       "the stack changes without one action being looked up for the state on top of it and the token's kind")
            return
        cl = self.classes(q, A)
        self.judge({"C04"}, "reduce:when", 1 if cl == {"reduce"} else 0, known, w, "a reduction happens on action codes of %s" % sorted(cl))
        self.judge({"C01", "C10"}, "reduce:extras", 1 if isinstance(ex, tuple) and ex[1] is self.extras and not ex[2] else 0, known, w,
                   "a reduction changes the list of comments and whitespace")
        self.judge({"C01", "C10"}, "reduce:position", same(q, m[self.lastpos], self.lastpos), known, w, "a reduction moves the last position")
        if not (isinstance(st, tuple) and st[0] == "vec" and isinstance(st[1], T)):
            self.judge({"C04", "C01"}, "reduce:stack", None, known, w, show(st)[:100])
            return
        self.judge({"C04", "C01"}, "reduce:once", 1 if len(st[2]) == 1 else 0, known, w, "a reduction pushes %d entries" % len(st[2]))
        if len(st[2]) != 1:
            return
        it = st[2][0]
        nd = it[1][1]
        if not (isinstance(nd, tuple) and nd[0] == "adt"):
            self.judge({"C01", "C04"}, "reduce:node", None, known, w, show(nd)[:100])
            return
        f = lambda n: nd[3][self.nodef[n]]
        base = st[1]
        # which rule
        rid = None
        for c in self.calls(q, self.rule_id, own):
            rid = c
        rule = None
        if rid is not None:
            for t in subterms(rid[2]):
                if t.op == "elem" and isinstance(t.args[0], Arr):
                    rule = t
        if rule is None:
            self.judge({"C04", "C05"}, "reduce:rule", None, known, w, "the reduced rule was not recognised")
            return
        self.judge({"C04", "C20"}, "reduce:rule", same(q, rule.args[1], lsub(-1, A)), known, w, "action code a reduces by rule %s" % show(rule.args[1])[:100])
        rf = self.rule_fields()
        name_ok = any(t.op == "fld" and t.args[0] is rule and t.args[1] == rf["name"] for t in subterms(rid[2]))
        self.judge({"C04", "C05"}, "reduce:name", 1 if name_ok else None, known, w, "the number of another name is used: %s" % show(rid[2])[:100])
        rlen = mk("fld", (rule, rf["len"]))
        num = mk("call", (rid[1],) + tuple(rid[2]))
        for t in set(subterms(st)):
            if self.is_call(t, self.rule_id) and t.args[1:] == tuple(rid[2]):
                num = t
        from . import tables
        nt, _ = tables.const_fn(self.prog, "num_terminal_symbol")
        self.judge({"C04", "C05"}, "reduce:kind", same(q, f("component_id"), ladd(num, nt)), known, w,
                   "the reduced node's kind number is %s" % show(f("component_id"))[:120])
        # goto
        g = it[1][0]
        gs = self.calls(q, self.goto, own)
        ok = None
        if len(gs) == 1 and self.is_call(g, self.goto):
            ok = 1 if top_of(g.args[1]) is base and same(q, g.args[2], num) == 1 else 0
            if top_of(g.args[1]) is None:
                ok = None
        self.judge({"C04"}, "reduce:goto", ok, known, w, "the next state is %s" % show(g)[:120])
        if ok == 1:
            self.judge({"C04", "C20"}, "reduce:goto-valid", 1 if q.truth(lez(lsub(0, g))) == 1 else 0, known, w, "a missing goto entry can be pushed as a state")
        tkv = f("token")
        self.judge({"C01", "C04"}, "reduce:no-token", 1 if isinstance(tkv, tuple) and tkv[0] == "adt" and tkv[2] == 0 else None, known, w, "a reduced node carries a token")
        self.children(q, base, f("children"), rlen, f("start_byte_pos"), f("end_byte_pos"), known)

    def rule_fields(self):
        fs = None
        for n, a in self.prog.adts.items():
            if n.endswith("parser::Rule"):
                fs = [x if isinstance(x, str) else x["name"] for x in a["variants"][0]["fields"]]
        if not fs or "name" not in fs or "len" not in fs:
            raise AnalysisError("the rule structure was not recognised")
        return {"name": fs.index("name"), "len": fs.index("len")}

    def children(self, q, base, ch, rlen, start, end, known):
        w = self.w
        T_ = {"C04", "C01"}
        # the sequence of popped symbols
        rev = False
        c = ch
        while isinstance(c, tuple) and c[0] == "vec" and not c[2] and isinstance(c[1], T) and c[1].op == "reversed":
            c, rev = c[1].args[0], not rev
        l = self.by_phi.get(base)
        cb = c[1] if isinstance(c, tuple) and c[0] == "vec" and not c[2] else None
        if base is self.stack or l is None or l is self.main or not isinstance(cb, T) or self.by_phi.get(cb) is not l:
            self.judge(T_, "reduce:children", None, known, w, "children %s over stack %s were not recognised" % (show(ch)[:100], show(base)[:60]))
            return
        v = l.entry[base]
        v2 = l.entry[cb]
        if not (isinstance(v, tuple) and v[1] is self.stack and not v[2] and v2 == ("vec", None, (), ())):
            self.judge(T_, "reduce:children", None, known, w, "popping starts from %s, %s" % (show(v)[:60], show(v2)[:60]))
            return
        top = mk("elem", (base, ladd(slen_vec(base), -1)))
        for b in l.backs:
            m = l.next(b)
            kb = self.familiar(b)
            sv, cv = m[base], m[cb]
            one = isinstance(sv, tuple) and sv[0] == "vec" and isinstance(sv[1], T) and sv[1].op == "popped" and sv[1].args[0] is base and not sv[2]
            self.judge(T_, "reduce:pop", 1 if one else None if not (isinstance(sv, tuple) and sv[1] is base) else 0, kb, w,
                       "one round of popping leaves the stack as %s" % show(sv)[:100])
            add = None
            if isinstance(cv, tuple) and cv[0] == "vec" and cv[1] is cb:
                if len(cv[2]) == 1:
                    x = cv[2][0]
                    add = 1 if isinstance(x, T) and x.op == "fld" and x.args[1] == 1 and x.args[0] is top else \
                        1 if is_top_node(x, base) else 0
                else:
                    add = 0
            elif isinstance(cv, tuple) and cv[0] == "vec" and len(cv) > 3 and cv[3]:
                add = None
            self.judge(T_, "reduce:keep", add, kb, w, "a popped symbol becomes %s" % show(cv)[:100])
            # one round is taken only below the rule's length
            cnt = self.counter(l, m, b, cb)
            if not cnt:
                self.judge({"C04"}, "reduce:count", None, kb, w, "the number of popped symbols is not counted by the loop's state")
                continue
            k, up = cnt
            t = b.truth(lez(ladd(lsub(k, rlen), 1))) if up else b.truth(lez(lsub(1, k)))
            self.judge({"C04"}, "reduce:count", 1 if t == 1 else 0, kb, w, "a symbol may be popped although the rule's length is reached")
        for x in [x for x in l.exits if x.truth(lez(0)) is not None]:
            m = l.next(x)
            cnt = self.counter(l, l.next(l.backs[0]), l.backs[0], cb) if l.backs else None
            if not cnt:
                continue
            k, up = cnt
            t = x.truth(lez(lsub(rlen, k))) if up else x.truth(lez(k))
            self.judge({"C04"}, "reduce:count-end", 1 if t == 1 else 0, self.familiar(x), w, "popping may stop before the rule's length is reached")
        if not l.backs:
            self.judge({"C04"}, "reduce:count", 0, True, w, "a reduction pops nothing")
        self.judge({"C04", "C01"}, "reduce:order", 1 if rev else 0, known, w, "the children are in the order they were popped, last first")
        # the node's span
        seqv = ch[1] if isinstance(ch, tuple) else ch
        first = [mk("fld", (mk("elem", (seqv, 0)), self.nodef["start_byte_pos"]))]
        n = slen_vec(seqv)
        lastt = [mk("fld", (mk("elem", (seqv, ladd(n, -1))), self.nodef["end_byte_pos"]))]
        raw = c[1]
        first.append(mk("fld", (mk("elem", (raw, ladd(slen_vec(raw), -1))), self.nodef["start_byte_pos"])))
        lastt.append(mk("fld", (mk("elem", (raw, 0)), self.nodef["end_byte_pos"])))
        empty = q.truth(eqz(n))
        if empty is None:
            empty = q.truth(eqz(slen_vec(raw)))
        if empty == 1:
            self.judge({"C16", "C01"}, "empty:span", same(q, start, end), known, w, "an empty node has the span %s..%s" % (show(start)[:80], show(end)[:80]))
            te = None
            for t in set(subterms(start)) | set(subterms(tuple(atoms(q)))):
                if t.op == "fld" and t.args[1] == self.nodef["end_byte_pos"] and top_of(t.args[0], 1) is base:
                    te = t
            if te is None:
                te = mk("fld", (mk("fld", (mk("elem", (base, ladd(slen_vec(base), -1))), 1)), self.nodef["end_byte_pos"]))
            self.judge({"C16", "C01"}, "empty:after-previous", 1 if q.truth(lez(lsub(te, start))) == 1 else 0, known, w,
                       "an empty node may be placed at %s, before the end of the symbol in front of it" % show(start)[:100])
            okv = None
            cand = [self.lastpos, self.ts, te]
            if any(same(q, start, x) == 1 for x in cand):
                okv = 1
            elif isinstance(start, T) and start.op == "fld" and start.args[1] == 2 and unwrap(elem_of(start)) is self.extras:
                okv = 1
            elif start == 0:
                okv = 1
            self.judge({"C16", "C01"}, "empty:before-next", okv, known, w, "an empty node is placed at %s" % show(start)[:100])
        else:
            if empty is None:
                self.judge({"C16"}, "reduce:span", None, known, w, "the partition does not tell whether the rule is empty")
                return
            self.judge({"C16", "C01"}, "reduce:start", 1 if any(start is x or start == x for x in first) else self.other(start, seqv, raw), known, w, "a node starts at %s, not where its first child does" % show(start)[:100])
            self.judge({"C16", "C01"}, "reduce:end", 1 if any(end is x or end == x for x in lastt) else self.other(end, seqv, raw), known, w, "a node ends at %s, not where its last child does" % show(end)[:100])

    def other(self, v, *seqs):
        """0 when v is a field of some child or a driver variable (definitely not the wanted one), else None."""
        if isinstance(v, int) or v in (self.lastpos, self.ts, self.te):
            return 0
        if isinstance(v, T) and v.op == "fld" and any(elem_of(v) is s for s in seqs):
            return 0
        return None

    def counter(self, l, m, b, cb):
        """A term that counts the rounds of a popping loop: (term, counts upwards)."""
        for x in l.phis:
            e = l.entry[x]
            if isinstance(x, T) and x.op == "phi" and not isinstance(e, tuple):
                if same(b, m[x], ladd(x, 1)) == 1 and e == 0:
                    return x, True
                if same(b, m[x], ladd(x, -1)) == 1 and isinstance(e, T):
                    return x, False
        n = slen_vec(cb)
        if n in l.entry and l.entry[n] == 0 and same(b, m[n], ladd(n, 1)) == 1:
            return n, True
        return None

    # ------------------------------------------------------------ results
    def check_results(self):
        w = self.w
        l = self.main
        n = slen(self.s)
        for q in self.finals:
            if q.status != "return":
                continue
            r = q.ret
            if q.truth(self.scanned) == 0:
                ok = None
                if isinstance(r, tuple) and r[0] == "adt" and r[1] == RES:
                    ok = 0 if r[2] == 0 else 1 if r[3][0] is self.err or r[3][0] == self.err else 0
                self.judge({"C12"}, "scan-error", ok, self.familiar(q), w, "a scan error becomes %s" % show(r)[:120])
                continue
            if not (isinstance(r, tuple) and r[0] == "adt" and r[1] == RES):
                self.ob({"C04", "C11"}, "result", None, w, show(r)[:100])
                continue
            if not any(e[0] == "loop" and e[1] == l.key for e in q.events):
                if r[2] == 1:
                    self.judge({"C04", "C11"}, "result:early", 0, self.familiar(q), w, "an error is returned before parsing")
                else:
                    self.judge({"C04", "C01"}, "result:early", None, True, w, "a tree is returned without parsing")
                continue
            if self.pos not in set(subterms(tuple(atoms(q)))) and q.truth(eqz(slen_vec(self.toks))) == 1:
                continue
            if r[2] == 1:
                self.check_error(q, r[3][0])
        # leaving the loop without an error is acceptance
        for q in l.exits:
            own = l.own(q)
            if q.status == "return" and isinstance(q.ret, tuple) and q.ret[0] == "adt" and q.ret[2] == 1:
                continue
            A = self.action(q, own)
            known = self.familiar(q)
            if A is None:
                continue                       # decided by check_error / no token left
            if A is False:
                self.judge({"C04"}, "accept:action", None, known, w, "the looked-up action was not recognised")
                continue
            cl = self.classes(q, A)
            if self.tail_error(q):
                continue
            self.judge({"C04", "C11"}, "accept:when", 1 if cl == {"accept"} else 0, known, w, "parsing stops successfully on action codes of %s" % sorted(cl))
            self.judge({"C04"}, "accept:comment", 1 if self.is_comment(q) == 0 else 0, known, w, "parsing may stop at a comment")

    def tail_error(self, q):
        r = q.ret
        return isinstance(r, tuple) and r[0] == "adt" and r[1] == RES and r[2] == 1

    def error_fields(self, v):
        if not (isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("ParserError")):
            return None
        var = self.prog.adt("parser_error::ParserError")["variants"][v[2]]
        fs = [x if isinstance(x, str) else x["name"] for x in var["fields"]]
        return var["name"], dict(zip(fs, v[3]))

    def check_error(self, q, v):
        w = self.w
        l = self.main
        n = slen(self.s)
        known = self.familiar(q)
        own = self.main.own(q)
        ef = self.error_fields(v)
        if ef is None:
            self.judge({"C11"}, "error:value", None, known, w, "the error is %s" % show(v)[:100])
            return
        name, f = ef
        if set(f) != {"message", "start_byte_pos", "end_byte_pos"}:
            self.judge({"C11"}, "error:kind", 0 if name != "ParseError" else None, known, w, "a syntax error is reported as %s" % name)
            return
        s, e, msg = f["start_byte_pos"], f["end_byte_pos"], f["message"]
        A = self.action(q, own)
        # a path that went on after leaving the loop (its token is not the loop's)
        tail = [x for x in self.loops if x.key != l.key and x.phis and any(p in set(subterms((s, e))) for p in x.phis) and not (set(subterms((s, e))) & {self.pos})]
        if tail:
            return
        no_token = q.truth(lez(ladd(lsub(self.seqlen(), self.pos), 0))) == 1
        if no_token:
            self.judge({"C11"}, "error:at-end", 1 if same(q, s, n) == 1 and same(q, e, n) == 1 else 0, known, w, "running out of tokens is reported at %s..%s" % (show(s)[:60], show(e)[:60]))
            return
        self.judge({"C11"}, "error:start", same(q, s, self.ts) if same(q, s, self.ts) is not None else self.wrong_pos(s, self.ts), known, w, "a syntax error's start is %s" % show(s)[:80])
        self.judge({"C11"}, "error:end", same(q, e, self.te) if same(q, e, self.te) is not None else self.wrong_pos(e, self.te), known, w, "a syntax error's end is %s" % show(e)[:80])
        ts = set(subterms(msg))
        has = [t for t in ts if t is self.ts]
        others = [t for t in ts if t is self.te or t is self.lastpos]
        ok = 1 if has and not others else 0 if others and not has else None
        if ok is None and not has and not ts - {self.s}:
            ok = None
        self.judge({"C11"}, "error:message", ok, known, w, "the message's position is %s" % show(msg)[:120])
        # when
        opt = q.truth(eqz(mk("discr", (mk("call", (self.tok_id["def"],)),), "isize")))
        cl = self.classes(q, A) if A not in (None, False) else None
        if A is None:
            # no action was looked up: only a token without a number may end the parse here
            un = [t for t in atoms(q) if t.op == "discr" and self.is_call(t.args[0], self.tok_id)]
            isnone = any(q.truth(eqz(t)) == 1 or q.truth(eqz(lsub(t, 1))) == 0 for t in un)
            self.judge({"C04", "C11"}, "error:unnumbered", 1 if isnone else 0 if known else None, known, w, "a token with a number is rejected without looking up its action")
            return
        if A is False:
            self.judge({"C04", "C11"}, "error:action", None, known, w, "the looked-up action was not recognised")
            return
        if cl == {"error"}:
            self.judge({"C04", "C11"}, "error:when", 1, known, w, "")
            return
        if cl == {"reduce"}:
            gs = [t for t in atoms(q) if self.is_call(t, self.goto)]
            neg = any(q.truth(lez(ladd(t, 1))) == 1 for t in gs)
            self.judge({"C04", "C11"}, "error:goto", 1 if neg else 0, known, w, "a reduction with a valid goto is rejected")
            return
        self.judge({"C04", "C11"}, "error:when", 0, known, w, "an error is returned on action codes of %s" % sorted(cl))

    def wrong_pos(self, v, want):
        if isinstance(v, int) or v in (self.ts, self.te, self.lastpos) or (isinstance(v, T) and v.op == "lin" and not any(x.op not in ("elem", "fld", "len", "phi", "sym", "lin") for x in subterms(v))):
            return 0
        if isinstance(v, T) and v.op in ("fld", "len"):
            return 0
        return None

    def seqlen(self):
        return self.eng.seqlen(self.main.head.fork(), self.seq)

    # ------------------------------------------------------------ after the loop
    def check_tail(self):
        """What is left after acceptance is handed over: the rest of the tokens and the text before them."""
        w = self.w
        T_ = {"C01", "C10"}
        n = slen(self.s)
        oks = [q for q in self.finals if q.status == "return" and isinstance(q.ret, tuple) and q.ret[0] == "adt" and q.ret[1] == RES and q.ret[2] == 0
               and q.truth(self.scanned) == 1]
        if not oks:
            self.ob(T_ | {"C04"}, "tree", None, w, "no path returns a tree")
        main = (self.pos, self.lastpos, self.extras, self.ts, self.te, self.tok, self.tk, self.tv)
        done = set()
        for q in oks:
            c = self.calls(q, self.emit_root)
            if len(c) != 1:
                self.ob(T_ | {"C04"}, "tree:built", None, w, "the tree is built by %d calls" % len(c))
                continue
            args = c[0][2]
            ex = [a for a in args if isinstance(a, tuple) and a[0] == "vec"]
            self.root_nodes(q, args)
            if not ex:
                self.ob(T_, "tree:extras", None, w, "extras were not recognised")
                continue
            ex = ex[-1]
            b = ex[1]
            if b is self.extras:
                # no loop: the accepted token is the end token, only the text before it is left
                if not set(subterms(q.ret)) & {self.pos} and q.truth(eqz(slen_vec(self.toks))) == 1:
                    continue
                known = self.familiar(q)
                self.final_gap(q, ex, known, main, n)
                continue
            tl = self.by_phi.get(b)
            if tl is None or any(x is tl for x in self.mains):
                continue                 # the run without scanned tokens repeats the other one
            ent = tl.entry[b]
            if not (isinstance(ent, tuple) and ent[1] is self.extras):
                continue
            self.tail_loop(q, tl, ex, b, done, n)

    def tail_state(self, tl):
        pos = lp = None
        for x in tl.phis:
            e = tl.entry[x]
            if e is self.pos:
                pos = x
            elif e is self.lastpos:
                lp = x
        if lp is None and any(isinstance(i, tuple) and i[0] == "tup" and len(i[1]) == 4 and self.whitespace(i[1][0]) and i[1][1] is self.lastpos
                              for k in tl.backs for v in tl.next(k).values() if isinstance(v, tuple) and v[0] == "vec" for i in v[2]):
            lp = self.lastpos       # the loop keeps text from a position it never changes
        if pos is None or lp is None:
            return None
        src = []
        for v in tl.head.mem.values():
            find_it(v, pos, src)
        src = [x for x in src if isinstance(x, tuple) and x[0] == "vec"]
        if not src:
            return None
        tok = self.eng.elem(tl.head.fork(), src[0], pos)
        f = self.tokf
        return (pos, lp, None, fld(tok, f["start_byte_pos"]), fld(tok, f["end_byte_pos"]), tok, fld(tok, f["kind"]), fld(tok, f["value"]))

    def swap(self, st):
        old = (self.pos, self.lastpos, self.extras, self.ts, self.te, self.tok, self.tk, self.tv)
        self.pos, self.lastpos, self.extras, self.ts, self.te, self.tok, self.tk, self.tv = st
        return old

    def tail_loop(self, q, tl, ex, b, done, n):
        w = self.w
        T_ = {"C01", "C10"}
        st = self.tail_state(tl)
        if st is None:
            self.ob(T_, "tail:state", None, w, "the loop over the remaining tokens was not recognised")
            return
        old = self.swap(st[:2] + (b,) + st[3:])
        try:
            if tl not in done:
                done.add(tl)
                for k in tl.backs:
                    m = tl.next(k)
                    known = self.familiar(k)
                    self.judge(T_, "tail:advance", same(k, m[self.pos], ladd(self.pos, 1)), known, w, "the loop over the remaining tokens does not advance by one")
                    rest = self.gap(k, m[b], known, 1, T_)
                    if rest is not None:
                        self.judge(T_, "tail:once", 1 if len(rest) == 1 else 0, known, w, "a remaining token is kept %d times" % len(rest))
                        if rest:
                            self.extra_token(k, rest[0], known, T_)
                    self.moved(k, m, known)
            known = self.familiar(q)
            # the last token: nothing may follow it, the text before it is kept
            total = self.eng.seqlen(q, self.seq)
            over = q.truth(lez(lsub(total, self.pos)))
            if over == 1:
                self.judge(T_, "tail:end", 1 if not ex[2] else None, known, w, show(ex)[:80])
                return
            at_end = q.truth(lez(lsub(total, ladd(self.pos, 1))))
            self.judge(T_, "tail:last", 1 if at_end == 1 else 0, known, w, "tokens after the accepted statement may be left out of the tree")
            rest = self.gap(q, ex, known, 0, T_)
            if rest:
                self.judge(T_, "tail:extra", 0, known, w, "the end token is put into the tree")
        finally:
            self.swap(old)

    def final_gap(self, q, ex, known, main, n):
        w = self.w
        T_ = {"C01", "C10"}
        items = list(ex[2])
        lp = self.lastpos
        t = q.truth(lez(ladd(lsub(lp, n), 1)))
        t2 = q.truth(lez(ladd(lsub(lp, self.ts), 1)))
        if not items:
            self.judge(T_, "tail:gap", 1 if t == 0 or t2 == 0 else 0, known, w, "the text after the last token is not kept")
            return
        it = items[0]
        if len(items) > 1 or not (isinstance(it, tuple) and it[0] == "tup" and len(it[1]) == 4):
            self.judge(T_, "tail:gap", None, known, w, "extras end with %s" % show(ex[2])[:100])
            return
        k, a, b, txt = it[1]
        self.judge({"C10"}, "tail:nonempty", 1 if t == 1 or t2 == 1 else 0, known, w, "a whitespace token may be emitted where there is no gap")
        self.judge(T_, "tail:kind", 1 if self.whitespace(k) else 0, known, w, "the text after the last token has kind %s" % show(k))
        self.judge(T_, "tail:start", self.pos_is(q, a, lp), known, w, "the last whitespace starts at %s" % show(a)[:60])
        ok = max(self.slice_of(q, txt, lp, n) or 0, self.slice_of(q, txt, lp, self.ts) or 0)
        self.judge(T_, "tail:text", ok or self.slice_of(q, txt, lp, n), known, w, "the last whitespace's text is %s" % show(txt)[:100])

    def root_nodes(self, q, args):
        """The nodes handed to the builder: every entry of the stack but the bottom one, in order."""
        w = self.w
        T_ = {"C01", "C04"}
        a = [x for x in args if not (isinstance(x, tuple) and x[0] == "vec")]
        found = None
        for x in a:
            while isinstance(x, tuple) and x[0] == "&":
                x = x[1]
            if isinstance(x, T) and x.op == "call" and last(x.args[0]) == "collect":
                found = x.args[1]
        if not (isinstance(found, tuple) and found[:2] == ("it", "map")):
            self.ob(T_, "root:nodes", None, w, "the root's children were not recognised: %s" % show(tuple(a))[:100])
            return
        it, clo = found[2], found[3]
        v, lo, hi = seq_slice(it)
        if unwrap(v) is not self.stack and not (isinstance(v, tuple) and unwrap(v) in self.by_phi):
            self.ob(T_, "root:nodes", None, w, "the root's children come from %s" % show(it)[:100])
            return
        ok = None
        if hi is not None and hi is not slen_vec(unwrap(v)):
            d = p_diff(q, hi, slen_vec(unwrap(v)))
            ok = 0 if isinstance(d, int) and d < 0 else None
        elif lo == 1:
            ok = 1
        elif isinstance(lo, int):
            ok = 0
        self.judge(T_, "root:from", ok, True, w, "the root's children start at stack entry %s" % show(lo))
        # what the closure selects
        try:
            e = Engine(self.prog, panics=False)
            p = Path()
            el = mk("sym", ("entry",), None)
            cell = ("arg", "entry")
            p.mem[cell] = ("tup", (mk("sym", ("state",), "u32"), mk("sym", ("node",), None)))
            fn = self.prog.fns.get(clo[1])
            env = clo
            if fn["locals"][1].startswith("&"):
                p.mem[("arg", "env")] = clo
                env = ("ref", ("arg", "env"), ())
            fs = [f for f in e.run(fn, [env, ("ref", cell, ())], p) if f.status == "return"]
            sel = [f.ret for f in fs]
            good = len(sel) == 1 and isinstance(sel[0], tuple) and sel[0][0] == "ref" and sel[0][1] == cell and len(sel[0][2]) == 1 and str(sel[0][2][0]).find("1") >= 0
            self.judge(T_, "root:select", 1 if good else None, True, w, "the root's children are %s" % show(tuple(sel))[:100])
        except Exception as x:
            self.ob(T_, "root:select", None, w, "%s" % x)

    keep = False

    def check_emission(self):
        Emission(self, self.prog, self.keep).run()


class Emission:
    """The tree builder calls made for one node, and for the root."""

    def __init__(self, d, prog, keep):
        self.d, self.prog, self.keep = d, prog, keep
        self.rec, self.root = d.emit_rec, d.emit_root
        self.w = where(self.rec)
        ts = [t for t in self.rec["locals"][1:1 + self.rec["nargs"]]]
        self.peek_i = [i for i, t in enumerate(ts) if "Peekable<" in t]
        self.node_i = [i for i, t in enumerate(ts) if t.lstrip("&").endswith("cst::Node")]
        if len(self.peek_i) != 1 or len(self.node_i) != 1:
            raise AnalysisError("the arguments of %s were not recognised" % self.rec["name"])
        from .eng import strip_ref, generics
        it = strip_ref(ts[self.peek_i[0]])
        self.elem_ty = generics(generics(it)[0])[0]
        self.extras = mk("sym", ("extras",), "std::vec::Vec<%s>" % self.elem_ty)
        self.node_ty = strip_ref(ts[self.node_i[0]])
        self.node = mk("sym", ("node",), self.node_ty)
        f = d.nodef
        tys = prog.adt("cst::Node")["variants"][0].get("types")
        self.start = mk("fld", (self.node, f["start_byte_pos"]), "usize")
        self.end = mk("fld", (self.node, f["end_byte_pos"]), "usize")

    def engine(self):
        e = Engine(self.prog, panics=False, opaque=set(self.d.from_raw), models={self.rec["def"]: self.m_rec})
        import re
        e.model_patterns = [
            (re.compile(r"GreenNodeBuilder::<.*>::token$"), self.m_emit("token")),
            (re.compile(r"GreenNodeBuilder::<.*>::start_node$"), self.m_emit("start")),
            (re.compile(r"GreenNodeBuilder::<.*>::finish_node$"), self.m_emit("finish")),
            (re.compile(r"GreenNodeBuilder::<.*>::finish$"), self.m_done),
            (re.compile(r"Iterator>::for_each::<"), self.m_each),
        ] + list(e.model_patterns)
        return e

    # ------------------------------------------------------------ models
    def m_emit(self, what):
        def m(e, p, a, c):
            p.event("emit", what, *[e.snap(p, x) for x in a[1:]])
            return c.finish(p, ("tup", ()))
        return m

    def m_done(self, e, p, a, c):
        p.event("emit", "done")
        return NotImplemented

    def m_rec(self, e, p, a, c):
        p.event("rec", e.snap(p, a[self.node_i[0]]), e.snap(p, a[self.peek_i[0]]))
        self.havoc(e, p)
        return c.finish(p, ("tup", ()))

    def havoc(self, e, p):
        """A nested call consumes any number of the remaining extras."""
        for cell, v in list(p.mem.items()):
            x = self.advance(e, p, v)
            if x is not v:
                p.mem[cell] = x

    def advance(self, e, p, v):
        if isinstance(v, tuple) and len(v) == 4 and v[0] == "it" and v[1] == "val" and self.extras in set(subterms(v[2])):
            e.fidc += 1
            n = mk("sym", ("pos%d" % e.fidc,), "usize")
            p.assume(lez(lsub(v[3], n)))
            return v[:3] + (n,)
        if isinstance(v, tuple) and not (v and v[0] == "ref"):
            y = tuple(self.advance(e, p, x) for x in v)
            return y if any(i is not j for i, j in zip(y, v)) else v
        return v

    def m_each(self, e, p, a, c):
        from . import models
        it = a[0]
        if not (isinstance(it, tuple) and it[0] == "it" and it[1] in ("ref", "val")):
            p.event("each?", e.snap(p, it))
            return NotImplemented
        q = p.fork()
        p.event("each", e.snap(p, it))
        self.havoc(e, p)
        e.fidc += 1
        i = mk("sym", ("index%d" % e.fidc,), "usize")
        gen = it[:3] + (i,)

        def k(r, ni, o):
            if o[2] == 0:
                return []
            r.event("element", i)

            def post(x, v):
                x.event("each-end", i)
                self.havoc(e, x)
                return c.finish(x, ("tup", ()))
            return e.apply(r, a[1], [o[3][0]], post)
        out = models.it_next(e, p, gen, c, k)
        q.event("each", e.snap(q, it))
        q.event("each-end", None)
        out += c.finish(q, ("tup", ()))
        return out

    # ------------------------------------------------------------ one node
    def run(self):
        self.d.guarded({"C01", "C16", "C04"}, "emit:node", self.check_node)
        self.d.guarded({"C01", "C16", "C04"}, "emit:root", self.check_root)

    def judge(self, tags, oid, ok, known, detail, w=None):
        self.d.judge(set(tags), "emit:" + oid, ok, known, w or self.w, detail)

    def familiar(self, q):
        for t in atoms(q):
            if t.op in ("len", "phi", "sym"):
                continue
            x = t
            while isinstance(x, T) and x.op in ("fld", "as", "discr"):
                x = x.args[0]
            if isinstance(x, T) and x.op in ("elem", "sym", "phi") or self.d.text_of_input(t):
                continue
            return False
        return True

    def position(self, q):
        out = []

        def look(v):
            if isinstance(v, tuple):
                if len(v) == 4 and v[0] == "it" and v[1] == "val" and self.extras in set(subterms(v[2])):
                    out.append(v)
                for x in v:
                    look(x)
        for v in q.mem.values():
            look(v)
        out = list(dict.fromkeys(out))
        return out[-1] if out else None

    def is_extra(self, e, q, it, kind, text):
        """Is this the extra at the iterator's position?"""
        src, pos = it[2], it[3]
        el = e.elem(q.fork(), src, pos)
        k, t = fld(el, 0), fld(el, 3)
        while isinstance(text, tuple) and text[0] in ("&", "str"):
            text = text[1]
        while isinstance(t, tuple) and t[0] in ("&", "str"):
            t = t[1]
        while isinstance(kind, tuple) and kind[0] == "&":
            kind = kind[1]
        return (kind is k or kind == k), (text is t or text == t)

    def check_node(self):
        e = self.engine()
        p = Path()
        args = []
        for i in range(self.rec["nargs"]):
            cell = ("arg", i)
            if i == self.peek_i[0]:
                pos = mk("sym", ("pos",), "usize")
                p.mem[cell] = ("it", "peek", ("it", "val", ("vec", self.extras, (), ()), pos))
                p.assume(lez(lsub(0, pos)))
            elif i == self.node_i[0]:
                p.mem[cell] = self.node
            else:
                p.mem[cell] = mk("sym", ("self%d" % i,), None)
            args.append(("ref", cell, ()))
        self.e = e
        finals = e.run(self.rec, args, p)
        self.loops = loops_of(e)
        for l in self.loops:
            self.check_loop(l)
        n = 0
        for q in finals:
            if q.status == "return":
                n += 1
                self.check_path(q)
        if not n:
            self.d.ob({"C01"}, "emit:paths", None, self.w, "no path was summarised")

    def check_loop(self, l, root=False, w=None):
        e = self.e
        w = w or self.w
        it = self.position(l.head)
        rec = any(x[0] == "rec" for q in l.backs for x in l.own(q))
        if rec:
            return self.child_loop(l, w, root)
        if root and it is not None:
            for x in l.exits:
                done = x.truth(lez(lsub(e_len(e, x, it[2]), it[3])))
                self.judge({"C01", "C10"}, "root:rest", 1 if done == 1 else 0, self.familiar(x), "comments or whitespace at the end may be left out", w)
        for q in l.backs:
            own = l.own(q)
            known = self.familiar(q)
            em = [x for x in own if x[0] == "emit"]
            nit = self.position(q)
            if it is None or nit is None:
                self.judge({"C01"}, "flush:position", None, known, "the position in the extras was not recognised", w)
                return
            src, pos = it[2], it[3]
            self.judge({"C01", "C10"}, "flush:once", 1 if len(em) == 1 and em[0][1] == "token" else 0, known,
                       "one round of emitting comments and whitespace emits %d tokens" % len(em), w)
            self.judge({"C01", "C10"}, "flush:advance", same(q, nit[3], ladd(pos, 1)), known, "one round moves the position to %s" % show(nit[3])[:60], w)
            if len(em) == 1 and em[0][1] == "token":
                a, b = self.is_extra(e, q, it, em[0][2], em[0][3])
                self.judge({"C01", "C10"}, "flush:kind", 1 if a else 0, known, "emitted kind %s" % show(em[0][2])[:80], w)
                self.judge({"C01", "C10"}, "flush:text", 1 if b else 0, known, "emitted text %s" % show(em[0][3])[:80], w)
            if not root:
                st = fld(e.elem(q.fork(), src, pos), 1)
                t = q.truth(lez(lsub(st, self.start)))
                self.judge({"C01", "C10"}, "flush:not-later", 1 if t == 1 else 0, known,
                           "a comment or whitespace that starts after the node may be emitted before it", w)

    def child_loop(self, l, w, root):
        for q in l.backs:
            own = [x for x in l.own(q) if x[0] in ("emit", "rec", "each", "loop")]
            known = self.familiar(q)
            recs = [x for x in own if x[0] == "rec"]
            self.judge({"C01", "C04"}, "children:once", 1 if len(recs) == 1 and len(own) == 1 else 0, known, "one child is emitted %d times" % len(recs), w)
            m = l.next(q)
            idx = [x for x in l.phis if x.op == "phi" and isinstance(l.entry[x], int)]
            good = [x for x in idx if same(q, m[x], ladd(x, 1)) == 1]
            node = recs[0][1] if recs else None
            seq, i = self.element(node)
            ok = None
            if seq is not None:
                ok = 1 if i in good and l.entry[i] == 0 and self.is_children(seq, root) else None
                if i in good and self.is_children(seq, root) and l.entry[i] != 0:
                    ok = 0
            self.judge({"C01", "C04"}, "children:in-order", ok, known, "the loop emits %s" % show(node)[:100], w)
            if ok == 1:
                for x in l.exits:
                    t = x.truth(lez(lsub(e_len(self.e, x, seq), i)))
                    self.judge({"C01", "C04"}, "children:all", 1 if t == 1 else 0, self.familiar(x), "the loop may stop before the last child", w)

    def element(self, node):
        while isinstance(node, tuple) and node[0] == "&":
            node = node[1]
        if isinstance(node, T) and node.op == "elem":
            return node.args
        return None, None

    def is_children(self, seq, root=False):
        s = unwrap(seq)
        if root:
            return s is self.nodes
        return isinstance(s, T) and s.op == "fld" and s.args[0] is self.node and s.args[1] == self.d.nodef["children"]

    def check_path(self, q):
        e = self.e
        known = self.familiar(q)
        ev = [x for x in q.events if x[0] in ("emit", "rec", "each", "each?", "element", "each-end", "loop")]
        it0 = ("it", "val", ("vec", self.extras, (), ()), mk("sym", ("pos",), "usize"))
        empty = q.truth(eqz(lsub(self.start, self.end)))
        loops = {l.key: l for l in self.loops}
        flush = [x for x in ev if x[0] == "loop" and x[1] in loops and not any(y[0] == "rec" for b in loops[x[1]].backs for y in loops[x[1]].own(b))]
        work = [x for x in ev if x not in flush]
        # extras emitted one by one outside a loop
        single = []
        core = []
        for x in work:
            if x[0] == "emit" and x[1] == "token":
                src = elem_of(strip(x[2]))
                if src is not None and self.extras in set(subterms(src)):
                    single.append(x)
                    continue
            core.append(x)
        if not core:
            if self.keep:
                self.judge({"C16"}, "skip", 0, known, "without the feature that removes empty nodes a node is left out")
            else:
                self.judge({"C16", "C01"}, "skip", 1 if empty == 1 else 0, known, "a node that covers text may be left out")
            return
        if not self.keep:
            self.judge({"C16"}, "keep", 1 if empty == 0 else 0, known, "an empty node may be kept although the feature removes them")
        tokd = mk("discr", (mk("fld", (self.node, self.d.nodef["token"])),), "isize")
        leaf = q.eqs.get(tokd)
        if leaf is None:
            leaf = 1 if q.truth(eqz(lsub(tokd, 1))) == 1 else 0 if q.truth(eqz(tokd)) == 1 else 1 if q.truth(eqz(tokd)) == 0 else 0 if q.truth(eqz(lsub(tokd, 1))) == 0 else None
        if leaf is None:
            self.judge({"C01", "C04"}, "shape", None, known, "the path does not tell tokens from nodes")
            return
        first = core[0]
        if leaf == 1:
            ok = len(core) == 1 and first[0] == "emit" and first[1] == "token"
            self.judge({"C01", "C04"}, "token:once", 1 if ok else 0, known, "a token node emits %s" % ", ".join(" ".join(map(str, x[:2])) for x in core)[:150])
            if not ok:
                return
            self.judge({"C05", "C04"}, "token:kind", self.own_kind(first[2]), known, "a token is emitted with kind %s" % show(first[2])[:100])
            self.judge({"C01"}, "token:text", self.own_text(first[3]), known, "a token is emitted with text %s" % show(first[3])[:100])
            it = self.position(q)
            if it is None:
                self.judge({"C01"}, "token:flushed", None, known, "the position in the extras was not recognised")
                return
            src, pos = it[2], it[3]
            done = q.truth(lez(lsub(e_len(e, q, src), pos)))
            st = fld(e.elem(q.fork(), src, pos), 1)
            later = q.truth(lez(lsub(self.start, st)))
            order = all(q.events.index(x) < q.events.index(first) for x in flush + single)
            self.judge({"C01", "C10"}, "token:flushed", 1 if (done == 1 or later == 1) and order else 0, known,
                       "comments or whitespace that start before a token may be emitted after it")
            return
        names = [x[1] if x[0] == "emit" else x[0] for x in core]
        ok = first[0] == "emit" and first[1] == "start" and core[-1][0] == "emit" and core[-1][1] == "finish" and names.count("start") == 1 and names.count("finish") == 1 and "token" not in names
        self.judge({"C01", "C04"}, "node:bracket", 1 if ok else 0, known, "a node emits %s" % ", ".join(names)[:150])
        if not ok:
            return
        self.judge({"C05", "C04"}, "node:kind", self.own_kind(first[2]), known, "a node is emitted with kind %s" % show(first[2])[:100])
        mid = core[1:-1]
        self.check_each(mid, known)

    def check_each(self, mid, known, root=False, w=None):
        w = w or self.w
        loops = {l.key: l for l in self.loops}
        if len(mid) == 1 and mid[0][0] == "loop":
            l = loops.get(mid[0][1])
            self.judge({"C01", "C04"}, "children:visited", 1 if l is not None and any(y[0] == "rec" for b in l.backs for y in l.own(b)) else None, known, "children loop", w)
            return
        if mid and mid[0][0] == "each":
            it = mid[0][1]
            v, lo, hi = seq_slice(it)
            ok = None
            if self.is_children(v, root) and lo == 0 and (hi is None or hi is slen_vec(unwrap(v))):
                ok = 1
            elif self.is_children(v, root) and isinstance(lo, int) and lo > 0:
                ok = 0
            self.judge({"C01", "C04"}, "children:all", ok, known, "the children visited are %s" % show(it)[:100], w)
            inner = mid[1:-1]
            if mid[-1][0] != "each-end":
                self.judge({"C01", "C04"}, "children:visited", 0, known, "children emit %s" % show(tuple(mid))[:100], w)
            elif mid[-1][1] is None:
                return
            else:
                i = inner[0][1] if inner and inner[0][0] == "element" else None
                recs = [x for x in inner if x[0] == "rec"]
                self.judge({"C01", "C04"}, "children:once", 1 if len(recs) == 1 and len(inner) == 2 else 0, known, "one child is emitted %d times" % len(recs), w)
                if recs:
                    seq, j = self.element(recs[0][1])
                    self.judge({"C01", "C04"}, "children:in-order", 1 if seq is not None and self.is_children(seq, root) and j is i else None, known, "a child emits %s" % show(recs[0][1])[:100], w)
            return
        if any(x[0] == "each?" for x in mid):
            x = [x for x in mid if x[0] == "each?"][0]
            rev = isinstance(x[1], tuple) and x[1][:2] == ("it", "rev")
            self.judge({"C01", "C04"}, "children:visited", 0 if rev else None, known, "the children are visited as %s" % show(x[1])[:100], w)
            return
        self.judge({"C01", "C04"}, "children:visited", 0 if not mid else None, known, "between start and end of a node: %s" % show(tuple(mid))[:100], w)

    def own_kind(self, v):
        v = strip(v)
        cid = mk("fld", (self.node, self.d.nodef["component_id"]))
        if isinstance(v, T) and v.op == "call" and last(v.args[0]) == "from_raw":
            raw = v.args[1]
            if isinstance(raw, tuple) and raw[0] == "adt":
                return 1 if raw[3][0] is cid else 0
        return None

    def own_text(self, v):
        v = strip(v)
        if isinstance(v, T):
            ts = set(subterms(v))
            if self.node not in ts:
                return 0
            x = v
            if x.op == "fld" and x.args[1] == self.d.tokf["value"] and any(t.op == "fld" and t.args[0] is self.node and t.args[1] == self.d.nodef["token"] for t in ts):
                return 1
            if x.op in ("fld", "as") and str(x.args[-1]) == "0" and self.own_text(x.args[0]) == 1:
                return 1
        return None

    # ------------------------------------------------------------ the root
    def check_root(self):
        w = where(self.root)
        e = self.engine()
        self.e = e
        from .eng import generics, strip_ref
        p = Path()
        args = []
        self.nodes = mk("sym", ("nodes",), None)
        ok = 0
        for i, ty in enumerate(self.root["locals"][1:1 + self.root["nargs"]]):
            if ty.lstrip("&").startswith("std::vec::Vec<&"):
                self.nodes = mk("sym", ("nodes",), strip_ref(ty) if ty.startswith("&") else ty)
                v = ("vec", self.nodes, (), ())
                ok |= 1
            elif self.elem_ty in ty and "Vec<" in ty:
                v = ("vec", self.extras, (), ())
                ok |= 2
            else:
                v = lift(mk("sym", ("arg%d" % i,), ty), ty)
            if ty.startswith("&"):
                p.mem[("arg", i)] = v
                v = ("ref", ("arg", i), ())
            args.append(v)
        if ok != 3:
            raise AnalysisError("the arguments of %s were not recognised" % self.root["name"])
        finals = e.run(self.root, args, p)
        self.loops = loops_of(e)
        loops = {}
        for l in self.loops:
            loops.setdefault(l.key, []).append(l)
            self.check_loop(l, True, w)
        for q in finals:
            if q.status != "return":
                continue
            known = self.familiar(q)
            ev = [x for x in q.events if x[0] in ("emit", "rec", "each", "each?", "element", "each-end", "loop")]
            kinds = []
            for x in ev:
                if x[0] == "loop" and x[1] in loops:
                    r = any(y[0] == "rec" for l in loops[x[1]] for b in l.backs for y in l.own(b))
                    kinds.append("nodes" if r else "rest")
                elif x[0] == "emit":
                    kinds.append(x[1])
                else:
                    kinds.append(x[0])
            st = [x for x in ev if x[0] == "emit" and x[1] == "start"]
            ok = None
            if len(st) == 1:
                k = strip(st[0][2])
                ok = 1 if isinstance(k, tuple) and k[0] == "adt" and self.d.skinds[k[2]] == "Root" else 0
            self.judge({"C04", "C05"}, "root:kind", ok, known, "the root's kind is %s" % (show(st[0][2]) if st else "missing"), w)
            ks = [k for k in kinds if k not in ("element",)]
            flat = []
            depth = 0
            for k in ks:
                if k == "each":
                    flat.append("nodes")
                    depth += 1
                elif k == "each-end":
                    depth -= 1
                elif not depth:
                    flat.append(k)
            want = ["start", "nodes", "rest", "finish", "done"]
            ok = 1 if flat == want else 0 if sorted(flat) == sorted(want) or set(flat) < set(want) or set(flat) == set(want) else None
            self.judge({"C01", "C04"}, "root:order", ok, known, "the root is built by %s" % ", ".join(flat), w)


def strip(v):
    while isinstance(v, tuple) and v and v[0] in ("&", "str", "String"):
        v = v[1]
    return v


def e_len(e, q, seq):
    return e.seqlen(q, seq)


# ---------------------------------------------------------------- terms
def fld(v, i):
    if isinstance(v, tuple) and v[0] == "adt":
        return v[3][i]
    if isinstance(v, tuple) and v[0] == "tup":
        return v[1][i]
    from . import eng
    return mk("fld", (v, i))


def slen_vec(t):
    return mk("len", (t,), "usize")


def p_diff(q, a, b):
    try:
        return q.norm(lsub(a, b))
    except Unmodelled:
        return None


def elem_of(t):
    """The sequence a (field of a field of an) element was taken from."""
    while isinstance(t, T) and t.op in ("fld", "as"):
        t = t.args[0]
    return t.args[0] if isinstance(t, T) and t.op == "elem" else None


def unwrap(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == "vec" and not v[2] else v


def top_of(t, depth=None):
    """The sequence whose last element's field `t` is."""
    while isinstance(t, T) and t.op in ("fld", "as"):
        t = t.args[0]
    if isinstance(t, T) and t.op == "elem":
        s, i = t.args
        b = s[1] if isinstance(s, tuple) and s[0] == "vec" and not s[2] else s
        if isinstance(b, T):
            d = lsub(i, slen_vec(b))
            if d == -1:
                return b
    return None


def is_top_node(x, base):
    return top_of(x) is base and isinstance(x, T) and x.op == "fld" and x.args[1] == 1


def seq_slice(it):
    """(sequence, first index, one past the last or None for all) of what an iterator value runs over."""
    if not (isinstance(it, tuple) and it[0] == "it" and it[1] in ("ref", "val")):
        return None, None, None
    v, lo, hi = it[2], it[3], None
    while isinstance(v, tuple) and v and v[0] in ("&", "sub"):
        if v[0] == "sub":
            lo = ladd(lo, v[2])
            hi = ladd(v[3], 0)
        v = v[1]
    return v, lo, hi


def report(chk, prog, pid, keep=False, prefix=""):
    d = Driver(prog)
    d.keep = keep
    d.run()
    emit(chk, d, pid, prefix)
    return d


def emit(chk, d, pid, prefix="", what="driver:"):
    seen = {}
    for tags, oid, ok, w, detail in d.obs:
        if pid not in tags:
            continue
        k = (oid, ok)
        seen.setdefault(k, [0, w, detail])
        seen[k][0] += 1
    # one obligation per construct; a failing partition decides it
    for (oid, ok), (n, w, detail) in seen.items():
        if ok and ((oid, False) in seen or (oid, None) in seen):
            continue
        if ok is None and (oid, False) in seen:
            continue
        chk.decide(prefix + what + oid, ok, w, detail if ok is not True else "%d partitions" % n)
    chk.count(what.rstrip(":") + "_partitions" if what else "filter_partitions", sum(1 for o in d.obs if pid in o[0]))
