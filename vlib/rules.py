"""What the scanner does when a rule of the flex specification fires.

parse_token is summarised once per (mode, rule): the matching function is replaced by "a match of n bytes of this
rule", the enclosing loop is cut where matching starts again.  Every resulting partition is one way the action can
end; it is compared with the action PostgreSQL prescribes."""
from .dump import AnalysisError, where
from .eng import Engine, Path, T, mk, lift, ladd, lsub, lez, eqz, lnot, show, S, slen, sslice, streq, adt, some, NONE, \
    loops_of, mk
from . import scan, flex, models

MATCH = "find_match_len"


class Scenario:
    pass


def callees(fn):
    for b in fn["blocks"]:
        t = b["t"]
        if t["k"] == "call" and "f" in t and t["f"]:
            yield t["f"]


def reaches(prog, target):
    """Definitions that can transitively call the definition `target`."""
    back = {}
    for fn in prog.fns.values():
        for f in callees(fn):
            back.setdefault(f.get("res"), set()).add(fn["def"])
    seen, work = {target}, [target]
    while work:
        for d in back.get(work.pop(), ()):
            if d not in seen:
                seen.add(d)
                work.append(d)
    return seen


class Scanner:
    """Everything needed to summarise token scanning in one analysed program."""

    def __init__(self, prog):
        self.prog = prog
        self.shape = scan.LexerShape(prog)
        self.match = prog.one(MATCH)
        r = reaches(prog, self.match["def"])
        toks = [f for f in prog.find("parse_token")]
        if len(toks) != 1:
            cands = [fn for d in r for fn in prog.by_def.get(d, ()) if "TokenKind" in fn["locals"][0] and "Vec" not in fn["locals"][0]]
            toks = cands
        if len(toks) != 1:
            raise AnalysisError("the token function was not found")
        self.fn = toks[0]
        self.flat = set()
        for d in r:
            for fn in prog.by_def.get(d, ()):
                for head, body in loops_of(fn).items():
                    for b in body:
                        t = fn["blocks"][b]["t"]
                        if t["k"] == "call" and t.get("f") and t["f"].get("res") in r:
                            self.flat.add((fn["def"], head))
        mty = self.match["locals"][0]
        self.rule_ty = mty.strip("()").split(",")[-1].strip()
        self.token_adt = [n for n in prog.adts if n.endswith("lexer::TokenKind")][0]
        self.error_adt = [n for n in prog.adts if n.endswith("ParserError")][0]

    def run(self, mode, value, nbytes, known=None, facts=None, panics=False):
        """Final partitions when `value` (as returned by the matching function) fires in `mode`.
        nbytes: (min, max or None); facts(p, i, n, s): adds further facts."""
        prog, shape = self.prog, self.shape
        p = Path()
        s = mk("sym", ("input",), "str")
        i = mk("sym", ("i",), "usize")
        n = mk("sym", ("n",), "usize")
        init = {"state": shape.mode(mode), "input": ("String", s), "index_bytes": i}
        init.update(known or {})
        ref = shape.lexer(p, init)
        sc = self
        begin = ("event", "match")

        def model(e, q, a, c):
            if ("match",) in q.events:
                q.status, q.why = "next", a[0]
                return [(q, None)]
            q.events = q.events + (("match",),)
            return c.finish(q, ("tup", (n, value)))
        p.assume(lez(lsub(nbytes[0], n)))
        if nbytes[1] is not None:
            p.assume(lez(lsub(n, nbytes[1])))
        p.assume(lez(lsub(ladd(i, n), slen(s))))
        if facts:
            facts(p, s, i, n)
        e = Engine(prog, panics=panics, flat=self.flat, models={self.match["def"]: model})
        finals = e.run(self.fn, [ref], p)
        return e, ref, (s, i, n), finals


# ---------------------------------------------------------------- the texts a rule can match
class Lang:
    """Lengths and bytes of the texts for which a rule wins in a mode."""

    def __init__(self, dfa, rule):
        trans, acc = dfa.trans, dfa.acc
        n = len(trans)
        goal = {s for s in range(n) if acc[s] and acc[s][0] == rule}
        eof = trans[0][flex.EOF]
        self.eof = eof is not None and eof in goal
        if self.eof:
            goal.discard(eof)
        nxt = [[] for _ in range(n)]
        for s in range(n):
            d = {}
            for b in range(1, 256):
                t = trans[s][b]
                if t is not None:
                    d.setdefault(t, []).append(b)
            nxt[s] = list(d.items())
        # states by exact distance to the goal are not needed: position sets over live paths
        back = [[] for _ in range(n)]
        for s in range(n):
            for t, bs in nxt[s]:
                back[t].append(s)
        live, work = set(goal), list(goal)
        while work:
            for s in back[work.pop()]:
                if s not in live:
                    live.add(s)
                    work.append(s)
        self.live = live
        self.empty = not goal
        cur, k, self.pos, self.min, self.max = {0}, 0, [], None, 0
        self.last = set()
        for s in live:
            for t, bs in nxt[s]:
                if t in goal:
                    self.last |= set(bs)
        reach, work = {0}, [0]
        while work:
            for t, bs in nxt[work.pop()]:
                if t in live and t not in reach:
                    reach.add(t)
                    work.append(t)
        cyc = self.cyclic(reach & live, nxt)
        while cur and k < 600:
            if cur & goal:
                if self.min is None:
                    self.min = k
                self.max = k
            new, bytes_ = set(), set()
            for s in cur:
                for t, bs in nxt[s]:
                    if t in live:
                        new.add(t)
                        bytes_ |= set(bs)
            if self.min is None:
                self.pos.append(bytes_)
            cur = new
            k += 1
            if cyc and self.min is not None:
                break
        if cyc:
            self.max = None
        if self.min is None and self.eof:
            self.min = self.max = 0
            self.pos = []

    @staticmethod
    def cyclic(states, nxt):
        color = {}
        for r in states:
            if r in color:
                continue
            st = [(r, iter([t for t, _ in nxt[r] if t in states]))]
            color[r] = 1
            while st:
                s, it = st[-1]
                for t in it:
                    if color.get(t) == 1:
                        return True
                    if t not in color:
                        color[t] = 1
                        st.append((t, iter([u for u, _ in nxt[t] if u in states])))
                        break
                else:
                    color[s] = 2
                    st.pop()
        return False


def assume_byte(p, s, i, k, bs):
    t = mk("byte", (s, ladd(i, k)), "u8")
    lo, hi = min(bs), max(bs)
    p.assume(lez(lsub(lo, t)))
    p.assume(lez(lsub(t, hi)))
    for b in range(lo, hi + 1):
        if b not in bs:
            p.assume(eqz(lsub(t, b)), 0)


# ---------------------------------------------------------------- what PostgreSQL prescribes
ANY = object()


class Case:
    """One prescribed outcome and the conditions under which it applies."""

    def __init__(self, conds, kind, **kw):
        self.conds, self.kind = conds, kind
        self.__dict__.update({"state": None, "adv": None, "start": None, "sets": {}, "tok": None, "end": None,
                              "resume": None, "payload": ANY, "msg": None, "detail": None})
        self.__dict__.update(kw)

    def text(self):
        c = " and ".join("%s%s" % ("" if v else "not ", show(b)) for b, v in self.conds) or "always"
        if self.kind == "next":
            o = "go on in mode %s after %s bytes %s" % (self.state, show(self.adv), {k: show(v) for k, v in self.sets.items()} or "")
        elif self.kind == "token":
            o = "token %s from %s to %s, continuing at %s" % (self.tok, show(self.start), show(self.end), show(self.resume))
        elif self.kind == "eof":
            o = "end of the input"
        elif self.kind == "any":
            o = "anything"
        else:
            o = "error %r" % (self.msg,)
        return "%s: %s" % (c, o)


# (index, pattern) of the rules of scan.l, so that the effects below are only used for the rules they belong to
EXPECT = {
    0: "{whitespace}", 1: "{comment}", 2: "{xcstart}", 3: "{xcstart}", 4: "{xcstop}", 5: "{xcinside}", 6: "{op_chars}",
    7: "\\*+", 8: "<<EOF>>", 9: "{xbstart}", 10: "{xhinside}", 11: "{xbinside}", 12: "<<EOF>>", 13: "{xhstart}",
    14: "<<EOF>>", 15: "{xnstart}", 16: "{xqstart}", 17: "{xestart}", 18: "{xusstart}", 19: "{quote}",
    20: "{quotecontinue}", 21: "{quotecontinuefail}", 22: "{other}", 23: "<<EOF>>", 24: "{xqdouble}",
    25: "{xqinside}", 26: "{xeinside}", 27: "{xeunicode}", 28: "{xeunicode}", 29: ".", 30: "\\n", 31: "<<EOF>>",
    32: "{xeunicodefail}", 33: "{xeescape}", 34: "{xeoctesc}", 35: "{xehexesc}", 36: ".", 37: "<<EOF>>",
    38: "{dolqdelim}", 39: "{dolqfailed}", 40: "{dolqdelim}", 41: "{dolqinside}", 42: "{dolqfailed}", 43: ".",
    44: "<<EOF>>", 45: "{xdstart}", 46: "{xuistart}", 47: "{xdstop}", 48: "{dquote}", 49: "{xddouble}", 50: "{xdinside}",
    51: "<<EOF>>", 52: "{xufailed}", 53: "{typecast}", 54: "{dot_dot}", 55: "{colon_equals}", 56: "{equals_greater}",
    57: "{less_equals}", 58: "{greater_equals}", 59: "{less_greater}", 60: "{not_equals}", 61: "{self}", 62: "{operator}",
    63: "{param}", 64: "{decinteger}", 65: "{hexinteger}", 66: "{octinteger}", 67: "{bininteger}", 68: "{hexfail}",
    69: "{octfail}", 70: "{binfail}", 71: "{numeric}", 72: "{numericfail}", 73: "{real}", 74: "{realfail}",
    75: "{integer_junk}", 76: "{numeric_junk}", 77: "{real_junk}", 78: "{identifier}", 79: "{other}", 80: "<<EOF>>",
}
ENTER = {9: "xb", 13: "xh", 16: "xq", 17: "xe", 18: "xus", 38: "xdolq", 45: "xd", 46: "xui"}
OPTOKENS = {53: "TYPECAST", 54: "DOT_DOT", 55: "COLON_EQUALS", 56: "EQUALS_GREATER", 57: "LESS_EQUALS",
            58: "GREATER_EQUALS", 59: "NOT_EQUALS", 60: "NOT_EQUALS"}
ERRORS = {8: "unterminated /* comment", 12: "unterminated bit string literal", 14: "unterminated hexadecimal string literal",
          29: "invalid Unicode surrogate pair", 30: "invalid Unicode surrogate pair", 31: "invalid Unicode surrogate pair",
          37: "unterminated quoted string", 44: "unterminated dollar-quoted string", 51: "unterminated quoted identifier",
          68: "invalid hexadecimal integer", 69: "invalid octal integer", 70: "invalid binary integer",
          74: "trailing junk after numeric literal", 75: "trailing junk after numeric literal",
          76: "trailing junk after numeric literal", 77: "trailing junk after numeric literal"}
RADIX = {64: (0, 10), 65: (2, 16), 66: (2, 8), 67: (2, 2), 72: (0, 10)}
SLICES = {"C18": set(range(64, 74)), "C25": {62}, "C27": set(range(27, 32)), "C08": {15, 78}}


def canon_text(t, s, i):
    """(bytes dropped at the front, end, underscores removed) of a slice of the matched text, or None."""
    under = False
    drop = 0
    end = None
    for _ in range(6):
        if isinstance(t, T) and t.op == "replace":
            if t.args[1] in (S("_"), ("str", S("_")), ord("_"), "_") and t.args[2] in (S(""), ("str", S("")), ""):
                under = True
                t = t.args[0]
                continue
            return None
        if isinstance(t, T) and t.op == "slice" and t.args[0] is not s:
            # slice of a rewritten text up to its end
            if not isinstance(t.args[1], int) or t.args[2] != slen(t.args[0]):
                return None
            drop += t.args[1]
            t = t.args[0]
            continue
        break
    if isinstance(t, T) and t.op == "slice" and t.args[0] is s:
        d = lsub(t.args[1], i)
        if not isinstance(d, int):
            return None
        if drop and d and under:
            pass
        return (drop + d, t.args[2], under)
    return None


MAXV = {"i8": 127, "u8": 255, "i16": 32767, "u16": 65535, "i32": 2**31 - 1, "u32": 2**32 - 1, "i64": 2**63 - 1,
        "u64": 2**64 - 1, "i128": 2**127 - 1, "u128": 2**128 - 1, "usize": 2**64 - 1, "isize": 2**63 - 1}


class Spec:
    """Prescribed cases of one (mode, rule)."""

    def __init__(self, sc, kinds_end=None):
        self.sc = sc
        self.token_names = [v["name"] for v in sc.prog.adts[sc.token_adt]["variants"]]

    def cases(self, r, mode, env):
        i, n, s, L = env.i, env.n, env.s, env.L
        text = sslice(s, i, ladd(i, n))
        end = ladd(i, n)
        ins = mode != "INITIAL"
        start = L("yylloc_bytes") if ins else i

        def nxt(state=None, adv=n, **sets):
            return Case([], "next", state=state or mode, adv=adv, start=start, sets=sets)

        def tok(kind, conds=(), end=end, start=start, resume=None, payload=ANY):
            return Case(list(conds), "token", tok=kind, start=start, end=end, resume=end if resume is None else resume,
                        payload=payload)

        def err(msg, conds=()):
            return Case(list(conds), "error", msg=msg)
        one = ladd(i, 1)
        if r in ERRORS:
            return [err(ERRORS[r])]
        if r == 0:
            return [nxt()]
        if r == 1:
            return [tok("SQL_COMMENT")]
        if r == 2:
            return [nxt("xc", 2, xcdepth=0)]
        if r == 3:
            return [nxt("xc", 2, xcdepth=ladd(L("xcdepth"), 1))]
        if r == 4:
            z = lez(L("xcdepth"))
            a, b = tok("C_COMMENT", [(z, 1)]), nxt("xc", n, xcdepth=ladd(L("xcdepth"), -1))
            b.conds = [(z, 0)]
            return [a, b]
        if r in (5, 6, 7, 10, 11, 24, 25, 26, 33, 34, 35, 36, 41, 43):
            return [nxt()]
        if r in ENTER:
            kw = {}
            if r == 38:
                kw["dolqstart"] = ("String", text)
            if r in (45, 46):
                kw["literal"] = "empty"
            return [nxt(ENTER[r], n, **kw)]
        if r == 15:
            has = env.maphas(S("nchar"))
            return [tok("KEYWORD", [(has, 1)], one, payload=("kw", S("nchar"))), tok("IDENT", [(has, 0)], one)]
        if r == 19:
            return [nxt("xqs", n, state_before_str_stop=self.sc.shape.mode(mode))]
        if r == 20:
            return [Case([], "next", state=("field", "state_before_str_stop"), adv=n, start=start)]
        if r in (21, 22, 23):
            out, others = [], []
            names = self.sc.shape.modes
            for m, k in (("xb", "BCONST"), ("xh", "XCONST"), ("xq", "SCONST"), ("xe", "SCONST"), ("xus", "USCONST")):
                c = env.isdiscr("state_before_str_stop", names.index(m))
                out.append(tok(k, [(c, 1)], i))
                others.append((c, 0))
            out.append(Case(others, "any"))
            return out
        if r == 27:
            v = env.num(2, False, 16)
            first = [(lez(lsub(0xD800, v)), 1), (lez(lsub(v, 0xDBFF)), 1)]
            second = [(lez(lsub(0xDC00, v)), 1), (lez(lsub(v, 0xDFFF)), 1)]
            out = [nxt("xeu", n)]
            out[0].conds = first
            out[0].sets = {"utf16_first_part": v}
            out.append(err("invalid Unicode surrogate pair", second))
            out.append(err("invalid Unicode escape value", [(eqz(v), 1)]))
            out.append(err("invalid Unicode escape value", [(lez(lsub(0x110000, v)), 1)]))
            a = nxt("xe", n)
            a.conds = [(lez(lsub(1, v)), 1), (lez(lsub(v, 0xD7FF)), 1)]
            b = nxt("xe", n)
            b.conds = [(lez(lsub(0xE000, v)), 1), (lez(lsub(v, 0x10FFFF)), 1)]
            return out + [a, b]
        if r == 28:
            v = env.num(2, False, 16)
            a = nxt("xe", n)
            a.conds = [(lez(lsub(0xDC00, v)), 1), (lez(lsub(v, 0xDFFF)), 1)]
            return [a, err("invalid Unicode surrogate pair", [(lez(lsub(v, 0xDBFF)), 1)]),
                    err("invalid Unicode surrogate pair", [(lez(lsub(0xE000, v)), 1)])]
        if r == 32:
            return [Case([], "report", msg="invalid Unicode escape", detail="Unicode escapes must be \\uXXXX or \\UXXXXXXXX.",
                         pos=i)]
        if r == 39:
            return [tok("RAW", [], one, payload=("text", sslice(s, i, one)))]
        if r == 40:
            eq = streq(text, env.L("dolqstart", True))
            a = nxt("xdolq", ladd(n, -1))
            a.conds = [(eq, 0)]
            return [tok("SCONST", [(eq, 1)]), a]
        if r == 42:
            return [nxt()]
        if r in (47, 48):
            z = eqz(slen(env.L("literal", True)))
            return [err("zero-length delimited identifier", [(z, 1)]),
                    tok("IDENT" if r == 47 else "UIDENT", [(z, 0)])]
        if r in (49, 50):
            return [nxt(mode, n, literal="nonempty")]
        if r == 52:
            return [tok("IDENT", [], one)]
        if r in OPTOKENS:
            return [tok(OPTOKENS[r])]
        if r == 61:
            return [tok("RAW", payload=("text", text))]
        if r == 63:
            c = env.parses(1, False, 10, "i32", end)
            return [tok("PARAM", [(c, 1)]), err("parameter number too large", [(c, 0)])]
        if r in RADIX:
            drop, radix = RADIX[r]
            e2 = end if r != 72 else ladd(end, -2)
            c = env.parses(drop, True, radix, "i32", e2)
            return [tok("ICONST", [(c, 1)], e2), tok("FCONST", [(c, 0)], e2)]
        if r in (71, 73):
            return [tok("FCONST")]
        if r == 78:
            has = env.maphas(mk("lower", (text,), "str"))
            return [tok("KEYWORD", [(has, 1)], payload=("kw", mk("lower", (text,), "str"))), tok("IDENT", [(has, 0)])]
        if r == 79:
            return [tok("RAW", payload=("text", text))]
        if r == 80:
            return [Case([], "eof")]
        return None


def text_safe(self):
    old = self.conds
    try:
        self.conds = [(b if not isinstance(b, tuple) else mk("fits", b[1:5], "bool"), v) for b, v in old]
        return self.text()
    finally:
        self.conds = old


Case.text_safe = text_safe

LIVE = {"xc": ("xcdepth",), "xqs": ("state_before_str_stop",), "xdolq": ("dolqstart",), "xd": ("literal",),
        "xui": ("literal",)}


# ---------------------------------------------------------------- how lex() turns token kinds into tokens
def text_is(p, v, s, start, end):
    """Is v the text s[start..end] of a token (which is not empty): 1 / 0 / None."""
    if v == ("String", sslice(s, start, end)):
        return 1
    if v == ("String", S("")):
        return 0
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "String" and isinstance(v[1], T) and v[1].op == "slice" and v[1].args[0] is s:
        for x, y in ((v[1].args[1], start), (v[1].args[2], end)):
            try:
                d = p.norm(lsub(x, y))
            except Unmodelled:
                return None
            if isinstance(d, int) and d != 0:
                return 0
    return None


class LexShape:
    """For each token kind: start, end, text and the next scan position, in terms of the scanner fields."""

    FIELDS = ("index_bytes", "yyleng", "yylloc_bytes", "yyllocend_bytes")

    def __init__(self, sc):
        self.sc = sc
        prog, shape = sc.prog, sc.shape
        r = reaches(prog, sc.fn["def"])
        cands = [f for f in prog.fns.values() if f["def"] in r and f["nargs"] == 1 and f["locals"][1] == "&str"
                 and "std::vec::Vec<" in f["locals"][0] and "Token" in f["locals"][0]]
        if len(cands) > 1:
            cands = [f for f in cands if f["def"].endswith("::lex")]
        if len(cands) != 1:
            raise AnalysisError("the function that collects the tokens was not found")
        self.fn = cands[0]
        self.syms = {k: mk("sym", ("at." + k,), "usize") for k in self.FIELDS}
        self.variants = prog.adts[sc.token_adt]["variants"]
        self.by_kind = {}
        for k, v in enumerate(self.variants):
            self.by_kind[v["name"]] = self.one(k, v)

    def one(self, k, v):
        sc, shape = self.sc, self.sc.shape
        payload = tuple(("String", mk("sym", ("payload",), "str")) for _ in v.get("ftys", ()))
        s = mk("sym", ("input",), "str")

        def model(e, q, a, c):
            ref = a[0]
            if ("tok",) in q.events:
                q.status, q.why = "next", ref
                return [(q, None)]
            q.events = q.events + (("tok",),)
            for f in self.FIELDS:
                path = ref[2] + (("f", shape.field(f), "usize"),)
                e.write(q, (ref[0], ref[1], path), self.syms[f])
            q.events = q.events + (("lexref", ref),)
            return c.finish(q, adt("std::result::Result", 0, adt("std::option::Option", 1, adt(sc.token_adt, k, *payload))))
        flat = set(sc.flat)
        for d in reaches(sc.prog, sc.fn["def"]):
            for fn in sc.prog.by_def.get(d, ()):
                flat |= {(d, h) for h in loops_of(fn)}
        p = Path()
        y, E, N, I = (self.syms[f] for f in ("yylloc_bytes", "yyllocend_bytes", "yyleng", "index_bytes"))
        for a, b in ((y, E), (I, slen(s)), (E, slen(s)), (ladd(I, N), slen(s)), (ladd(y, N), slen(s))):
            p.assume(lez(lsub(a, b)))
        e = Engine(sc.prog, panics=False, flat=flat, models={sc.fn["def"]: model})
        out = []
        for f in e.run(self.fn, [("str", s)], p):
            if ("tok",) not in f.events:
                continue
            out.append(self.read(e, f, k))
        return out

    def read(self, e, f, k):
        """(status, start, end, resume, kind kept, text is input[start..end], kind, text) of one partition."""
        shape = self.sc.shape
        if f.status == "return":
            return ("stop", f.ret)
        if f.status != "next":
            return ("unknown", str(f.why))
        toks = set()
        for v in f.mem.values():
            if isinstance(v, tuple) and v and v[0] == "vec" and len(v) >= 3 and v[2]:
                if all(isinstance(x, tuple) and x[0] == "adt" and x[1].endswith("::Token") for x in v[2]):
                    toks.add((v[1], v[2]))
        ref = f.why
        idx = e.read(f, (ref[0], ref[1], ref[2] + (("f", shape.field("index_bytes"), "usize"),)))
        if not toks:
            return ("none", None, None, idx)
        if len(toks) != 1:
            return ("unknown", "several token lists")
        base, items = toks.pop()
        if len(items) != 1:
            return ("unknown", "several tokens")
        name = items[0][1]
        fs = {n: v for n, v in zip(self.sc.prog.adts[name]["variants"][0]["fields"], items[0][3])}
        try:
            start, end, kind, value = fs["start_byte_pos"], fs["end_byte_pos"], fs["kind"], fs["value"]
        except KeyError:
            return ("unknown", "fields of Token")
        kept = isinstance(kind, tuple) and kind[0] == "adt" and kind[2] == k
        s = mk("sym", ("input",), "str")
        text = text_is(f, value, s, start, end)
        return ("token", start, end, idx, kept, text, kind, value)
