"""The regex build against the default build: the same matching rule per mode, the same matcher, the same actions."""
import json, re
from collections import Counter, deque
from .dump import AnalysisError, where
from .eng import Engine, Path, T, mk, ladd, lsub, lez, eqz, show
from .driver import loops_of
from .rules import Scanner, reaches
from .scan import LexerShape, subterms, unround
from . import flex, pregex, compare, operators, lexloop, scan
from .report import Check


class Rules:
    """The rule list of the program: [(mode, pattern, eof, kind)] in order."""

    def __init__(self, prog, shape):
        self.prog, self.shape = prog, shape
        self.ty = [n for n in prog.adts if n.endswith("lexer::Rule")]
        if len(self.ty) != 1:
            raise AnalysisError("the rule type was not found")
        self.ty = self.ty[0]
        self.fields = [f for f in prog.adts[self.ty]["variants"][0]["fields"]]
        cands = [f for f in prog.fns.values() if f["nargs"] == 0 and f["locals"][0].startswith("std::vec::Vec<" + self.ty)]
        if len(cands) != 1:
            raise AnalysisError("the function that builds the rules was not found")
        self.fn = cands[0]
        e = Engine(prog, panics=False, max_steps=2000000, unroll=True)
        fs = [p for p in e.run(self.fn, []) if p.status == "return"]
        if len(fs) != 1:
            raise AnalysisError("the rules are not a constant list")
        v = fs[0].ret
        if not (isinstance(v, tuple) and v[0] == "vec" and v[1] is None):
            raise AnalysisError("the rules are not a constant list: %s" % show(v)[:80])
        names = {m: shape.mode(m) for m in shape.modes}
        self.list = []
        ix = {n: i for i, n in enumerate(self.fields)}
        for x in v[2]:
            if not (isinstance(x, tuple) and x[0] == "adt" and x[1] == self.ty):
                raise AnalysisError("rule entry %s" % show(x)[:80])
            st, pat, eof, kind = (x[3][ix[k]] for k in ("state", "pattern", "eof", "kind"))
            mode = [m for m, t in names.items() if t == st]
            if not mode or eof not in (0, 1):
                raise AnalysisError("rule entry %s" % show(x)[:80])
            self.list.append((mode[0], pattern(pat), bool(eof), kind))


def pattern(t):
    """The pattern text of as(call(Regex::new, (text)), Ok).0"""
    for x in subterms(t):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith("bytes::Regex::new"):
            a = x.args[1]
            while isinstance(a, tuple) and a and a[0] in ("&", "str"):
                a = a[1]
            if isinstance(a, tuple) and a[0] == "s":
                return a[1]
    raise AnalysisError("pattern %s" % show(t)[:100])


class Mode:
    """All rules of a mode in list order against the flex automaton of the mode."""

    def __init__(self, rules, dfa):
        self.rules, self.dfa = rules, dfa       # [(LF, eof, kind)]

    def walk(self):
        """Visits every reachable product state: (text, flex state, regex winner or None, winner if the text ends here)."""
        lfs = [r[0] for r in self.rules]
        start = (tuple(l.start for l in lfs), 0, 0)
        seen = {start: b""}
        todo = deque([start])
        out = []
        self.steps = 0
        classes = self.byte_classes()
        while todo:
            cur = todo.popleft()
            ss, f, u = cur
            w = seen[cur]
            win = next((i for i, (l, s) in enumerate(zip(lfs, ss)) if l.accepts(s)), None)
            ends = [l.step(s, flex.EOF) for l, s in zip(lfs, ss)] if u == 0 else []
            ewin = next((i for i, (l, s) in enumerate(zip(lfs, ends)) if l.accepts(s)), None)
            out.append((w, f, win, ewin, u, ss))
            for b in classes:
                u2 = pregex.utf8_step(u, b)
                if u2 is None:
                    continue
                self.steps += 1
                n = (tuple(l.step(s, b) for l, s in zip(lfs, ss)), None if f is None else self.dfa.trans[f][b], u2)
                if n[1] is None and not any(s is not None for s in n[0]):
                    n = (n[0], None, 0)
                if n not in seen:
                    seen[n] = w + bytes([b])
                    if n[1] is None and not any(s is not None for s in n[0]):
                        out.append((seen[n], None, None, None, 0, n[0]))
                        continue
                    todo.append(n)
                    if len(seen) > 60000:
                        raise AnalysisError("the product automaton is too large")
        return out

    def byte_classes(self):
        """One representative for each set of bytes that no automaton of the mode distinguishes."""
        sig = {}
        sets = [s for l, _, _ in self.rules for n in l.nodes if n[0] == "set" for s in (n[1],)]
        reps = {}
        for b in range(1, 256):
            k = (tuple(b in s for s in sets), tuple(r[b] for r in self.dfa.trans), tuple(pregex.utf8_step(u, b) for u in range(8)))
            reps.setdefault(k, b)
        return sorted(reps.values())


def tables(chk, rl, states, fr, dfas):
    """Returns {mode: {flex group: kind}}; records the table obligations."""
    group = {r.index: r.group for r in fr}
    w = where(rl.fn)
    out = {}
    per = {}
    lf = {}
    for mode in states:
        rs = []
        for m, pat, eof, kind in rl.list:
            if m == mode:
                if pat not in lf:
                    lf[pat] = pregex.LF(pat)
                rs.append((lf[pat], eof, kind, pat))
        per[mode] = (rs, Mode([r[:3] for r in rs], dfas[mode]))
    votes = {}
    data = {}
    for mode, (rs, m) in per.items():
        data[mode] = m.walk()
        for text, f, win, ewin, u, ss in data[mode]:
            if f is None or not text:
                continue
            if win is not None and dfas[mode].acc[f]:
                votes.setdefault((mode, dfas[mode].acc[f][0]), Counter())[rs[win][2]] += 1
    for mode, (rs, m) in per.items():
        dfa = dfas[mode]
        kinds = {}
        es = dfa.trans[0][flex.EOF]
        eofrule = dfa.acc[es][0] if es is not None and dfa.acc[es] else None
        if eofrule is not None:
            k = [r[2] for r in rs if r[1]]
            if k:
                votes.setdefault((mode, eofrule), Counter())[k[0]] += 1
        for r in fr:
            if mode in r.states:
                c = votes.get((mode, r.index))
                if c:
                    kinds[r.index] = c.most_common(1)[0][0]
        out[mode] = kinds
        inv = {}
        for i, k in kinds.items():
            inv.setdefault(k, set()).add(i)
        bad = {}
        for text, f, win, ewin, u, ss in data[mode]:
            want = None if f is None or not dfa.acc[f] else dfa.acc[f][0]
            if not text:
                # nothing read yet: an empty match is never chosen, only the end of the text counts
                e = [i for i, (l, s) in enumerate(zip([r[0] for r in rs], ss)) if rs[i][1] and l.accepts(l.step(s, flex.EOF))]
                early = [i for i, (l, s) in enumerate(zip([r[0] for r in rs], ss)) if rs[i][1] and l.accepts(s)]
                if early:
                    bad.setdefault("eof", "rule %s fires before the end of the text" % rs[early[0]][3])
                got = rs[e[0]][2] if e else None
                if (got is None) != (eofrule is None) or got is not None and kinds.get(eofrule) != got:
                    bad.setdefault("eof", "at the end of the text the regex rules select %s" % (rs[e[0]][3] if e else "nothing"))
                continue
            eofs = [i for i, s in enumerate(ss) if rs[i][1] and (rs[i][0].accepts(s) or u == 0 and rs[i][0].accepts(rs[i][0].step(s, flex.EOF)))]
            if eofs:
                bad.setdefault("eof", "after %r rule %s is taken for the end of the text" % (text, rs[eofs[0]][3]))
            for wn, what in ((win, ""), (ewin if u == 0 and ewin != win else win, " at the end of the text")):
                got = None if wn is None else rs[wn][2]
                if want is None and got is None:
                    continue
                if want is None or got is None or want not in inv.get(got, ()) and not same_action(group, inv.get(got, ()), want):
                    bad.setdefault(want if want is not None else ("extra", str(rs[wn][3])),
                                   "the regex build selects %s where the tables select %s, after %r%s"
                                   % (rs[wn][3] if wn is not None else "no rule", fr[want].pattern if want is not None else "no rule", text, what))
        for r in fr:
            if mode not in r.states:
                continue
            oid = "regex:match:%s:%d" % (mode, r.index)
            if r.index in bad:
                chk.refuted(oid, w, bad[r.index])
            elif r.index == eofrule and "eof" in bad:
                chk.refuted(oid, w, bad["eof"])
            else:
                chk.proved(oid, w)
        for k, d in bad.items():
            if isinstance(k, tuple) or k == "eof" and eofrule is None:
                chk.refuted("regex:match:%s:%s" % (mode, "extra"), w, d)
        for r in rs:
            if not r[0].anchored:
                chk.refuted("regex:anchored:%s:%s" % (mode, show(r[2])), w, "pattern %s can match behind the scan position" % r[3])
        total(chk, mode, rs, dfa, data[mode], w)
        chk.count("product_states", len(data[mode]))
        chk.count("byte_steps", m.steps)
    return out


def same_action(group, mine, want):
    return any(group[x] == group[want] for x in mine)


def total(chk, mode, rs, dfa, data, w):
    """Every text has a match in the mode (both matchers fall back on arbitrary values otherwise)."""
    for c in range(1, 256):
        s = dfa.trans[0][c]
        if s is None or not dfa.acc[s]:
            if c in (0xC0, 0xC1) or c >= 0xF5 or 0x80 <= c < 0xC2:
                continue
            chk.undecided("regex:total:" + mode, w, "no rule matches a text that starts with byte %d" % c)
            return
    chk.proved("regex:total:" + mode, w)


def matcher(chk, prog, shape, rl):
    """The loop of the matching function: longest match, first rule on a tie, only rules of the current state."""
    fn = prog.one("find_match_len")
    w = where(fn)
    e = Engine(prog, panics=False)
    e.merge = False
    p = Path()
    ref = shape.lexer(p, {})
    i = shape.get(e, p, ref, "index_bytes")
    text = shape.get(e, p, ref, "input")
    st = shape.get(e, p, ref, "state")
    rules = shape.get(e, p, ref, "rules")
    finals = e.run(fn, [ref], p)
    loops = loops_of(e)
    if len({l.key for l in loops}) != 1:
        raise AnalysisError("the loop over the rules was not found")
    backs, exits, ch, entry = loops[-1].backs, loops[-1].exits, loops[-1].changed, loops[-1].entry
    ix = {n: k for k, n in enumerate(rl.fields)}

    def tested(q):
        """(element, find call, match) the partition looked at."""
        el = find = None
        ts = set()
        for src in (q.facts, q.eqs, q.ne, q.iv, q.strs):
            for k in src:
                ts |= set(subterms(k))
        for k in q.lins:
            ts |= set(subterms(k))
        for t in ts:
            if t.op == "call" and str(t.args[0]).endswith("bytes::Regex::find"):
                find = t
            if t.op == "elem" and t.args[0] is rules or t.op == "elem" and t.args[0] == rules:
                el = t
        return el, find

    roles = {}
    obs = {}

    def ob(name, ok, d=""):
        obs.setdefault(name, []).append((ok, d))
    upd = []
    for b in backs:
        m = e._entry_map(b, ch)
        upd.append((b, m))
    names = list(entry)
    # the role of each loop variable follows from the values it takes on updates
    for b, m in upd:
        for x in names:
            v = m.get(x)
            if v is None or v == x:
                continue
            for t in subterms(v) if isinstance(v, (T, tuple)) else ():
                if t.op == "call" and "Match" in str(t.args[0]) and str(t.args[0]).split("::")[-1] in ("len", "end"):
                    roles.setdefault("len", x)
            if isinstance(v, T) and v.op == "fld" and v.args[0].op == "elem":
                k = v.args[1]
                if k == ix["eof"]:
                    roles.setdefault("eof", x)
                elif k == ix["kind"]:
                    roles.setdefault("kind", x)
    if "len" not in roles or "kind" not in roles or "eof" not in roles:
        raise AnalysisError("roles of the loop variables: %s" % {k: show(v) for k, v in roles.items()})
    L, E, K = roles["len"], roles["eof"], roles["kind"]
    ob("matcher:entry", entry[L] == 0 and entry[E] == 0, "the longest match starts as %s" % show(entry[L]))
    z = mk("sym", ("input",), "str")
    for b, m in upd:
        el, find = tested(b)
        if el is None:
            ob("matcher:update", None, "a step without a rule")
            continue
        same = b.truth(eqz(lsub(e.discr(b, st), state_of(e, b, el, ix))))
        changed = [x for x in names if m.get(x) != x and "iter" not in str(x.args[0])] if True else []
        yield_ = (b, m, el, find, same)
        if find is None:
            # not searched: only allowed when the rule belongs to another state
            ob("matcher:only-other-states-skipped", True if same == 0 else None if same is None else False, "a rule of the current state is not tried")
            ob("matcher:update", not changed or False, "a skipped rule changes the result")
            continue
        ob("matcher:state", True if same == 1 else False if same == 0 else None, "rules of other states are tried")
        hay = find.args[2]
        ok = haystack(b, hay, text, i)
        ob("matcher:text", ok, "the rules are matched against %s" % show(hay)[:80])
        pat = find.args[1]
        ob("matcher:pattern", show(el) in show(pat), "pattern %s" % show(pat)[:80])
        found = b.truth(eqz(ladd(e.discr(b, find), -1)))
        eof = b.truth(field(el, ix["eof"], b))
        if found is None:
            d = [v for t, v in b.iv.items() if show(t) == show(e.discr(b, find))]
            ob("matcher:update", None, "undetermined search result")
            continue
        if not found:
            ob("matcher:update", not changed, "a rule that does not match changes the result")
            continue
        ln = [t for t in terms(b, m) if t.op == "call" and "Match" in str(t.args[0]) and str(t.args[0]).split("::")[-1] in ("len", "end")]
        if eof is None:
            ob("matcher:update", None, "end-of-text flag not looked at")
            continue
        cand = 1 if eof else (ln[0] if ln else None)
        if cand is None:
            ob("matcher:update", None, "the length of the match is not used")
            continue
        longer = b.truth(lez(lsub(ladd(L, 1), cand)))
        if longer is None:
            ob("matcher:longest", None if changed else None, "a match of length %s against %s" % (show(cand)[:40], show(L)[:20]))
            continue
        if longer:
            ob("matcher:longest", b.norm(lsub(m[L], cand)) == 0 if L in m else False, "a longer match leaves the length %s" % show(m.get(L))[:60])
            k = m.get(K)
            ob("matcher:kind", isinstance(k, T) and k.op == "fld" and k.args[1] == ix["kind"] and k.args[0] == el, "a longer match sets the kind %s" % show(k)[:60])
            ev = m.get(E)
            ob("matcher:eof", b.norm(ev) == int(bool(eof)) or isinstance(ev, T) and ev == field(el, ix["eof"], b), "a longer match sets the end mark %s" % show(ev)[:60])
        else:
            ob("matcher:first", not changed, "a match that is not longer replaces the earlier rule")
    # what is skipped by an iterator filter
    for q in e.skipped:
        el, _ = tested(q)
        same = q.truth(eqz(lsub(e.discr(q, st), state_of(e, q, el, ix)))) if el is not None else None
        ob("matcher:only-other-states-skipped", True if same == 0 else None if same is None else False, "a rule of the current state is not tried")
    for x in exits:
        m = e._entry_map(x, ch)
        done = all(m.get(v) in (v, None) for v in (L, E, K))
        it = [ev for ev in x.events]
        early = tested(x)[1] is not None
        ob("matcher:exhaustive", None if early else True, "the loop stops at a rule")
    rest = None
    for f in finals:
        if f.status != "return":
            continue
        r = f.ret
        if not (isinstance(r, tuple) and r[0] == "tup" and len(r[1]) == 2):
            ob("matcher:result", None, show(r)[:80])
            continue
        ln, kd = r[1]
        ev = f.truth(E) if isinstance(E, T) else None
        ob("matcher:result-kind", True if kd == K else False, "the kind returned is %s" % show(kd)[:60])
        rest = lsub(ladd(mk("len", (text[1] if isinstance(text, tuple) else text,), "usize"), 0), i)
        if ev is None:
            ob("matcher:result", None, "end mark not looked at")
        elif ev:
            ob("matcher:result", f.norm(ln) == 0 if not isinstance(ln, tuple) else False, "at the end of the text the length is %s" % show(ln)[:60])
        else:
            u = unround(f, ln, L, rest)
            ob("matcher:result", u == "rounded" if u else False, "the length returned is %s" % show(ln)[:60])
    for need in ("matcher:longest", "matcher:first", "matcher:kind", "matcher:only-other-states-skipped", "matcher:result"):
        obs.setdefault(need, [(None, "not seen")])
    for name, xs in sorted(obs.items()):
        f = [x for x in xs if x[0] is False] or [x for x in xs if x[0] is None]
        chk.decide("regex:" + name, f[0][0] if f else True, w, f[0][1] if f else "%d partitions" % len(xs))
    chk.count("matcher_partitions", len(upd) + len(exits) + len(finals))


def terms(q, m):
    ts = set()
    for src in (q.facts, q.eqs, q.ne, q.iv, q.strs):
        for k in src:
            ts |= set(subterms(k))
    for k in q.lins:
        ts |= set(subterms(k))
    for v in m.values():
        ts |= set(subterms(v))
    return sorted(ts, key=lambda t: t.n)


def field(el, k, q):
    for t in q.facts:
        for x in subterms(t):
            if x.op == "fld" and x.args[0] == el and x.args[1] == k:
                return x
    return mk("fld", (el, k), "bool")


def state_of(e, q, el, ix):
    for src in (q.facts, q.eqs, q.ne, q.iv):
        for t in src:
            for x in subterms(t):
                if x.op == "discr" and isinstance(x.args[0], T) and x.args[0].op == "fld" and x.args[0].args[0] == el and x.args[0].args[1] == ix["state"]:
                    return x
    return mk("discr", (mk("fld", (el, ix["state"])),), "isize")


def haystack(q, hay, text, i):
    t = hay
    while isinstance(t, tuple) and t and t[0] in ("&", "bytes", "str", "String"):
        t = t[1]
    s = text[1] if isinstance(text, tuple) else text
    if isinstance(t, T) and t.op == "slice":
        a = t.args
        if a[0] == s and q.norm(lsub(a[1], i)) == 0:
            return q.norm(lsub(a[2], mk("len", (s,), "usize"))) == 0
        return False
    return None if not isinstance(t, T) else False


# ---------------------------------------------------------------- the rest of the program
SKIP = re.compile(r"Cs[0-9a-zA-Z]+_")


def canon(f, lx):
    name = {i: n for n, i in lx.fields.items()}

    def place(x):
        """Fields of the scanner structure by name: one build has a field more."""
        if x[0] < len(f["locals"]) and str(f["locals"][x[0]]).lstrip("&").replace("mut ", "") == lx.name:
            proj = list(x[1])
            for k, y in enumerate(proj):
                if isinstance(y, dict) and "f" in y:
                    proj[k] = dict(y, f=name.get(y["f"]))
                    break
                if y != "*":
                    break
            return [x[0], proj]
        return x

    def go(x):
        if isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)):
            x = place(x)
        if isinstance(x, dict):
            return {str(k): go(v) for k, v in x.items() if k not in ("id", "line", "l")}
        if isinstance(x, (set, frozenset)):
            return sorted((go(v) for v in x), key=str)
        if isinstance(x, (list, tuple)):
            return [go(v) for v in x]
        if isinstance(x, str):
            return SKIP.sub("Cs_", x)
        return x if isinstance(x, (int, float, type(None))) else str(x)
    return json.dumps(go({k: f[k] for k in KEYS}), sort_keys=True)


KEYS = ("def", "nargs", "locals", "blocks")


def others(chk, a, b, sc):
    """Functions that are not part of scanning are the same in both builds."""
    la, lb = LexerShape(a), LexerShape(b)
    lx = lexloop.LexShape(sc).fn["def"]
    seen, work = {lx}, [lx]
    calls = {}
    for d, fs in b.by_def.items():
        for f in fs:
            for bl in f["blocks"]:
                for m in re.finditer(r'"(?:def|res)": "([^"]+)"', json.dumps(bl["t"], default=list)):
                    calls.setdefault(d, set()).add(m.group(1))
    while work:
        for d in calls.get(work.pop(), ()):
            if d not in seen and d in b.by_def:
                seen.add(d)
                work.append(d)
    lexing = seen
    outside = []
    n = 0
    for d in sorted(set(a.by_def) | set(b.by_def)):
        base = d
        x, y = a.by_def.get(d), b.by_def.get(d)
        if x is None or y is None:
            if d in lexing or d.split("::{closure")[0] in lexing or "lexer::generated" in d:
                continue
            outside.append((d, (x or y)[0], "exists in one build only"))
            continue
        n += 1
        if sorted(canon(f, la) for f in x) != sorted(canon(f, lb) for f in y):
            if d in lexing or d.split("::{closure")[0] in lexing:
                continue
            outside.append((d, y[0], "differs between the two builds"))
    chk.count("functions_compared", n)
    for d, f, what in outside:
        chk.undecided("regex:same:" + d, where(f), what)
    if not outside:
        chk.proved("regex:same", "", "%d functions; those that differ take part in scanning and are compared by their effects" % n)


def initial(chk, a, b):
    """Both builds start scanning from the same fields; the rule list is installed and never replaced."""
    vals = {}
    for name, prog in (("default", a), ("regex", b)):
        shape = LexerShape(prog)
        new = [f for f in prog.fns.values() if f["locals"][0] == shape.name and f["nargs"] == 1 and f["locals"][1] == "&str"]
        if len(new) != 1:
            raise AnalysisError("the scanner's constructor was not found")
        models = {}
        if name == "regex":
            rl = [f for f in prog.fns.values() if f["nargs"] == 0 and re.match(r"std::vec::Vec<.*lexer::Rule,", f["locals"][0])]
            for f in rl:
                models[f["def"]] = lambda e, q, x, c: c.finish(q, mk("sym", ("rules",), None))
        for f in prog.fns.values():
            if f["nargs"] == 0 and "HashMap<&str,&str" in f["locals"][0].replace(" ", ""):
                models[f["def"]] = lambda e, q, x, c: c.finish(q, mk("sym", ("keywords",), None))
        e = Engine(prog, panics=False, models=models)
        fs = [q for q in e.run(new[0], [("str", mk("sym", ("input",), "str"))], Path()) if q.status == "return"]
        if len(fs) != 1 or fs[0].ret[0] != "adt":
            raise AnalysisError("the scanner's constructor: %d partitions" % len(fs))
        vals[name] = ({n: show(fs[0].ret[3][shape.field(n)]) for n in shape.fields}, where(new[0]))
    d, r = vals["default"][0], vals["regex"][0]
    w = vals["regex"][1]
    for k in sorted(set(d) | set(r)):
        if k not in d:
            if k == "rules":
                chk.decide("regex:init:rules", r[k] == show(mk("sym", ("rules",), None)) or None, w, "the rules installed are %s" % r[k][:80])
            continue
        chk.decide("regex:init:" + k, d[k] == r.get(k), w, "%s starts as %s instead of %s" % (k, str(r.get(k))[:60], d[k][:60]))
    bad = []
    rule = "std::vec::Vec<" + [n for n in b.adts if n.endswith("lexer::Rule")][0]
    for f in b.fns.values():
        for bl in f["blocks"]:
            for s in bl["s"]:
                if "p" in s and any(isinstance(x, dict) and str(x.get("t", "")).startswith(rule) for x in s["p"][1]):
                    bad.append((f, "writes the rule list"))
                r = s.get("r")
                if isinstance(r, dict) and "ref" in r and r.get("k") not in ("shr", "fake") and any(
                        isinstance(x, dict) and str(x.get("t", "")).startswith(rule) for x in r["ref"][1]):
                    bad.append((f, "borrows the rule list mutably"))
    if bad:
        chk.undecided("regex:init:rules-kept", where(bad[0][0]), bad[0][1])
    else:
        chk.proved("regex:init:rules-kept", w)


def report(chk, a, b):
    shape = LexerShape(b)
    defs, states, fr, trees, dfas = flex.mode_dfas()
    rl = Rules(b, shape)
    chk.count("regex_rules", len(rl.list))
    kinds = chk.guard("regex:match", tables, chk, rl, states, fr, dfas)
    chk.guard("regex:matcher", matcher, chk, b, shape, rl)
    chk.guard("regex:same", others, chk, a, b, Scanner(b))
    chk.guard("regex:init", initial, chk, a, b)
    if kinds is None:
        return
    # the actions: each compared with the same prescription in both builds; they must agree with it, or fail alike
    mine = Check("C15", "")
    base = Check("C15", "")

    def values(sc, mode, dfa):
        return kinds[mode]
    for c, prog, v in ((mine, b, values), (base, a, compare.values_table)):
        c.guard("rules", compare.report, c, prog, "C15", v, "regex:")
        c.guard("operator", operators.report, c, prog, "C15", v, "regex:")
        c.guard("lex", lexloop.report, c, prog, "C07")
    for k, n in mine.counts.items():
        chk.count(k, n)

    def table(c):
        out = {}
        for oid, verdict, w, d in c.obs:
            out.setdefault(oid, []).append((verdict, w, d))
        return out
    x, y = table(mine), table(base)
    for oid in sorted(set(x) | set(y)):
        m, o = x.get(oid, []), y.get(oid, [])
        w = (m or o)[0][1]
        mr, orf = [t for t in m if t[0] == "refuted"], [t for t in o if t[0] == "refuted"]
        mu, ou = [t for t in m if t[0] == "undecided"], [t for t in o if t[0] == "undecided"]
        if not m or not o or mu or ou:
            chk.undecided(oid, w, ((mu or ou) or [("", "", "seen in one build only")])[0][2])
        elif mr and orf:
            if sorted(t[2] for t in mr) == sorted(t[2] for t in orf):
                chk.proved(oid, w, "both builds deviate alike")
            else:
                chk.undecided(oid, w, "both builds deviate from the prescription: %s / %s" % (mr[0][2][:100], orf[0][2][:100]))
        elif mr or orf:
            chk.refuted(oid, (mr or orf)[0][1], "only the %s build: %s" % ("regex" if mr else "default", (mr or orf)[0][2]))
        else:
            chk.proved(oid, w)
