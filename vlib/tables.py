"""The parser's numbering functions and tables, read off the analysed program."""
from .dump import AnalysisError, where
from .eng import Engine, T, Arr, mk, lift, show

_memo = {}


def cont(v):
    while isinstance(v, tuple) and v and v[0] in ("&", "str", "String"):
        v = v[1]
    return v


def variants(prog, suffix):
    return [v["name"] for v in prog.adt(suffix)["variants"]]


def token_ids(prog):
    """({(TokenKind variant, text or None): id}, function).  The key "complete" tells whether every partition was
    understood; a kind that is absent then has no number."""
    k = ("tok", prog.config, prog.unit)
    if k in _memo:
        return _memo[k]
    fn = prog.one("token_kind_to_component_id")
    names = variants(prog, "lexer::TokenKind")
    ids, ok = {}, True
    for vi, name in enumerate(names):
        payload = prog.adt("lexer::TokenKind")["variants"][vi]["fields"]
        e = Engine(prog, panics=False)
        s = mk("sym", ("text",), "str")
        args = (("String", s),) if payload else ()
        adt = [n for n in prog.adts if n.endswith("lexer::TokenKind")][0]
        from .eng import Path
        p = Path()
        cell = ("arg", "kind")
        p.mem[cell] = ("adt", adt, vi, args)
        ty = fn["locals"][1]
        arg = ("ref", cell, ()) if ty.startswith("&") else p.mem[cell]
        for f in e.run(fn, [arg], p):
            if f.status != "return":
                ok = False
                continue
            r = f.ret
            if isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("Option"):
                r = None if r[2] == 0 else r[3][0]
            if r is not None and not isinstance(r, int):
                ok = False
                continue
            txt = None
            if payload:
                st = f.strs.get(s)
                txt = st[0] if st else None
                if txt is None:
                    if r is not None:
                        ok = False          # a number for words that are not listed
                        ids[(name, "*")] = r
                    continue
            if r is not None:
                ids.setdefault((name, txt), r)
    _memo[k] = (dict(ids, complete=ok), fn)
    return _memo[k]


def rule_ids(prog):
    """({rule name: number}, complete, function)."""
    k = ("rule", prog.config, prog.unit)
    if k in _memo:
        return _memo[k]
    fn = prog.one("rule_name_to_component_id")
    e = Engine(prog, panics=False)
    s = mk("sym", ("rule",), "str")
    ids, ok = {}, True
    for f in e.run(fn, [("str", s)]):
        if f.status == "panic" or f.status == "unreachable":
            continue
        if f.status != "return" or not isinstance(f.ret, int):
            ok = False
            continue
        st = f.strs.get(s)
        if not st or st[0] is None:
            ok = False
            continue
        ids.setdefault(st[0], f.ret)
    _memo[k] = (ids, ok, fn)
    return _memo[k]


def const_fn(prog, name):
    fn = prog.one(name)
    e = Engine(prog, panics=False)
    fs = e.run(fn, [])
    if len(fs) != 1 or fs[0].status != "return":
        raise AnalysisError("%s is not a constant" % name)
    return fs[0].ret, fn


def static_ints(prog, name):
    c = [v for n, v in prog.statics.items() if n.endswith("::" + name)]
    if len(c) != 1 or "ints" not in c[0].get("v", {}):
        raise AnalysisError("table %s not found" % name)
    return c[0]["v"]["ints"]


def rules(prog):
    """[(lhs name, length)] of the parser's rule table."""
    c = [v for n, v in prog.statics.items() if n.endswith("::RULES")]
    if len(c) != 1:
        raise AnalysisError("rule table not found")
    e = Engine(prog)
    out = []
    ad = prog.adt("parser::Rule")["variants"][0]["fields"]
    ni, li = ad.index("name"), ad.index("len")
    arr = e.cval(c[0]["v"], c[0].get("ty"))
    for v in arr.v:
        if not (isinstance(v, tuple) and v[0] == "adt"):
            raise AnalysisError("rule entry not understood")
        n, l = cont(v[3][ni]), v[3][li]
        if not (isinstance(n, tuple) and n[0] == "s" and isinstance(l, int)):
            raise AnalysisError("rule entry not understood: %s" % show(v))
        out.append((n[1], l))
    return out


def syntax_kinds(prog):
    """[(variant, discriminant)] of the public kind enumeration."""
    a = prog.adt("syntax_kind::SyntaxKind")
    return [(v["name"], v.get("discr", i)) for i, v in enumerate(a["variants"])]


def terminal_key(t):
    """The scanner's name of a grammar terminal, apart from the TokenKind variant."""
    if t == "$end":
        return ("RAW", "$end")
    if t.startswith("'"):
        return ("RAW", t[1:-1].replace("\\", "") if len(t) > 3 else t[1:-1])
    return None


def terminal_ids(prog, terms):
    """{grammar terminal: number} under token_ids; terminals without a number are absent."""
    ids, fn = token_ids(prog)
    names = variants(prog, "lexer::TokenKind")
    out = {}
    for t in terms:
        k = terminal_key(t)
        if k is None:
            k = (t, None) if t in names else ("KEYWORD", t)
        if k in ids:
            out[t] = ids[k]
    return out, ids, fn
