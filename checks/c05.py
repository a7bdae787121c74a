"""C05: numbering functions, tables and the public kind enumeration agree for every symbol."""
from vlib import dump, gram, tables
from vlib.dump import where
from vlib.eng import Engine, Path, mk, show, T
from vlib.report import Check

NAMES = {"-": "Minus", ",": "Comma", ";": "Semicolon", ":": "Colon", "!": "Exclamation", "?": "Question", ".": "Dot",
         '"': "DQuote", "(": "LParen", ")": "RParen", "[": "LBracket", "]": "RBracket", "{": "LBrace", "}": "RBrace",
         "@": "At", "*": "Star", "/": "Slash", "'": "Quote", "\\": "Backslash", "&": "Ampersand", "#": "Pound",
         "%": "Percent", "`": "Backtick", "^": "Caret", "+": "Plus", "<": "Less", "=": "Equals", ">": "Greater",
         "|": "Pipe", "~": "Tilde", "$": "Dollar"}


def public_name(sym):
    s = sym[1:-1] if sym.startswith("'") and sym.endswith("'") and len(sym) > 2 else sym
    return "".join(NAMES.get(c, c) for c in s)


def run(config="default", unit="postgresql_cst_parser-lib", pid="C05"):
    chk = Check(pid, "The number of every terminal, nonterminal and comment kind is read off the partitions of the conversion "
                "functions and compared with the position of the variant of that name in SyntaxKind; the derived "
                "conversions of SyntaxKind and the driver's computation of a node's number are checked on their MIR.",
                level="proof")
    prog = dump.load(config, unit)
    chk.guard("numbers", numbers, chk, prog)
    chk.guard("raw", raw, chk, prog)
    try:
        from vlib import driver
    except ImportError:
        return chk
    chk.guard("driver", driver.report, chk, prog, pid)
    return chk


def numbers(chk, prog):
    g = gram.grammar()
    kinds = dict((int(d), n) for n, d in tables.syntax_kinds(prog))
    byname = {n: d for d, n in kinds.items()}
    chk.count("syntax_kinds", len(kinds))
    tid, ids, tfn = tables.terminal_ids(prog, g.terms)
    w = where(tfn)
    nt, nfn = tables.const_fn(prog, "num_terminal_symbol")
    for t in g.terms:
        name = public_name(t)
        if t not in tid:
            if ids["complete"]:
                chk.refuted("terminal:" + t, w, "terminal %s has no number" % t)
            else:
                chk.undecided("terminal:" + t, w, "number of %s not understood" % t)
        elif kinds.get(tid[t]) != name:
            chk.refuted("terminal:" + t, w, "terminal %s has number %d, which is the public kind %s instead of %s" % (
                t, tid[t], kinds.get(tid[t]), name))
        else:
            chk.proved("terminal:" + t, w)
    for t in ("C_COMMENT", "SQL_COMMENT"):
        v = ids.get((t, None))
        if v is None or kinds.get(v) != t:
            (chk.refuted if ids["complete"] else chk.undecided)("comment:" + t, w, "%s has number %s, public kind %s" % (t, v, kinds.get(v)))
        else:
            chk.proved("comment:" + t, w)
    used = set(tid.values()) | {ids.get((t, None)) for t in ("C_COMMENT", "SQL_COMMENT")}
    for k, v in sorted((k, v) for k, v in ids.items() if k != "complete"):
        if v not in used:
            if v in kinds and ids["complete"]:
                chk.refuted("extra:%s" % (k,), w, "token %s gets number %d (%s), which is no terminal" % (k, v, kinds[v]))
    seen = {}
    for k, v in ids.items():
        if k == "complete":
            continue
        if v in seen:
            chk.refuted("dup:%s" % (k,), w, "tokens %s and %s share number %d (%s)" % (k, seen[v], v, kinds.get(v)))
        seen[v] = k
    rid, ok, rfn = tables.rule_ids(prog)
    w = where(rfn)
    for n in list(g.nonterms) + ["$accept"]:
        name = public_name(n)
        if n not in rid:
            if n != "$accept":
                (chk.refuted if ok else chk.undecided)("nonterminal:" + n, w, "nonterminal %s has no number" % n)
        elif kinds.get(rid[n] + nt) != name:
            chk.refuted("nonterminal:" + n, w, "nonterminal %s has number %d + %d, which is the public kind %s instead of %s" % (
                n, nt, rid[n], kinds.get(rid[n] + nt), name))
        else:
            chk.proved("nonterminal:" + n, w)
    for i, (n, _) in enumerate(tables.rules(prog)):
        if n in rid:
            continue
        (chk.refuted if ok else chk.undecided)("rulename:%d" % i, "RULES[%d]" % i, "rule name %s has no number" % n)
    end, efn = tables.const_fn(prog, "end_rule_id")
    chk.count("terminals", len(g.terms))
    chk.count("nonterminals", len(g.nonterms))
    for n in ("Whitespace", "Root"):
        chk.decide("kind:" + n, n in byname or None, "SyntaxKind", "no such kind")


def raw(chk, prog):
    """from_raw / into_raw / From<SyntaxKind> are the identity on numbers."""
    kinds = tables.syntax_kinds(prog)
    for fn in prog.fns.values():
        d = fn["def"]
        if d.endswith("SyntaxKind as cstree::Syntax>::into_raw") or d.endswith("cstree::RawSyntaxKind>::from") and "SyntaxKind" in d:
            e = Engine(prog, panics=False)
            bad = unclear = None
            for i, (n, k) in enumerate(kinds):
                fs = e.run(fn, [("adt", [x for x in prog.adts if x.endswith("syntax_kind::SyntaxKind")][0], i, ())])
                if len(fs) != 1 or fs[0].status != "return":
                    unclear = "conversion of %s not understood" % n
                    break
                r = fs[0].ret
                v = r[3][0] if isinstance(r, tuple) and r[0] == "adt" and r[3] else None
                if v != int(k):
                    if isinstance(v, int):
                        bad = "%s becomes raw number %s instead of %s" % (n, v, k)
                    else:
                        unclear = "raw number of %s is %s" % (n, show(r))
                    break
            if bad:
                chk.refuted("into_raw:" + d, where(fn), bad)
            elif unclear:
                chk.undecided("into_raw:" + d, where(fn), unclear)
            else:
                chk.proved("into_raw:" + d, where(fn))
        elif d.endswith("SyntaxKind as cstree::Syntax>::from_raw"):
            e = Engine(prog, panics=False)
            x = mk("sym", ("raw",), "u32")
            fs = [f for f in e.run(fn, [("adt", "cstree::RawSyntaxKind", 0, (x,))]) if f.status == "return"]
            def ident(f):
                r = f.ret
                if isinstance(r, tuple) and r[0] == "adt" and f.itv(x)[0] == f.itv(x)[1]:
                    return int(kinds[r[2]][1]) == f.itv(x)[0]
                return isinstance(r, T) and r.op == "transmute" and r.args[0] == x or None
            v = [ident(f) for f in fs]
            hi = max(f.itv(x)[1] for f in fs) if fs else None
            if False in v:
                f = fs[v.index(False)]
                chk.refuted("from_raw", where(fn), "raw number %s becomes kind %s" % (f.itv(x)[0], kinds[f.ret[2]][0]))
            elif fs and all(v) and hi == len(kinds) - 1:
                chk.proved("from_raw", where(fn), "%d partitions" % len(fs))
            else:
                chk.undecided("from_raw", where(fn), "numbers up to %s" % hi)
