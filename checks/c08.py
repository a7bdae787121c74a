"""C08: the keyword table, its lookup and the numbering of keyword tokens."""
import os, re
from vlib import compare, dump, scan
from vlib.dump import REPO, where
from vlib.eng import Engine, Path, T, mk, lift, show, S
from vlib.report import Check

KWLIST = os.path.join(REPO, "crates/lexer-generator/resources/kwlist.h")


def kwlist():
    out = {}
    with open(KWLIST) as f:
        text = re.sub(r"/\*.*?\*/", " ", f.read(), flags=re.S)
    for m in re.finditer(r'^\s*PG_KEYWORD\(\s*"([^"]+)"\s*,\s*(\w+)\s*,', text, re.M):
        out[m.group(1)] = m.group(2)
    return out


def final_map(prog):
    """The keyword map as a constant: get_keyword_map evaluated by constant propagation."""
    fn = prog.one("get_keyword_map")
    e = Engine(prog, unroll=True, panics=False, max_steps=2000000)
    finals = [p for p in e.run(fn, [])]
    if len(finals) != 1 or finals[0].status != "return":
        raise dump.AnalysisError("get_keyword_map is not a constant: %s" % [(p.status, p.why) for p in finals][:3])
    m = finals[0].ret
    if not (isinstance(m, tuple) and m[0] == "map" and m[1] is None):
        raise dump.AnalysisError("get_keyword_map does not build a map of constants")
    out = {}
    for k, v in m[2]:
        k, v = cstr(k), cstr(v)
        if k is None or v is None:
            raise dump.AnalysisError("keyword map entry is not constant")
        out[k] = v
    return fn, out


def cstr(v):
    while isinstance(v, tuple) and v[0] == "&":
        v = v[1]
    if isinstance(v, tuple) and v[0] in ("str", "String"):
        v = v[1]
    if isinstance(v, tuple) and v[0] == "s":
        return v[1]
    return None


def run(config="default", unit="postgresql_cst_parser-lib", pid="C08"):
    chk = Check(pid, "Constant propagation through get_keyword_map compared entry by entry with kwlist.h; get_keyword summarised "
                "for an arbitrary word and every partition compared with lookup of the ASCII-lowercase form; the constructor "
                "must install that map; the identifier rule's partitions must follow the lookup.", level="proof")
    prog = dump.load(config, unit)
    kw = kwlist()
    chk.count("kwlist_entries", len(kw))
    chk.guard("map", check_map, chk, prog, kw)
    chk.guard("lookup", check_lookup, chk, prog, kw)
    chk.guard("installed", check_installed, chk, prog)
    chk.guard("rule", compare.report, chk, prog, "C08")
    if pid == "C08":
        chk.guard("numbering", check_numbering, chk, prog, kw)
    return chk


def check_map(chk, prog, kw):
    fn, m = final_map(prog)
    w = where(fn)
    for k, t in sorted(kw.items()):
        if m.get(k) == t:
            chk.proved("keyword:" + k, w)
        else:
            chk.refuted("keyword:" + k, w, "kwlist.h maps %r to %s, the keyword map to %s" % (k, t, m.get(k)))
    for k in sorted(set(m) - set(kw)):
        chk.refuted("extra:" + k, w, "the keyword map holds %r, which kwlist.h does not list" % k)
    chk.count("map_entries", len(m))


def check_lookup(chk, prog, kw):
    shape = scan.LexerShape(prog)
    fn = prog.one("get_keyword")
    w = where(fn)
    e = Engine(prog, panics=False)
    p = Path()
    ref = shape.lexer(p, {})
    s = mk("sym", ("word",), "str")
    finals = e.run(fn, [ref, ("str", s)], p)
    low = mk("lower", (s,), "str")
    kmap = e.snap(p, shape.get(e, p, ref, "keyword_map"))
    bad, unclear, hits = [], [], 0
    wrong = {("to_lowercase", (s,)): "the Unicode lower-case form (the Kelvin sign becomes k)", ("to_ascii_uppercase", (s,)): "the upper-case form",
             ("to_uppercase", (s,)): "the upper-case form"}
    keys = {low: None, s: "the word as written"}
    for (op, a), d in wrong.items():
        keys[mk(op, a, "str")] = d
    for f in finals:
        if f.status != "return":
            unclear.append("%s %s" % (f.status, f.why))
            continue
        lookups = [(b, v) for b, v in f.facts.items() if isinstance(b, T) and b.op == "maphas"]
        r = f.ret
        if not (isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("Option")):
            unclear.append("result %s" % show(r))
            continue
        for b, v in lookups:
            if b.args[0] != kmap:
                unclear.append("looks the word up in %s" % show(b.args[0]))
            elif b.args[1] != ("str", low) and cont(b.args[1]) != low:
                k = cont(b.args[1])
                if k in keys and keys[k]:
                    bad.append("looks up %s instead of the ASCII-lowercase form" % keys[k])
                else:
                    unclear.append("looks up %s" % show(k))
        found = any(v == 1 and cont(b.args[1]) == low and b.args[0] == kmap for b, v in lookups)
        missed = any(v == 0 and cont(b.args[1]) == low and b.args[0] == kmap for b, v in lookups)
        others = [b for b in f.facts if not (isinstance(b, T) and b.op == "maphas")]
        if r[2] == 0 and not missed:
            # which keywords does this partition refuse?
            refuse = refused(f, s, low, kw)
            if refuse:
                bad.append("the partition %s answers None for the keyword %r" % ([show(x) for x in others][:3], refuse))
            elif others or f.iv or f.lins:
                unclear.append("None under %s" % [show(x) for x in others][:3])
            else:
                bad.append("answers None without a lookup")
        if r[2] == 1:
            hits += 1
            if not found:
                (bad if not others else unclear).append("answers Some without finding the word in the map")
            else:
                t = r[3][0]
                tok = t[1][1] if isinstance(t, tuple) and t[0] == "tup" and len(t[1]) == 2 else None
                want = mk("mapget", (kmap, ("str", low)), None)
                c = cont(tok) if tok is not None else None
                if isinstance(c, T) and c.op == "mapget" and cont(c.args[1]) == low:
                    pass
                elif c in (low, s):
                    bad.append("returns the word instead of its token")
                else:
                    unclear.append("token %s" % show(tok))
    if not hits and not unclear:
        bad.append("never finds a keyword")
    if bad:
        chk.refuted("lookup", w, "; ".join(sorted(set(bad))))
    elif unclear:
        chk.undecided("lookup", w, "; ".join(unclear))
    else:
        chk.proved("lookup", w, "%d partitions" % len(finals))


def cont(v):
    while isinstance(v, tuple) and v and v[0] in ("&", "str", "String"):
        v = v[1]
    return v


def refused(f, s, low, kw):
    """A keyword whose length the partition's facts allow although it answers None; None when none or unclear."""
    from vlib.eng import slen, eqz, lsub, streq
    for b in f.facts:
        if not simple(b, s, low):
            return None
    for k in sorted(kw):
        for x in (s, low):
            q = f.fork()
            if not q.assume(eqz(lsub(slen(x), len(k)))):
                break
            r = q.truth(streq(x, S(k)))
            if r == 0:
                break
            if any(refutes(b, v, k, s, low) for b, v in f.facts.items()):
                break
        else:
            return k
    return None


def simple(b, s, low):
    return isinstance(b, T) and (b.op in ("lez", "eqz", "streq", "ascii", "maphas") or b.op == "not" and simple(b.args[0], s, low))


def refutes(b, v, k, s, low):
    if b.op == "maphas":
        return v == 1
    return False


def check_installed(chk, prog):
    """Every function that builds a Lexer stores the result of get_keyword_map() in keyword_map."""
    shape = scan.LexerShape(prog)
    idx = shape.field("keyword_map")
    km = prog.one("get_keyword_map")
    n = 0
    for fn in prog.fns.values():
        if not any("agg" in s.get("r", {}) and s["r"].get("adt") == shape.name for b in fn["blocks"] for s in b["s"] if "r" in s):
            continue
        if "Clone" in fn["def"]:
            continue
        n += 1
        e = Engine(prog, panics=False, opaque={km["def"]})
        args = [lift(mk("sym", ("a%d" % i,), fn["locals"][i + 1]), fn["locals"][i + 1]) for i in range(fn["nargs"])]
        for f in e.run(fn, args):
            v = f.ret
            if f.status == "return" and isinstance(v, tuple) and v[0] == "adt" and v[1] == shape.name:
                x = v[3][idx]
                if isinstance(x, T) and x.op == "call" and x.args[0] == km["def"]:
                    chk.proved("installed:" + fn["def"], where(fn))
                elif isinstance(x, tuple) and x[0] == "map" and x[1] is None:
                    chk.refuted("installed:" + fn["def"], where(fn), "the scanner's keyword map is not get_keyword_map()")
                else:
                    chk.undecided("installed:" + fn["def"], where(fn), "keyword map is %s" % show(x))
            else:
                chk.undecided("installed:" + fn["def"], where(fn), "%s" % (f.why or f.status,))
    if not n:
        chk.undecided("installed", "", "no constructor of the scanner found")


def check_numbering(chk, prog, kw):
    from vlib import tables
    ids, fn = tables.token_ids(prog)
    for t in sorted(set(kw.values())):
        v = ids.get(("KEYWORD", t))
        if v is not None:
            chk.proved("terminal:" + t, where(fn))
        elif ids.get("complete"):
            chk.refuted("terminal:" + t, where(fn), "keyword token %s has no number in the parser tables" % t)
        else:
            chk.undecided("terminal:" + t, where(fn), "numbering not understood")
