"""The browser entry point: every partition of it returns a text made from what the parser answered."""
from .dump import where
from .eng import Engine, T, mk, show
from .effects import calls, name, local


def walk(v, f, seen=None):
    """Calls f on every term inside v."""
    st = [v]
    while st:
        x = st.pop()
        f(x)
        if isinstance(x, T):
            st += list(x.args)
        elif isinstance(x, (tuple, list)):
            st += list(x)


def mentions(v, call, variant):
    """Does v contain the payload of the given variant of the parser's answer (or the whole answer)?"""
    hit = []

    def f(x):
        if isinstance(x, T) and x.op == "as" and call in x.args and variant in x.args:
            hit.append(x)
    walk(v, f)
    return bool(hit)


def report(chk, prog, entry="parse_sql"):
    fn = prog.one(prog.crate + "::" + entry)
    w = where(fn)
    sql = mk("sym", ("sql",), "&str")
    e = Engine(prog, panics=True)
    if fn["nargs"] != 1:
        chk.undecided("signature", w, "the entry point takes %d arguments" % fn["nargs"])
        return
    fs = e.run(fn, [sql])
    seen = {}
    for q in fs:
        chk.count("partitions")
        ps = [ev for ev in q.events if ev[0] == "call" and str(ev[1]).endswith("postgresql_cst_parser::parse")]
        if q.status in ("panic", "diverge"):
            chk.refuted("no-trap", w, "a path ends in a panic: %s" % (q.why,))
            continue
        if q.status == "unreachable":
            continue
        if q.status != "return":
            chk.undecided("path", w, "a path ends with %s" % q.status)
            continue
        if not ps:
            chk.refuted("asks-parser", w, "a path answers without parsing the text: %s" % show(q.ret)[:200])
            continue
        if any(tuple(ev[2]) != (sql,) for ev in ps):
            ev = [ev for ev in ps if tuple(ev[2]) != (sql,)][0]
            chk.refuted("same-text", w, "the parser is given %s instead of the text" % show(ev[2][0])[:200])
            continue
        call = ps[-1][3]
        iv = q.itv(discr_of(q, call))
        vs = [v for v in (0, 1) if iv[0] <= v <= iv[1]]
        if len(vs) > 1:
            dd = excluded(q, call)
            vs = [v for v in vs if v not in dd]
        for v in vs:
            seen.setdefault(v, []).append((q, call))
    for v, what in ((0, "tree"), (1, "error")):
        if not seen.get(v):
            chk.refuted("answers:" + what, w, "no path returns for a parse that yields %s" % ("a tree" if v == 0 else "an error")) if fs and all(
                q.status in ("return", "panic", "diverge") for q in fs) else chk.undecided("answers:" + what, w, "not found")
            continue
        bad = unk = None
        for q, call in seen[v]:
            if mentions(q.ret, call, v):
                continue
            opaque = []
            if handed(q, call):
                unk = q
                continue
            walk(q.ret, lambda x: opaque.append(x) if isinstance(x, T) and x.op in ("call", "phi", "havoc") and x != call else None)
            if opaque and not isinstance(q.ret, tuple):
                unk = q
            else:
                bad = q
        if bad is not None:
            chk.refuted("answers:" + what, w, "the text returned does not render the %s: %s" % (what, show(bad.ret)[:300]))
        elif unk is not None:
            chk.undecided("answers:" + what, w, "what is returned is %s" % show(unk.ret)[:300])
        else:
            chk.proved("answers:" + what, w, "%d partitions" % len(seen[v]))
    if not any(o[0] in ("no-trap", "path") for o in chk.obs):
        chk.proved("no-trap", w, "every partition returns")
    if not any(o[0] in ("same-text", "asks-parser") for o in chk.obs):
        chk.proved("same-text", w, "the parser is given the text itself")
    bad = []
    for _, bi, t, f in calls(prog, [fn["id"]]):
        if t.get("to") is None or name(f).endswith("throw_str") or "process::" in name(f):
            bad.append((t, name(f)))
    chk.decide("calls", not bad, where(fn, bad[0][0].get("l")) if bad else w, "calls %s" % bad[0][1] if bad else "no diverging call")
    exp = [x for x in prog.fns.values() if "__wasm_bindgen_generated_" + entry in x["def"]]
    ok = any(name(f).endswith("::" + entry) for x in exp for _, _, _, f in calls(prog, [x["id"]]))
    chk.decide("exported", True if ok else None if exp else False, w, "the binding %s" % ("calls it" if ok else "was not found"))


def handed(q, call):
    """Does some call that is not interpreted take the answer (so that what it returns may render it)?"""
    for ev in q.events:
        if ev[0] != "call" or len(ev) < 4 or ev[3] == call:
            continue
        hit = []
        walk(list(ev[2]), lambda x: hit.append(x) if x == call else None)
        if hit:
            return True
    return False


def discr_of(q, call):
    return mk("discr", (call,), "isize")


def excluded(q, call):
    out = set()
    for v in (0, 1):
        from .eng import cmp_int
        b = cmp_int("Eq", discr_of(q, call), v)
        if q.truth(b) is False or q.truth(b) == 0:
            out.add(v)
    return out
