"""One pass through a loop (or one run of a block region) from an arbitrary state."""
from .eng import Engine, Path, T, Unmodelled, lift, mk, eqz, lsub, show, loops_of as block_loops
from .driver import atoms


def tag(fn):
    return fn["def"].split("::", 1)[-1]


def args_of(fn):
    """Unknown arguments."""
    return [lift(mk("sym", ("a%d:%s" % (i, tag(fn)),), fn["locals"][i + 1]), fn["locals"][i + 1]) for i in range(fn["nargs"])]


def start(e, fn, path=None):
    """A path at an arbitrary point of fn: every local is unknown."""
    p = path or Path()
    r = e.start(fn, args_of(fn), p)
    p = r if not isinstance(r, int) else p
    fid = p.frames[-1].fid
    for i, ty in enumerate(fn["locals"]):
        if i > fn["nargs"]:
            p.mem[(fid, i)] = lift(mk("sym", ("v%d:%s" % (i, tag(fn)),), ty), ty)
    return p, fid


def region(e, fn, head, body):
    """[(path, block, kind)] leaving `body` (kind exit) or coming back to `head` (back); returning paths are in e.finals."""
    p, fid = start(e, fn)
    e.finals = []
    out = e.explore([(p, head)], (fid, head, set(body), {"first": True}))
    return [x for x in out if possible(e.prog, x[0])], fid


def possible(prog, q):
    """False if a discriminant lies outside its type (unreachable arms)."""
    for t in atoms(q):
        if t.op == "discr" and isinstance(t.args[0], T):
            ty = (t.args[0].ty or "")
            n = None
            if ty.startswith("std::option::Option<") or ty.startswith("std::result::Result<"):
                n = [0, 1]
            else:
                a = prog.adts.get(ty) or prog.adts.get(ty.split("<")[0])
                if a and a.get("kind") == "enum":
                    n = [int(v["discr"]) for v in a["variants"]]
            if n is not None and isinstance(q.eqs.get(t), int) and q.eqs[t] not in n:
                return False
            if n is not None and all(q.truth(eqz(lsub(t, k))) == 0 for k in n):
                return False
    return True


def innermost(fn, blocks):
    """(head, body) of the smallest loop that holds one of the blocks; None if none does."""
    L = {h: b for h, b in block_loops(fn).items() if h != "irreducible"}
    c = sorted((len(b), h) for h, b in L.items() if any(x in b for x in blocks))
    return (c[0][1], L[c[0][1]]) if c else None


def aggregates(fn, adt_suffix, variant=None):
    """Blocks that construct a value of the type (variant by number)."""
    out = []
    for b, blk in enumerate(fn["blocks"]):
        for s in blk["s"]:
            r = s.get("r") or {}
            if r.get("agg") == "adt" and str(r.get("adt", "")).endswith(adt_suffix) and variant in (None, r.get("variant")):
                out.append(b)
    return out


class Describer:
    """Names values by field paths from typed roots: {type suffix: name}."""

    def __init__(self, prog, roots):
        self.prog, self.roots = prog, roots

    def __call__(self, t, d=0):
        if isinstance(t, tuple) and t:
            if t[0] in ("&", "str", "String", "rec") and len(t) > 1:
                return self(t[1], d)
            return show(t)[:40]
        if not isinstance(t, T):
            return str(t)
        if t.op == "elem" and d < 20:
            return "%s[%s]" % (self(t.args[0], d + 1), self(t.args[1], d + 1))
        ty = t.ty or ""
        while ty.startswith("&"):
            ty = ty[1:].removeprefix("mut ")
        for suf, n in self.roots.items():
            if ty.endswith(suf) and t.op in ("sym", "fld", "deref", "as", "call"):
                if n == "field":
                    continue
                return n
        if t.op == "deref":
            return self(t.args[0], d + 1)
        if t.op == "as":
            return self(t.args[0], d + 1) + "?"
        if t.op == "fld":
            x = t.args[0]
            if isinstance(x, T) and x.op == "as":
                return self(x, d + 1)
            xt = (x.ty or "") if isinstance(x, T) else ""
            while xt.startswith("&"):
                xt = xt[1:].removeprefix("mut ")
            a = self.prog.adts.get(xt) or self.prog.adts.get(xt.split("<")[0])
            i = t.args[1]
            if a and len(a["variants"]) == 1 and isinstance(i, int) and i < len(a["variants"][0]["fields"]):
                f = a["variants"][0]["fields"][i]
                return "%s.%s" % (self(x, d + 1), f if isinstance(f, str) else f["name"])
            return "%s.%s" % (self(x, d + 1), i)
        if t.op in ("len", "not", "maplen"):
            return "%s(%s)" % (t.op, self(t.args[0], d + 1))
        if t.op == "discr":
            return "discr(%s)" % self(t.args[0], d + 1)
        if t.op == "call":
            return "%s(%s)" % (t.args[0].split("::")[-1], ", ".join(self(x, d + 1) for x in t.args[1:]))
        if t.op == "sym":
            return str(t.args[0])
        return show(t)[:60]
