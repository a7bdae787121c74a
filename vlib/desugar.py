"""Rewrites calls of iterator combinators that take a closure (find, any, all, position, for_each) into the loops they stand for,
so that the loop analyses see one form."""
import re
from .dump import Program

NAMES = {"find", "any", "all", "position", "for_each"}
CALL = re.compile(r"^<(.*) as std::iter::Iterator>::(\w+)(::<.*)?$")


def combinator(t, prog):
    if t["k"] != "call" or not (t["f"].get("inst") or "").startswith("<"):
        return None
    m = CALL.match(t["f"]["inst"])
    if not m or m.group(2) not in NAMES or t.get("to") is None:
        return None
    return m.group(2), m.group(1)


def closure_of(ty, prog):
    m = re.match(r"^(?:&(?:mut )?)*closure:(.*)$", ty)
    fs = prog.by_def.get(m.group(1).strip(), ()) if m else ()
    return fs[0] if len(fs) == 1 else None


def op_type(o, fn):
    for k in ("mv", "cp"):
        if k in o and not o[k][1]:
            return fn["locals"][o[k][0]]
    if "c" in o:
        return str(o["c"].get("ty", ""))
    return ""


def rewrite(fn, prog):
    """The function with its combinator calls turned into loops (the same object when it has none)."""
    out = None
    for b in range(len(fn["blocks"])):
        t = fn["blocks"][b]["t"]
        c = combinator(t, prog)
        if not c:
            continue
        name, ity = c
        clo = closure_of(op_type(t["args"][1], fn), prog)
        ref = op_type(t["args"][0], fn)
        if clo is None or clo["nargs"] != 2 or (name != "for_each") != ref.startswith("&mut "):
            continue
        if out is None:
            out = dict(fn, locals=list(fn["locals"]), blocks=[dict(x) for x in fn["blocks"]])
        L, B, line = out["locals"], out["blocks"], t.get("l")

        def local(ty):
            L.append(ty)
            return len(L) - 1

        def block(s, t):
            B.append({"s": s, "t": dict(t, l=line)})
            return len(B) - 1
        arg = clo["locals"][2]
        item = re.sub(r"^&", "", arg, count=1) if name == "find" else arg
        it = local(ity if name == "for_each" else ref)
        f, r, opt, d, x, res = local(op_type(t["args"][1], fn)), local("&mut " + ity), local("std::option::Option<%s>" % item), local("isize"), local(item), local(clo["locals"][0])
        i = local("usize")
        pre = [{"p": [it, []], "r": {"use": t["args"][0]}, "l": line}, {"p": [f, []], "r": {"use": t["args"][1]}, "l": line}]
        if name == "position":
            pre.append({"p": [i, []], "r": {"use": {"c": {"ty": "usize", "v": {"int": 0}}}}, "l": line})
        head = len(B)
        N, D, S, V, Y, C, U = (head + k for k in range(7))
        nxt = {"id": "next@" + ity, "def": "std::iter::Iterator::next", "res": "std::iter::Iterator::next",
               "inst": "<%s as std::iter::Iterator>::next" % ity, "kind": "item", "targs": [ity], "krate": "core"}
        src = [it, []] if name == "for_each" else [it, ["*"]]
        block([{"p": [r, []], "r": {"ref": src, "k": "mut"}, "l": line}],
              {"k": "call", "f": nxt, "args": [{"mv": [r, []]}], "dest": [opt, []], "to": D})
        block([{"p": [d, []], "r": {"discr": [opt, []]}, "l": line}], {"k": "switch", "on": {"mv": [d, []]}, "br": [[0, Y], [1, S]], "else": U})
        some = [{"d": 1}, {"f": 0, "t": item}]
        st = [{"p": [x, []], "r": {"use": {"mv": [opt, some]}}, "l": line}]
        a = {"mv": [x, []]}
        if name == "find":
            q = local(arg)
            st.append({"p": [q, []], "r": {"ref": [x, []], "k": "shr"}, "l": line})
            a = {"cp": [q, []]}
        block(st, {"k": "call", "f": {"def": "<indirect>", "op": {"cp": [f, []]}}, "args": [a], "dest": [res, []], "to": V if name != "for_each" else N})
        block([], {"k": "switch", "on": {"cp": [res, []]}, "br": [[0, C if name == "all" else (U + 1 if name == "position" else N)]],
                   "else": N if name == "all" else C})
        oty = L[t["dest"][0]] if not t["dest"][1] else "std::option::Option<%s>" % (item if name == "find" else "usize")

        def opt_of(v):
            return {"agg": "adt", "adt": "std::option::Option", "variant": 1 if v else 0, "ty": oty, "fi": None, "ops": v}
        const = lambda ty, v: {"use": {"c": {"ty": ty, "v": v}}}
        end = {"find": opt_of([]), "position": opt_of([]), "any": const("bool", {"bool": False}), "all": const("bool", {"bool": True}),
               "for_each": const("()", {"tuple": []})}[name]
        got = {"find": opt_of([{"mv": [x, []]}]), "position": opt_of([{"cp": [i, []]}]), "any": const("bool", {"bool": True}),
               "all": const("bool", {"bool": False}), "for_each": end}[name]
        block([{"p": t["dest"], "r": end, "l": line}], {"k": "goto", "to": t["to"]})
        block([{"p": t["dest"], "r": got, "l": line}], {"k": "goto", "to": t["to"]})
        block([], {"k": "unreachable"})
        if name == "position":
            block([{"p": [i, []], "r": {"bin": "Add", "a": {"cp": [i, []]}, "b": {"c": {"ty": "usize", "v": {"int": 1}}}}, "l": line}], {"k": "goto", "to": N})
        B[b] = {"s": list(B[b]["s"]) + pre, "t": {"k": "goto", "to": N, "l": line}}
    return out or fn


def program(prog):
    """A view of the program in which every function is rewritten."""
    new = Program.__new__(Program)
    new.__dict__.update(prog.__dict__)
    new.fns = {k: rewrite(f, prog) for k, f in prog.fns.items()}
    new.by_def = {}
    for f in new.fns.values():
        new.by_def.setdefault(f["def"], []).append(f)
    return new
