"""Call graph of one analysed program and small queries on MIR."""
from .eng import loops_of, successors


def callee(t):
    f = t.get("f")
    return f if t["k"] == "call" and f else None


def edges(prog):
    """{function id: set of local function ids it may run}: direct calls, closures it builds, functions it mentions."""
    if hasattr(prog, "_edges"):
        return prog._edges
    out = {}
    for k, fn in prog.fns.items():
        es = set()
        for b in fn["blocks"]:
            for s in b["s"]:
                mentioned(s, prog, es)
            t = b["t"]
            mentioned(t, prog, es)
            f = callee(t)
            if f:
                if f.get("id") in prog.fns:
                    es.add(f["id"])
                else:
                    for g in prog.by_def.get(f.get("res"), ()):
                        es.add(g["id"])
            if t["k"] == "drop":
                for g in drop_impls(prog, t.get("ty", "")):
                    es.add(g)
        out[k] = es
    prog._edges = out
    return out


def mentioned(x, prog, es):
    """Function ids named anywhere in a piece of MIR (closures, function items passed as values)."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("id", "fn") and isinstance(v, str) and v in prog.fns:
                es.add(v)
            else:
                mentioned(v, prog, es)
    elif isinstance(x, list):
        for v in x:
            mentioned(v, prog, es)


def drop_impls(prog, ty):
    out = []
    for k, fn in prog.fns.items():
        d = fn["def"]
        if d.endswith("as std::ops::Drop>::drop") or d.endswith("as core::ops::Drop>::drop"):
            t = d.split("<", 1)[1].split(" as ")[0]
            if t in ty:
                out.append(k)
    return out


def reachable(prog, roots):
    es = edges(prog)
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [y for y in es.get(x, ()) if y not in seen]
    return seen


def sccs(nodes, succ):
    """Strongly connected components that contain a cycle."""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


# ---------------------------------------------------------------- places
def operand_place(o):
    return o.get("cp") or o.get("mv") if isinstance(o, dict) else None


def reads(r, out):
    """Locals read by an rvalue or operand."""
    if isinstance(r, dict):
        for k, v in r.items():
            if k in ("cp", "mv", "ref", "discr", "len", "addr") and isinstance(v, list) and v and isinstance(v[0], int):
                place_reads(v, out)
            else:
                reads(v, out)
    elif isinstance(r, list):
        for v in r:
            reads(v, out)
    return out


def place_reads(p, out):
    out.add(p[0])
    for e in p[1]:
        if isinstance(e, dict) and "i" in e and isinstance(e["i"], int):
            out.add(e["i"])
    return out
