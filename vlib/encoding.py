"""C20: the table generator's encoding against the parser's decoding.

Generator side: one pass of every loop of the two compression functions is explored from an arbitrary state; the roles of the
vectors (row offsets, values, check, defaults) are read off the returned value.  Parser side: the lookups' partitions are
evaluated on the codes the generator writes.  The template's text ties the vectors to the parser's statics."""
import os, re
from . import decode
from .dump import AnalysisError, where, REPO
from .eng import Engine, T, Arr, mk, eqz, lez, lsub, ladd, show
from .onepass import region, Describer, block_loops, args_of
from .driver import atoms

TEMPLATE = os.path.join(REPO, "crates/parser-generator/templates/parser_template.rs")


def unref(v):
    while isinstance(v, tuple) and v and v[0] == "&":
        v = v[1]
    return v


def local(v):
    """The number of the local a symbol stands for, or None."""
    v = unref(v)
    if isinstance(v, T) and v.op == "sym" and str(v.args[0]).startswith("v"):
        try:
            return int(str(v.args[0])[1:].split(":")[0])
        except ValueError:
            return None
    return None


def opaque(prog):
    return {f["def"] for f in prog.fns.values() if "parser_generator" in f["def"] and any(h != "irreducible" for h in block_loops(f))}


def walk(x):
    if isinstance(x, T):
        yield x
        for y in x.args:
            yield from walk(y)
    elif isinstance(x, tuple):
        for y in x:
            yield from walk(y)


class Side:
    """One compression function."""

    def __init__(self, prog, fn, kind):
        self.prog, self.fn, self.kind = prog, fn, kind
        self.w = where(fn)
        self.L = {h: set(b) for h, b in block_loops(fn).items() if h != "irreducible"}
        self.blocks = set(range(len(fn["blocks"])))
        self.op = opaque(prog) - {fn["def"]}
        self.D = Describer(prog, {"lalr::Lalr": "lalr"})
        self.actions = [v["name"] for v in prog.adt("bison::Action")["variants"]]
        self.roles()

    def go(self, head, body):
        e = Engine(self.prog, panics=False, opaque=self.op)
        ps, fid = region(e, self.fn, head, body)
        return ps, fid, e

    def own(self, h):
        """The blocks of a loop that belong to no inner loop."""
        b = set(self.L[h])
        for x in self.L:
            if x != h and x in self.L[h]:
                b -= self.L[x]
        return b

    def outer(self, h):
        c = sorted((len(b), x) for x, b in self.L.items() if h in b and x != h)
        return c[0][1] if c else None

    def roles(self):
        """Which local holds the row offsets, the values, the check table and the default actions."""
        inside = set().union(*self.L.values())
        tops = [h for h in self.L if self.outer(h) is None]
        self.role = {}
        fields = self.prog.adt("CompressedParserTable")["variants"][0]["fields"]
        self.fields = [f if isinstance(f, str) else f["name"] for f in fields]
        for h in tops:
            ps, fid, e = self.go(h, self.own(h))
            for x in {b for q, b, k in ps if k == "exit" and b not in self.L[h]}:
                ps2, fid2, e2 = self.go(x, self.blocks - inside)
                for q in e2.finals:
                    if q.status == "return":
                        self.result(q.ret)
        if not {"state_to_offset", "compressed_values", "index_check"} <= set(self.role):
            raise AnalysisError("the vectors of the result were not recognised")
        self.by = {v: k for k, v in self.role.items()}

    def result(self, r):
        t = r[1][0] if isinstance(r, tuple) and r[0] == "tup" else r
        if not (isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("CompressedParserTable")):
            raise AnalysisError("the result was not recognised")
        if r[0] == "tup" and len(r[1]) > 1:
            self.role["default"] = local(r[1][1])
        self.bound = {}
        for n, v in zip(self.fields, t[3]):
            loc = local(v)
            if loc is None:
                for x in walk(v):
                    if local(x) is not None and (x.ty or "").startswith("std::vec::Vec"):
                        loc = local(x)
                        break
                if loc is None:
                    loc = next((local(x) for x in walk(v) if local(x) is not None), None)
            for x in [v] if not isinstance(v, T) else list(v.args):
                y = unref(x)
                if isinstance(y, tuple) and y and y[0] == "sub":
                    self.bound[n] = (unref(y[1]), y[2], y[3])
            if loc is not None:
                self.role[n] = loc

    # ------------------------------------------------------------ classification of loops
    def classify(self):
        """{kind: (head, paths, fid)}: fill (pushes), row, accept, place."""
        out = {}
        for h in self.L:
            if any(x != h and x in self.L[h] for x in self.L):
                continue
            try:
                ps, fid, e = self.go(h, self.L[h])
            except Exception:
                continue
            pushes = [ev for q, b, k in ps for ev in q.events if ev[0] == "push"]
            stores = {c[1] for q, b, k in ps for c, v in q.mem.items() if c[0] == fid and isinstance(v, tuple) and v and v[0] == "vec" and v[3]}
            if pushes:
                kind = "fill"
            elif stores & {self.role["compressed_values"], self.role["index_check"]}:
                kind = "place"
            elif stores:
                kind = "row"
            elif any(t.op == "elem" and local(t.args[0]) == self.role["index_check"] for q, b, k in ps for t in atoms(q)):
                kind = "accept"
            else:
                continue
            if kind in out:
                raise AnalysisError("two loops look like the %s loop" % kind)
            out[kind] = (h, ps, fid)
        return out

    def counter(self, q):
        """The value the loop's iterator gave on this pass (None when exhausted)."""
        for ev in q.events:
            if ev[0] == "call" and ev[1].endswith("::next") and len(ev) > 3:
                o = ev[3]
                v = q.eqs.get(mk("discr", (o,), "isize")) if isinstance(o, T) else None
                if v is None:
                    for t in atoms(q):
                        if t.op == "discr" and t.args[0] is o or t.op == "discr" and t.args[0] == o:
                            v = 1 if q.truth(eqz(lsub(t, 1))) == 1 else 0 if q.truth(eqz(t)) == 1 else None
                if v == 1:
                    return mk("fld", (mk("as", (o, 1), o.ty), 0), "usize")
                if v == 0:
                    return None
        return None


class Encoding:
    def __init__(self, chk, gen, prog):
        self.chk, self.gen, self.prog = chk, gen, prog

    # ------------------------------------------------------------ the decoding
    def decoder(self, name):
        t = decode.Table(self.prog, name)
        names = {}
        for n, v in self.prog.statics.items():
            for i, a in enumerate(t.arrs):
                if isinstance(v, dict) and isinstance(v.get("v"), dict) and v["v"].get("ints") is a.v:
                    names[i] = n.split("::")[-1]
        return t, names

    def synthetic(self, t, names, flow, vec):
        """The decision procedure on tables built from {field: {index: value}}."""
        class D(dict):
            def __missing__(self, k):
                return -12345
        g = t.f.__globals__
        for i in range(len(t.arrs)):
            f = flow.get(names.get(i))
            if f is None:
                raise AnalysisError("table %s is not written by the generator" % names.get(i))
            g["A%d" % i] = D(vec.get(f, {}))
        return t.f

    def report(self):
        chk = self.chk
        flow = chk.guard("flow", self.flow) or {}
        sides = {}
        for kind, nm in (("action", "compress_action_table"), ("goto", "compress_goto_table")):
            fs = [f for f in self.gen.fns.values() if f["def"].endswith("::" + nm)]
            if len(fs) != 1:
                chk.undecided(kind, "", "%s was not found" % nm)
                continue
            chk.guard(kind, self.side, fs[0], kind, flow)
        chk.guard("kinds", self.kinds)

    def side(self, fn, kind, flow):
        chk = self.chk
        s = Side(self.gen, fn, kind)
        t, names = self.decoder("lookup_parser_action" if kind == "action" else "lookup_goto_state")
        C = s.classify()
        for need in ("fill", "accept", "place"):
            if need not in C:
                raise AnalysisError("the %s loop of %s was not found" % (need, fn["def"].split("::")[-1]))
        codes = chk.guard(kind + ":codes", self.codes, s, C["fill"], kind)
        # the code that is not stored: what the lookup answers when the check fails
        miss = self.miss(t)
        chk.decide(kind + ":missing", None if codes is None or miss is None else codes.get("missing") == miss, s.w,
                   "an absent entry is encoded as %s; the lookup answers %s when the check fails" % (codes and codes.get("missing"), miss))
        marker = chk.guard(kind + ":row", self.row, s, C, kind)
        chk.guard(kind + ":accept", self.accept, s, C, kind, miss)
        chk.guard(kind + ":place", self.place, s, C, kind, miss)
        chk.guard(kind + ":bounds", self.bounds, s, C, kind)
        mine = {n: v[1] for n, v in flow.items() if v[0] == kind}
        chk.guard(kind + ":decode", self.decode, s, t, names, mine, codes, marker, miss, kind)

    def miss(self, t):
        """The constant the lookup returns when the check entry differs."""
        vals = set()
        for f in t.finals:
            if f.status == "return" and isinstance(f.ret, int):
                vals.add(f.ret)
        return vals.pop() if len(vals) == 1 else None

    # ------------------------------------------------------------ codes
    def codes(self, s, fill, kind):
        chk = self.chk
        h, ps, fid = fill
        out = {}
        keyok = set()
        for q, b, k in ps:
            pv = [unref(x) for ev in q.events if ev[0] == "push" for x in ev[2:3]]
            if k != "back" or len(pv) != 1:
                if k == "back":
                    raise AnalysisError("a pass adds %d entries" % len(pv))
                continue
            v = pv[0]
            mine = [t for t in atoms(q) if t.op == "maphas" and ("action_table" in s.D(t.args[0]) or "goto_table" in s.D(t.args[0]))]
            other = [t for t in atoms(q) if t.op == "maphas" and t not in mine]
            if any(q.truth(t) == 0 for t in other):
                continue                      # a symbol without a number: to_component_id stops
            if len(mine) != 1:
                raise AnalysisError("the table read by a pass was not recognised")
            m = mine[0]
            keyok.add(self.key(s, m.args[1], q))
            if q.truth(m) == 0:
                out.setdefault("missing", set()).add(v)
                continue
            if kind == "goto":
                out.setdefault("goto", set()).add(self.shape(v))
                continue
            ds = [t for t in atoms(q) if t.op == "discr" and isinstance(t.args[0], T) and t.args[0].op == "mapget" and "action_table" in s.D(t.args[0].args[0])]
            for i, a in enumerate(s.actions):
                q2 = q.fork()
                if all(q2.assume(eqz(lsub(d, i)), 1) for d in ds):
                    out.setdefault(a, set()).add(self.shape(v))
        res = {}
        for n, vs in out.items():
            if len(vs) != 1:
                raise AnalysisError("entry %s has %d codes: %s" % (n, len(vs), [str(x)[:40] for x in vs]))
            res[n] = vs.pop()
        if kind == "action" and "Error" in res and res["Error"] != res.get("missing"):
            chk.refuted(kind + ":error", s.w, "an error entry is encoded as %s, an absent one as %s" % (res["Error"], res.get("missing")))
        ok = None if None in keyok or not keyok else False not in keyok
        chk.decide(kind + ":key", ok, s.w, "the entry encoded is that of (state of the outer loop, number of the symbol of the inner loop)")
        chk.count("entry_codes", len(res))
        return res

    def key(self, s, k, q):
        k = unref(k)
        if not (isinstance(k, tuple) and k[0] == "tup" and len(k[1]) == 2):
            return None
        st, c = k[1]
        j = self_elem = [t for t in walk(c) if t.op == "mapget"]
        return True if local(st) is not None and j and any(t.op == "as" for t in walk(c)) else None

    def shape(self, v):
        """int, or (constant, factor) of `constant + factor * number`."""
        if isinstance(v, int):
            return v
        if isinstance(v, T) and v.op == "lin" and len(v.args[1]) == 1:
            (x, k), = v.args[1]
            if self.number(x):
                return (v.args[0], k)
        if self.number(v):
            return (0, 1)
        raise AnalysisError("code %s" % show(v)[:80])

    def number(self, x):
        while isinstance(x, T) and x.op == "cast":
            x = x.args[0]
        return isinstance(x, T) and (x.op == "mapget" or x.op == "fld" and isinstance(x.args[0], T) and x.args[0].op == "as" and x.args[0].args[0].op == "mapget")

    # ------------------------------------------------------------ rows
    def row(self, s, C, kind):
        """The entry of the row at position j as a function of the table; the default marker if one is used."""
        chk = self.chk
        if "row" not in C:
            return None
        h, ps, fid = C["row"]
        marker = set()
        ok = True
        for q, b, k in ps:
            if k != "back":
                continue
            j = s.counter(q)
            ups = [(c[1], u) for c, v in q.mem.items() if c[0] == fid and isinstance(v, tuple) and v and v[0] == "vec" for u in v[3]]
            if len(ups) != 1 or j is None:
                raise AnalysisError("a pass of the row loop stores %d entries" % len(ups))
            loc, (idx, _, val) = ups[0]
            if idx != j:
                chk.refuted(kind + ":row", s.w, "the row's entry %s is stored at %s" % (show(j), show(idx)))
                return None
            self.rowvar = loc
            src = [t for t in atoms(q) if t.op == "elem"] + ([val] if isinstance(val, T) and val.op == "elem" else [])
            src = {t for t in src if local(t.args[0]) not in s.by}
            if len(src) != 1:
                raise AnalysisError("the row's source was not recognised")
            a = src.pop()
            self.rowidx = (a.args[1], j)
            dv = [t for t in s_syms(q) if t.ty == "i16"]
            if isinstance(val, int):
                # stored for the default: must imply a == default variable
                hit = [d for d in dv if q.truth(eqz(lsub(d, a))) == 1]
                if len(hit) != 1:
                    chk.refuted(kind + ":row", s.w, "the marker %d is stored without the entry being the state's default" % val)
                    return None
                self.defvar = local(hit[0])
                marker.add(val)
            elif val != a:
                ok = None
        if len(marker) != 1:
            raise AnalysisError("the default marker was not recognised")
        chk.decide(kind + ":row", ok, s.w, "entries equal to the state's default become %s, the others are kept" % marker)
        return marker.pop()

    def split(self, s, q, j, kind):
        """Terms of one pass: entry a, check entry c, value v, used flag u, offset i."""
        a = c = v = u = i = None
        odd = []
        for t in atoms(q):
            if t.op != "elem":
                if t.op in ("discr", "sym", "len", "mul") or t == j:
                    continue
                if t.op == "cast" and t.args[0] == j:
                    continue
                odd.append(t)
                continue
            loc = local(t.args[0])
            r = s.by.get(loc)
            if r == "index_check":
                c = t
            elif r == "compressed_values":
                v = t
            elif t.ty == "bool" or (s.fn["locals"][loc] if loc is not None else "").startswith("std::vec::Vec<bool"):
                u = t
            elif r is None and a is None or t == a:
                a = t
            else:
                odd.append(t)
        if c is not None:
            i = lsub(c.args[1], j)
        return a, c, v, u, i, odd

    # ------------------------------------------------------------ placement
    def accept(self, s, C, kind, miss):
        chk = self.chk
        h, _, _ = C["accept"]
        ph = C["place"][0]
        oh = s.outer(h)
        if oh is None or ph not in s.L[s.outer(oh) if s.outer(oh) is not None else oh]:
            raise AnalysisError("the search for an offset was not recognised")
        body = set(s.L[oh]) | set(s.L[s.outer(oh)] if s.outer(oh) is not None else ())
        body -= s.L[ph]
        body -= {oh}
        for x in s.L:
            if x not in (h, oh) and h not in s.L[x]:
                body -= s.L[x]
        ps, fid, e = s.go(h, body)
        unused = self.unused(s, C)
        need = None
        # what is true of flags when the exhausted search goes on to place the row
        alive = {}
        placed = []
        for q, b, k in ps:
            if s.counter(q) is None and k == "exit" and b == ph:
                placed.append(q)
        if not placed:
            raise AnalysisError("no path places a row")
        self.placed = (placed, fid)
        flags = {}
        for t in s_syms(placed[0]):
            if t.ty == "bool":
                x = [q.truth(t) for q in placed]
                if len(set(x)) == 1 and x[0] in (0, 1):
                    flags[local(t)] = x[0]
        n = bad = odd_ = 0
        for q, b, k in ps:
            j = s.counter(q)
            if j is None:
                continue
            live = k == "back" or (k == "exit" and b == ph)
            for loc, want in flags.items():
                if q.mem.get((fid, loc)) in (0, 1) and q.mem.get((fid, loc)) != want:
                    live = False
            if not live:
                continue
            a, c, v, u, i, odd = self.split(s, q, j, kind)
            n += 1
            cj = [t for t in walk(tuple(q.facts)) if t.op == "cast" and t.args[0] == j]
            jj = cj[0] if cj else j
            if a is None or c is None:
                odd_ += 1
                continue
            E, J, U = lsub(a, miss), lsub(c, jj), lsub(c, unused)
            cases = [("an empty entry may meet a used cell of the same column", [(eqz(E), 1), (eqz(J), 1)])]
            cases.append(("a cell of the same column with another value may be shared", [(eqz(E), 0), (eqz(J), 1)] + ([(eqz(lsub(v, a)), 0)] if v is not None else [])))
            cases.append(("a cell that belongs to another column may be overwritten", [(eqz(E), 0), (eqz(J), 0), (eqz(U), 0)]))
            cases.append(("an offset already taken by another state may be taken with new cells", [(eqz(E), 0), (eqz(J), 0)] + ([(u, 1)] if u is not None else [])))
            for msg, facts in cases:
                q2 = q.fork()
                if all(q2.assume(x, y) for x, y in facts):
                    if odd:
                        odd_ += 1
                    else:
                        bad += 1
                        chk.refuted(kind + ":accept", s.w, msg)
        chk.count("acceptance_partitions", n)
        if not bad:
            chk.decide(kind + ":accept", None if odd_ or not n else True, s.w, "%d partitions keep an offset; each keeps stored entries decodable" % n)
        # what is recorded for the placed row
        iv, sv = self.offset_var(s, C, fid), self.state_var(s, C)
        reads = any(self.split(s, q2, s.counter(q2), kind)[3] is not None for q2, b, k in ps if s.counter(q2) is not None)
        res = {"offset": [], "default": [], "taken": []}
        for q in placed:
            ups = {}
            for cc, v in q.mem.items():
                if cc[0] == fid and isinstance(v, tuple) and v and v[0] == "vec":
                    for up in v[3]:
                        ups.setdefault(s.by.get(cc[1], "v%d" % cc[1]), []).append((up[0], up[2]))
            plain = all(t.op in ("sym", "elem", "discr", "len", "mul") for t in atoms(q))
            off = ups.get("state_to_offset")
            ok = False if plain else None
            if off and len(off) == 1:
                x = strip(off[0][1])
                ok = True if local(x) is not None and local(x) == iv else (None if iv is None else False if isinstance(x, int) or (isinstance(x, T) and x.op == "lin") else None)
                st = local(off[0][0])
                if ok and (st is None or sv is None or st != sv):
                    ok = None
            res["offset"].append((ok, show(off[0][1])[:80] if off else "nothing"))
            if kind == "action":
                d = ups.get("default")
                ok = False if plain and not d else None
                if d and off and len(d) == 1:
                    dv = getattr(self, "defvar", None)
                    ok = True if local(d[0][1]) is not None and local(d[0][1]) == dv and d[0][0] == off[0][0] else None
                    if ok is None and isinstance(d[0][1], int) and not any(local(t) == dv for t in atoms(q)):
                        ok = False
                res["default"].append((ok, show(d[0][1])[:80] if d else "nothing"))
            used = [v for k2, vs in ups.items() if k2.startswith("v") for v in vs if v[1] == 1 and local(v[0]) == iv and iv is not None]
            res["taken"].append((True if used else (False if reads and plain else None), "marked" if used else "not marked"))
        for nm, msg in (("offset", "the state's offset is recorded as %s"), ("default", "the state's default action is recorded as %s"), ("taken", "the offset is %s as taken")):
            r = res[nm]
            if not r:
                continue
            worst = next((x for x in r if x[0] is False), None) or next((x for x in r if x[0] is None), None) or r[0]
            chk.decide(kind + ":" + nm, worst[0], s.w, msg % worst[1])

    def offset_var(self, s, C, fid):
        for q, b, k in C["accept"][1]:
            j = s.counter(q)
            if j is None:
                continue
            i = self.split(s, q, j, s.kind)[4]
            if i is not None:
                return local(i)
        return None

    def state_var(self, s, C):
        src = None
        if "row" in C and getattr(self, "rowidx", None):
            idx, j = self.rowidx
        else:
            for q, b, k in C["accept"][1]:
                j = s.counter(q)
                if j is None:
                    continue
                a = self.split(s, q, j, s.kind)[0]
                if a is not None:
                    idx = a.args[1]
                    break
            else:
                return None
        r = lsub(idx, j)
        if isinstance(r, T) and r.op == "mul":
            c = [local(x) for x in r.args if local(x) is not None]
            n = [x for x in r.args if isinstance(x, T) and x.op == "len"]
            return c[0] if len(c) == 1 and n else None
        return None

    def unused(self, s, C):
        """The value the check table is filled with."""
        inside = set().union(*s.L.values())
        fillh = C["fill"][0]
        while s.outer(fillh) is not None:
            fillh = s.outer(fillh)
        starts = {0}
        ps, fid, e = s.go(fillh, s.own(fillh))
        starts |= {b for q, b, k in ps if k == "exit" and b not in s.L[fillh]}
        vals = set()
        for x in starts:
            ps, fid, e = s.go(x, s.blocks - inside)
            for q, b, k in ps:
                v = q.mem.get((fid, s.role["index_check"]))
                f = fill_of(v)
                if f is not None:
                    vals.add(f)
        if len(vals) != 1:
            raise AnalysisError("the initial check table was not recognised")
        v = vals.pop()
        self.chk.decide(s.kind + ":unused", v < 0, s.w, "unused cells hold %d, which is no column" % v)
        return v

    def place(self, s, C, kind, miss):
        chk = self.chk
        h, ps, fid = C["place"]
        n = 0
        for q, b, k in ps:
            j = s.counter(q)
            if j is None:
                continue
            a = None
            for t in atoms(q):
                if t.op == "elem" and local(t.args[0]) not in s.by:
                    a = t
            ups = {}
            for cc, v in q.mem.items():
                if cc[0] == fid and isinstance(v, tuple) and v and v[0] == "vec":
                    for up in v[3]:
                        ups.setdefault(s.by.get(cc[1], "?"), []).append((up[0], up[2]))
            if a is None:
                raise AnalysisError("the placing loop does not test the entry")
            n += 1
            if set(ups) - {"index_check", "compressed_values"}:
                chk.undecided(kind + ":place", s.w, "other tables are written")
                return
            t = q.truth(eqz(lsub(a, miss)))
            if t is None:
                chk.undecided(kind + ":place", s.w, "the entry is not compared with the empty code")
                return
            if k != "back":
                chk.refuted(kind + ":place", s.w, "the loop ends before the last column")
                return
            if t == 1:
                if ups:
                    chk.refuted(kind + ":place", s.w, "an empty entry is stored")
                    return
                continue
            c, v = ups.get("index_check"), ups.get("compressed_values")
            if not c or not v:
                chk.refuted(kind + ":place", s.w, "an entry is stored without its %s" % ("column" if not c else "value"))
                return
            iv = self.offset_var(s, C, fid)
            for nm, (idx, val), want in (("column", c[0], j), ("value", v[0], a)):
                x = val
                while isinstance(x, T) and x.op == "cast":
                    x = x.args[0]
                off = lsub(idx, j)
                if x != want:
                    chk.refuted(kind + ":place", s.w, "the %s stored is %s" % (nm, show(val)[:60]))
                    return
                if local(off) is None or local(off) != iv:
                    (chk.refuted if isinstance(off, int) or isinstance(off, T) and off.op == "lin" else chk.undecided)(
                        kind + ":place", s.w, "the %s is stored at %s" % (nm, show(idx)[:60]))
                    return
        chk.decide(kind + ":place", True if n else None, s.w, "every non-empty entry is stored with its column at offset + column")

    def bounds(self, s, C, kind):
        """Each loop runs over all columns; the emitted tables are long enough."""
        chk = self.chk
        for nm in ("row", "accept", "place"):
            if nm not in C:
                continue
            h, ps, fid = C[nm]
            it = None
            for q, b, k in ps:
                for ev in q.events:
                    if ev[0] == "call" and ev[1].endswith("::next"):
                        it = local(ev[2][0])
            oh = s.outer(h)
            if it is None or oh is None:
                chk.undecided(kind + ":columns:" + nm, s.w, "the loop's range was not recognised")
                continue
            seen = set()
            body = set(s.L[oh])
            for x in s.L:
                if x != oh and x in s.L[oh] and x != h:
                    body -= s.L[x]
            entries = {0}
            for x in s.L:
                if x in s.L[oh] and x not in (h, oh) and h not in s.L[x]:
                    p2, f2, e2 = s.go(x, s.own(x))
                    entries |= {b for q, b, k in p2 if k == "exit" and b not in s.L[x]}
            entries = (entries - {0}) | {oh}
            for st in entries:
                p2, f2, e2 = s.go(st, body - s.L[h])
                for q, b, k in p2:
                    if k == "exit" and b == h:
                        seen.add(q.mem.get((f2, it)))
            if nm == "place":
                seen |= {q.mem.get((self.placed[1], it)) for q in self.placed[0]}
            ok = None
            for v in seen:
                if isinstance(v, tuple) and v and v[0] == "adt" and v[1].endswith("Range"):
                    lo, hi = v[3]
                    r = lo == 0 and isinstance(hi, T) and hi.op == "len" and "a1:" in show(hi)
                    if not r:
                        ok = False if isinstance(lo, int) and lo > 0 or isinstance(hi, T) and hi.op == "lin" and any(x.op == "len" for x, _ in hi.args[1]) and hi.args[0] < 0 else None
                        break
                    ok = True
            chk.decide(kind + ":columns:" + nm, ok, s.w, "the loop runs over %s" % [show(v)[:80] for v in seen])
        b = s.bound
        for n in ("compressed_values", "index_check"):
            if n not in b:
                chk.undecided(kind + ":length:" + n, s.w, "the emitted slice was not recognised")
                continue
            base, lo, hi = b[n]
            ok = None
            if lo == 0 and isinstance(hi, T) and hi.op == "lin":
                parts = dict(hi.args[1])
                ln = [x for x in parts if x.op == "len" and parts[x] == 1 and "a1:" in show(x)]
                mx = [x for x in parts if parts[x] == 1 and any(y.op == "call" and y.args[0].endswith("::max") for y in walk(x))]
                mn = [x for x in parts if any(y.op == "call" and y.args[0].endswith("::min") for y in walk(x))]
                part = [x for x in parts if x.op in ("div", "shr", "rem") and any(y.op == "len" and "a1:" in show(y) for y in walk(x))]
                if len(parts) == 2 and ln and mx:
                    ok = hi.args[0] >= 0
                elif len(parts) == 2 and part and mx and hi.args[0] <= 0:
                    ok = False
                elif mn:
                    ok = False
            elif isinstance(hi, T) and any(y.op == "call" and y.args[0].endswith("::max") for y in walk(hi)) and not any(y.op == "len" and "a1:" in show(y) for y in walk(hi)):
                ok = False
            chk.decide(kind + ":length:" + n, ok, s.w, "the emitted table has %s entries" % show(hi)[:100])

    # ------------------------------------------------------------ decoding what was encoded
    def decode(self, s, t, names, flow, codes, marker, miss, kind):
        chk = self.chk
        if not codes or set(names) != set(range(len(t.arrs))):
            raise AnalysisError("the lookup's tables were not recognised")
        w = where(t.fn)
        bad = None
        n = 0
        st, cid, off = 3, 5, 7
        nc = "default" in s.role
        space = {}
        lim = 0x7FFE
        if kind == "action":
            for a, top in (("Shift", lim - 2), ("Reduce", lim)):
                c = codes.get(a)
                if not isinstance(c, tuple):
                    raise AnalysisError("%s has a constant code" % a)
                for x in range(0, top):
                    space[(a, x)] = c[0] + c[1] * x
            space[("Accept", 0)] = codes.get("Accept")
        else:
            c = codes.get("goto")
            if not isinstance(c, tuple):
                raise AnalysisError("a goto has a constant code")
            for x in range(0, 0x7FFF):
                space[("goto", x)] = c[0] + c[1] * x
        inv = {}
        for k, v in space.items():
            if v in inv:
                bad = "%s and %s share the code %d" % (k, inv[v], v)
            inv[v] = k
        if miss in inv:
            bad = "the code of %s is the one for a missing entry" % (inv[miss],)
        if marker is not None and marker in inv:
            bad = "the code of %s is the marker of a default action" % (inv[marker],)
        if bad is None:
            for k, v in list(space.items()):
                f = self.synthetic(t, names, flow, {"state_to_offset": {st: off}, "index_check": {off + cid: cid}, "compressed_values": {off + cid: v}, "default": {st: 4242}}) if n == 0 else f
                for i in range(len(t.arrs)):
                    if flow.get(names[i]) == "compressed_values":
                        t.f.__globals__["A%d" % i][off + cid] = v
                n += 1
                r = f(st, cid)
                if r != v:
                    bad = "%s %d is encoded as %d and looked up as %s" % (k[0], k[1], v, r)
                    break
            if bad is None and marker is not None:
                f = self.synthetic(t, names, flow, {"state_to_offset": {st: off}, "index_check": {off + cid: cid}, "compressed_values": {off + cid: marker}, "default": {st: 4242}})
                r = f(st, cid)
                if r != 4242:
                    bad = "a default entry (%d) is looked up as %s" % (marker, r)
            if bad is None:
                for other in (-1, cid + 1, 0):
                    f = self.synthetic(t, names, flow, {"state_to_offset": {st: off}, "index_check": {off + cid: other}, "compressed_values": {off + cid: 1}, "default": {st: 4242}})
                    r = f(st, cid)
                    if r != miss:
                        bad = "a cell of another column is looked up as %s" % (r,)
            # the index arithmetic does not depend on the numbers chosen
            x0, x1 = t.args[0], (t.args[1] if len(t.args) > 1 else None)
        chk.count("codes_decoded", n)
        self.codes_seen = getattr(self, "codes_seen", {})
        self.codes_seen[kind] = codes
        if bad:
            chk.refuted(kind + ":decode", w, bad)
        else:
            chk.proved(kind + ":decode", w, "%d codes are looked up as encoded" % n)
        idx = set()
        okidx = True
        for f in t.finals:
            if f.status != "return":
                continue
            for term in [x for c in list(f.facts) + [f.ret] for x in walk(c)]:
                if term.op == "elem" and isinstance(term.args[0], Arr):
                    r = flow.get(names.get([i for i, a in enumerate(t.arrs) if a is term.args[0]][0]))
                    ix = strip(term.args[1])
                    if r in ("state_to_offset", "default"):
                        okidx = okidx and ix == strip(x0)
                    else:
                        parts = dict(ix.args[1]) if isinstance(ix, T) and ix.op == "lin" else {}
                        good = isinstance(ix, T) and ix.op == "lin" and ix.args[0] == 0 and len(parts) == 2 and set(parts.values()) == {1} and \
                            any(strip(x) == strip(x1) for x in parts) and any(strip(x).op == "elem" for x in parts)
                        okidx = okidx and good
        chk.decide(kind + ":index", True if okidx else False if bad else None, w, "cells are looked up at offset[state] + column")

    # ------------------------------------------------------------ from the vectors to the statics
    def flow(self):
        """{static: (kind, field)} from the template's text and the generator's substitutions."""
        chk = self.chk
        gen = self.gen
        fs = [f for f in gen.fns.values() if f["def"].endswith("::generate_parser_source_code")]
        if len(fs) != 1:
            raise AnalysisError("generate_parser_source_code was not found")
        fn = fs[0]
        w = where(fn)
        L = {h: b for h, b in block_loops(fn).items() if h != "irreducible"}
        inside = set().union(*map(set, L.values())) if L else set()
        e = Engine(gen, panics=False, opaque=opaque(gen))
        ps, fid = region(e, fn, 0, set(range(len(fn["blocks"]))) - inside)
        outs = [q for q, b, k in ps if k == "exit"]
        if len(outs) != 1:
            raise AnalysisError("%d ways to build the source" % len(outs))
        best = None
        for c, v in outs[0].mem.items():
            x, seq = content(v), []
            while isinstance(x, T) and x.op == "replace":
                seq.append((x.args[1], x.args[2]))
                x = content(x.args[0])
            if seq and isinstance(x, str) and (best is None or len(seq) > len(best[1])):
                best = (x, seq)
        if best is None:
            raise AnalysisError("the substitutions were not recognised")
        text0, seq = best[0], best[1][::-1]
        marks = {}
        for n, (pat, val) in enumerate(seq):
            pat = content(pat)
            if not isinstance(pat, str):
                raise AnalysisError("a placeholder is not constant")
            m = "\x01%d\x02" % n
            marks[n] = val
            text0 = text0.replace(pat, m)
        fields = [f if isinstance(f, str) else f["name"] for f in gen.adt("CompressedParserTable")["variants"][0]["fields"]]
        out = {}
        for m in re.finditer(r"static\s+(\w+)\s*:\s*\[\s*\w+\s*;\s*([^\]]*)\]\s*=\s*\[([^\]]*)\]", text0):
            name, size, body = m.group(1), m.group(2).strip(), m.group(3).strip()
            mb, ms = re.fullmatch("\x01(\\d+)\x02", body), re.fullmatch("\x01(\\d+)\x02", size)
            if not mb or not ms:
                continue
            fb, fsz = self.origin(marks[int(mb.group(1))], fields), self.origin(marks[int(ms.group(1))], fields)
            if name == "RULES":
                continue
            if fb is None:
                chk.undecided("flow:" + name, w, "the contents of %s were not recognised" % name)
                continue
            out[name] = fb
            chk.decide("flow:size:" + name, None if fsz is None else fsz == ("len",) + fb, w, "%s is filled from %s, its size from %s" % (name, fb, fsz))
        left = [x for x in re.findall(r"\{([a-z_]+)\}", re.sub("\x01\\d+\x02", "", text0)) if "_" in x]
        if left:
            chk.refuted("flow:placeholders", w, "the template's {%s} is never filled" % left[0])
        else:
            chk.proved("flow:placeholders", w, "%d placeholders are filled" % len(seq))
        places = {}
        for n in marks:
            k = text0.find("\x01%d\x02" % n)
            if k >= 0:
                d = re.findall(r"(?:fn|static)\s+(\w+)", text0[:k])
                if d:
                    places.setdefault(d[-1], []).append(marks[n])
        for nm, f in (("end_rule_id", self.end_rule), ("num_terminal_symbol", self.count_of), ("num_non_terminal_symbol", self.count_of),
                      ("token_kind_to_component_id", self.token_numbers), ("rule_name_to_component_id", self.rule_numbers), ("RULES", self.rule_entries)):
            chk.guard("numbers:" + nm, self.numbers, nm, f, places.get(nm), w)
        # statics of the parser
        have = {n.split("::")[-1] for n in self.prog.statics}
        for n in out:
            chk.decide("flow:static:" + n, n in have, w, "the template's %s exists in the parser" % n)
        chk.count("statics", len(out))
        return out

    def origin(self, v, fields, d=0):
        """('action'|'goto', field) a text is made from, ('len', kind, field) for a length."""
        v = unref(v)
        ln = False
        hits = set()
        for x in walk(v):
            if x.op == "fld":
                y = x
                path = []
                while isinstance(y, T) and y.op == "fld":
                    path.append(y.args[1])
                    y = y.args[0]
                if isinstance(y, T) and y.op == "call":
                    n = y.args[0].split("::")[-1]
                    path = path[::-1]
                    if n == "compress_action_table":
                        hits.add(("action", fields[path[1]] if path[0] == 0 and len(path) > 1 else "default" if path == [1] else None))
                    elif n == "compress_goto_table":
                        hits.add(("goto", fields[path[0]]))
            if x.op == "len":
                ln = True
        hits = {h for h in hits if h[1] is not None}
        if len(hits) != 1:
            return None
        h = hits.pop()
        return ("len",) + h if ln else h

    # ------------------------------------------------------------ numbers of symbols
    def numbers(self, nm, f, vals, w):
        if not vals:
            raise AnalysisError("the template has no %s" % nm)
        ok, what = f(nm, vals)
        self.chk.decide("numbers:" + nm, ok, w, what)

    def count_of(self, nm, vals):
        v = unref(content(vals[-1]))
        ls = {show(x) for x in walk(v) if x.op == "len"}
        want = "a2:" if nm == "num_terminal_symbol" else "a3:"
        odd = [x for x in walk(v) if x.op == "lin"]
        ok = len(ls) == 1 and not odd and want in next(iter(ls))
        bad = len(ls) == 1 and (odd or ("a2:" in next(iter(ls)) or "a3:" in next(iter(ls))) and want not in next(iter(ls)))
        return (True if ok else False if bad else None), "%s is %s" % (nm, show(v)[:100])

    def end_rule(self, nm, vals):
        v = content(vals[-1])
        pos = [x for x in walk(v) if x.op == "sym" and str(x.args[0]).startswith("position")]
        odd = [x for x in walk(v) if x.op == "lin"]
        if not pos:
            return None, show(v)[:100]
        return (False if odd else True), "the end token's number is %s" % show(v)[:100]

    def closure(self, v, base_ok):
        """(paths of the mapping closure, its function) of a `map(...).collect().join()` text, None if the iterator is not the expected one."""
        for x in tuples(v):
            if x[0] == "it" and len(x) > 3 and x[1] == "map" and isinstance(x[3], tuple) and x[3][0] == "clo":
                f = self.gen.fns.get(x[3][1])
                if f is None:
                    return None
                good = base_ok(x[2])
                e = Engine(self.gen, panics=False, opaque=opaque(self.gen))
                return [q for q in e.run(f, args_of(f)) if q.status == "return"], f, good, x[3][2], e
        return None

    def fargs(self, q):
        """The arguments of the format! a closure returns."""
        for x in walk(q.ret):
            if x.op == "format":
                for y in tuples(x.args):
                    if y[0] == "vec" and y[2] and all(isinstance(z, tuple) and z and z[0] == "fa" for z in y[2]):
                        return [content(z[2]) for z in y[2]]
        return None

    def enumerated(self, arg):
        def base(it):
            if not (isinstance(it, tuple) and it[0] == "it" and it[1] == "enum" and it[3] == 0):
                return None
            it = it[2]
            return isinstance(it, tuple) and it[1] == "ref" and it[3] == 0 and arg(it[2])
        return base

    def token_numbers(self, nm, vals):
        order = []

        def arg(x):
            def flat(y):
                y = unref(y)
                if isinstance(y, T) and y.op == "call" and y.args[0].split("::")[-1] in ("collect", "cloned", "copied", "to_vec", "clone"):
                    return flat(y.args[1])
                if isinstance(y, T) and y.op == "call" and y.args[0].endswith("::chain"):
                    flat(y.args[1])
                    return flat(y.args[2])
                m = re.search(r"a(\d):", show(y))
                order.append(int(m.group(1)) if m else None)
            flat(x)
            return order == [2, 4]
        got = self.closure(vals[-1], self.enumerated(arg))
        if got is None:
            return None, "the mapping was not recognised"
        ps, f, good, caps, e = got
        if not good:
            return (False if sorted(map(str, order)) == ["2", "4"] else None), "numbers follow the order of arguments %s" % order
        comp = [v["name"] for v in self.gen.adt("bison::Component")["variants"]]
        kinds = [v["name"] for v in self.gen.adt("lexer::TokenKind")["variants"]]
        cm = {kinds.index("C_COMMENT"), kinds.index("SQL_COMMENT")}
        n = 0
        for q in ps:
            a = self.fargs(q)
            num = [x for x in a or () if isinstance(x, T) and x.ty == "usize" or isinstance(x, T) and x.op == "lin"]
            if not a or len(num) != 1:
                return None, "the text of a line was not recognised"
            num = num[0]
            ds = [t for t in atoms(q) if t.op == "discr" and "lexer::TokenKind" in (getattr(t.args[0], "ty", "") or "")]
            idx = mk("fld", (mk("sym", ("x",), None), 0), None)
            lens = [x for x in walk(num) if x.op == "len"]
            for k in range(len(kinds)):
                q2 = q.fork()
                if not ds or not all(q2.assume(eqz(lsub(d, k)), 1) for d in ds):
                    continue
                n += 1
                off = num.op == "lin" and len(num.args[1]) == 2 and num.args[0] == 0 and len(lens) == 1
                plain = num.op == "fld"
                if k in cm and not off:
                    return (False if plain else None), "a comment's number is %s" % show(num)[:80]
                if k not in cm and not plain:
                    return (False if num.op == "lin" else None), "the number of %s is %s" % (kinds[k], show(num)[:80])
        return (True if n else None), "%d kinds are numbered by position, comments after the nonterminals" % n

    def rule_numbers(self, nm, vals):
        got = self.closure(vals[-1], self.enumerated(lambda x: "a3:" in show(x)))
        if got is None or not got[2]:
            return None, "the mapping was not recognised"
        for q in got[0]:
            a = self.fargs(q)
            num = [x for x in a or () if isinstance(x, T) and (x.op == "lin" or x.op == "fld" and x.args[1] == 0 and x.ty == "usize")]
            if not a or len(num) != 1:
                return None, "the text of a line was not recognised"
            if num[0].op == "lin":
                return False, "a nonterminal's number is %s" % show(num[0])[:80]
        return True, "nonterminals are numbered by position"

    def rule_entries(self, nm, vals):
        def base(it):
            return isinstance(it, tuple) and it[0] == "it" and it[1] == "ref" and it[3] == 0 and "a0:" in show(it[2])
        got = None
        for v in vals:
            got = got or self.closure(v, base)
        if got is None or not got[2]:
            return None, "the mapping was not recognised"
        D = Describer(self.gen, {"bison::Rule": "rule"})
        for q in got[0]:
            a = self.fargs(q)
            if not a or len(a) != 2:
                return None, "the text of an entry was not recognised"
            names = [D(x) if isinstance(x, T) else show(x) for x in a]
            if names == ["rule.name", "len(rule.components)"]:
                continue
            if isinstance(a[1], T) and a[1].op == "lin" or names[0].startswith("rule.") and names[0] != "rule.name":
                return False, "an entry is written as %s" % names
            return None, "an entry is written as %s" % names
        return True, "every rule is written with its name and length, in order"

    # ------------------------------------------------------------ the order of kinds
    def kinds(self):
        """Kinds are written terminals, nonterminals, comments: the order the parser's numbers assume."""
        chk = self.chk
        gen = self.gen
        fs = [f for f in gen.fns.values() if f["def"].endswith("::generate_syntax_kinds_source_code")]
        if len(fs) != 1:
            raise AnalysisError("generate_syntax_kinds_source_code was not found")
        fn = fs[0]
        w = where(fn)
        e = Engine(gen, panics=False, opaque=opaque(gen))
        L = {h: b for h, b in block_loops(fn).items() if h != "irreducible"}
        inside = set().union(*map(set, L.values())) if L else set()
        ps, fid = region(e, fn, 0, set(range(len(fn["blocks"]))) - inside)
        chains = [ev for q, b, k in ps for ev in q.events if ev[0] == "call" and ev[1].endswith("::chain")]
        if not chains:
            raise AnalysisError("the order of kinds was not recognised")
        c = chains[-1]
        order = []

        def flat(x):
            x = unref(x)
            if isinstance(x, T) and x.op == "call" and x.args[0].endswith("::chain"):
                flat(x.args[1])
                flat(x.args[2])
                return
            m = re.search(r"a(\d):", show(x))
            order.append(int(m.group(1)) if m else None)
        flat(c[3])
        ok = None if None in order else order == [0, 1, 2]
        # who calls it with what
        chk.decide("kinds:order", ok, w, "kinds are written in the order of arguments %s" % order)


def tuples(x):
    if isinstance(x, T):
        for y in x.args:
            yield from tuples(y)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from tuples(y)


def strip(x):
    while isinstance(x, T) and x.op == "cast":
        x = x.args[0]
    return x


def content(v):
    """A text as a Python string or a term."""
    while isinstance(v, tuple) and len(v) > 1 and v[0] in ("str", "String", "s", "&"):
        v = v[1]
    return v


def s_syms(q):
    out = []
    for t in walk(tuple(q.facts)):
        if t.op == "sym" and t not in out:
            out.append(t)
    return out


def fill_of(v):
    if isinstance(v, tuple) and v and v[0] in ("vec", "fill") and isinstance(v[1], T):
        return fill_of(v[1])
    for x in walk(v):
        if x.op in ("fill", "call") and ("from_elem" in str(x.args[0]) or x.op == "fill"):
            c = [y for y in x.args if isinstance(y, int)]
            return c[0] if c else None
    return None


def report(chk, gen, prog):
    Encoding(chk, gen, prog).report()
