"""C19: how the table generator settles conflicts, against bison's rules.

The loop that fills the action table from complete items is explored for one pass from an arbitrary state; its partitions
are the decision table (item present? cell taken? precedences? order? associativity?) and are compared scenario by scenario."""
import itertools
from .dump import AnalysisError, where
from .eng import Engine, Path, T, Unmodelled, mk, lift, eqz, lez, lsub, ladd, show
from .driver import atoms
from .onepass import region, innermost, aggregates, Describer, block_loops, start, possible, args_of
from .graph import reachable

SET = ("HashMap::<K, V, S, A>::insert", "HashMap::<K, V, S>::insert", "VacantEntry::<'a, K, V, A>::insert", "VacantEntry::<'a, K, V>::insert",
       "OccupiedEntry::<'a, K, V, A>::insert", "OccupiedEntry::<'a, K, V>::insert", "Entry::<'a, K, V, A>::or_insert", "Entry::<'a, K, V>::or_insert",
       "Entry::<'a, K, V, A>::insert_entry")
READ = ("::entry", "::contains_key", "HashMap::<K, V, S, A>::get", "HashMap::<K, V, S>::get", "::len", "::iter", "::key")


def unwrap(v):
    while isinstance(v, tuple) and v and v[0] == "&":
        v = v[1]
    return v


def strip_ty(t):
    t = t or ""
    while t.startswith("&"):
        t = t[1:].removeprefix("mut ")
    return t


class Conflicts:
    def __init__(self, prog):
        self.prog = prog
        self.D = Describer(prog, {"lalr::Lalr": "lalr", "lalr::Item": "item", "bison::Rule": "rule"})
        self.actions = [v["name"] for v in prog.adt("bison::Action")["variants"]]
        self.dirs = [v["name"] for v in prog.adt("bison::AssocDirective")["variants"]]
        self.fns = [f for f in prog.fns.values() if "lalr" in f["def"] and "test" not in f["def"]]

    def locate(self):
        """The function and loop that turn complete items into actions."""
        red = self.actions.index("Reduce")
        makers = {f["def"] for f in self.fns if aggregates(f, "bison::Action", red)}
        best = None
        for f in self.fns:
            blocks = set(aggregates(f, "bison::Action", red))
            for b, blk in enumerate(f["blocks"]):
                t = blk["t"]
                if t["k"] == "call" and t.get("f") and t["f"].get("res") in makers:
                    blocks.add(b)
            if not blocks:
                continue
            got = innermost(f, blocks)
            if got and (best is None or len(got[1]) < len(best[2])):
                best = (f,) + got
        if best is None:
            raise AnalysisError("the loop that enters reductions into the action table was not found")
        return best

    # ------------------------------------------------------------ the decision table
    def role(self, t):
        if t.op == "discr" and isinstance(t.args[0], T):
            x = t.args[0]
            ty = strip_ty(x.ty)
            d = self.D(x)
            if d.startswith("lalr.assoc[") and d.endswith("]"):
                return "s"
            if d.startswith("lalr.rules[") and d.endswith(".reduce_priority"):
                return "r"
            if d.endswith(".directive"):
                return "dir" if d.startswith("lalr.assoc[") else "rdir"
            if ty.startswith("std::option::Option<") and ty.endswith("lalr::Item>"):
                return "item"
            if ty.startswith("std::option::Option<") and ty.endswith("bison::ComponentId>"):
                return "next"
            if "hash_map::Entry<" in ty or "btree_map::Entry<" in ty:
                return "entry"
            if ty.startswith("std::option::Option<") and ty.endswith("bison::Action>"):
                return "got"
        d = self.D(t)
        if d.startswith("lalr.assoc[") and d.endswith(".priority"):
            return "ps"
        if d.startswith("lalr.rules[") and d.endswith(".priority"):
            return "pr"
        if d == "item.rule_index":
            return "rule"
        if t.op == "call" and t.args[0].endswith("contains_key"):
            return "has"
        if t.op == "sym" and t.ty == "usize":
            return "start"
        return None

    def data(self, t):
        """A value read from the grammar's tables, or a comparison of such values."""
        t = unwrap(t)
        while isinstance(t, tuple) and len(t) > 1 and t[0] in ("str", "String", "s", "&"):
            t = t[1]
        if not isinstance(t, T):
            return isinstance(t, (int, str))
        if t.op == "call":
            return t.args[0].split("::")[-1] in ("eq", "ne", "lt", "le", "gt", "ge") and all(self.data(x) for x in t.args[1:])
        if t.op in ("streq", "eqz", "lez", "not"):
            return all(self.data(x) for x in t.args)
        d = self.D(t)
        while d.startswith(("deref(", "discr(", "len(", "as(")):
            d = d.split("(", 1)[1]
        return d.startswith("next#") or self.D(t).startswith(("lalr.", "discr(lalr.", "item.", "rule.", "discr(item.", "discr(rule.", "len(lalr.", "len(item.", "len(rule."))

    def effect(self, q, occupied):
        """(effect, known)"""
        out = "none"
        for ev in q.events:
            if ev[0] != "call":
                continue
            n = ev[1]
            if not ("HashMap" in n or "Entry" in n or "BTreeMap" in n):
                continue
            if n.endswith(SET) or (n.endswith("::insert") and "BTreeMap" in n):
                v = unwrap(ev[2][-1])
                if "or_insert" in n and occupied:
                    continue
                if not (isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("bison::Action")):
                    return "?", False
                a = self.actions[v[2]]
                if a == "Reduce" and self.D(v[3][0]) != "item.rule_index":
                    return "Reduce(%s)" % self.D(v[3][0]), True
                out = a
            elif any(n.endswith(r) for r in READ):
                continue
            else:
                return "?", False
        return out, True

    def table(self, chk):
        fn, head, body = self.locate()
        w = where(fn)
        e = Engine(self.prog, panics=False)
        paths, fid = region(e, fn, head, body)
        self.engine = e
        paths = [(q, k) for q, b, k in paths]
        roles, odd = {}, set()
        for q, k in paths:
            for t in atoms(q):
                r = self.role(t)
                if r is None:
                    odd.add(t)
                else:
                    roles.setdefault(r, []).append(t)
        chk.count("resolution_partitions", len(paths))
        for need in ("item", "r", "s", "dir", "pr", "ps"):
            if need not in roles:
                raise AnalysisError("nothing in the loop plays the role %s" % need)

        def familiar(q):
            return all(self.role(t) is not None or self.data(t) for t in atoms(q))

        def fix(q, sc):
            mine = {}
            for t in atoms(q):
                r = self.role(t)
                if r:
                    mine.setdefault(r, []).append(t)
            todo = []
            for r, v in sc.items():
                if r == "occ":
                    todo += [(eqz(t) if v else eqz(lsub(t, 1)), 1) for t in mine.get("entry", ())]
                    todo += [(eqz(lsub(t, 1)), v) for t in mine.get("got", ())]
                    todo += [(t, v) for t in mine.get("has", ())]
                elif r == "accept":
                    todo += [(eqz(lsub(x, y)), v) for x in mine.get("rule", ()) for y in mine.get("start", ())]
                elif r == "cmp":
                    for x in mine.get("pr", ()):
                        for y in mine.get("ps", ()):
                            todo.append((eqz(lsub(x, y)) if v == "=" else lez(ladd(lsub(x, y), 1)) if v == "<" else lez(ladd(lsub(y, x), 1)), 1))
                else:
                    todo += [(eqz(lsub(t, v)), 1) for t in mine.get(r, ())]
            return all(q.assume(c, v) for c, v in todo)
        scen = [("no-reduction", dict(next=1, item=0), "none")]
        for acc in (0, 1):
            act = "Accept" if acc else "Reduce"
            nm = "accept" if acc else "reduce"
            scen.append((nm + ":free-cell", dict(next=1, item=1, accept=acc, occ=0), act))
            base = dict(next=1, item=1, accept=acc, occ=1)
            if acc:
                continue
            scen.append((nm + ":neither-precedence", dict(base, r=0, s=0), "none"))
            scen.append((nm + ":rule-precedence-only", dict(base, r=1, s=0), "none"))
            scen.append((nm + ":token-precedence-only", dict(base, r=0, s=1), "none"))
            for i, d in enumerate(self.dirs):
                scen.append((nm + ":lower-rule:" + d, dict(base, r=1, s=1, cmp="<", dir=i), "none"))
                scen.append((nm + ":higher-rule:" + d, dict(base, r=1, s=1, cmp=">", dir=i), act))
                scen.append((nm + ":equal:" + d, dict(base, r=1, s=1, cmp="=", dir=i),
                             {"Left": act, "Right": "none", "NonAssoc": "Error"}.get(d)))
        for nm, sc, want in scen:
            got = []
            for q, k in paths:
                q2 = q.fork()
                if not fix(q2, sc) or not possible(self.prog, q2):
                    continue
                eff, known = self.effect(q2, sc.get("occ") == 1)
                got.append((eff, known and familiar(q2)))
            if want is None:
                chk.undecided("resolve:" + nm, w, "no prescription for this associativity")
                continue
            wrong = [g for g in got if g[0] != want]
            chk.count("scenarios")
            if not got:
                chk.undecided("resolve:" + nm, w, "no partition for this case")
            elif not wrong:
                chk.proved("resolve:" + nm, w, "effect: %s" % want)
            elif any(k for _, k in wrong):
                chk.refuted("resolve:" + nm, w, "the entry becomes %s instead of %s" % (wrong[0][0], {"none": "staying the shift" if sc.get("occ") else "staying empty"}.get(want, want)))
            else:
                chk.undecided("resolve:" + nm, w, "the effect was not recognised")
        self.choice(chk, paths, w)
        self.candidates(chk, fn, head, w)

    def choice(self, chk, paths, w):
        """Among several reductions the first complete item in item order is taken."""
        seen = {}
        for q, k in paths:
            for ev in q.events:
                if ev[0] == "call" and len(ev) > 3 and isinstance(unwrap(ev[3]), T) and strip_ty(unwrap(ev[3]).ty).endswith("lalr::Item>") \
                        and "option::Option" in (unwrap(ev[3]).ty or ""):
                    seen[ev[1]] = ev[2]
        if len(seen) != 1:
            chk.undecided("choice:first", w, "the selection of the item was not recognised")
            return
        name, args = seen.popitem()
        it = unwrap(args[0])
        meth = name.split("::")[-1]
        if not (isinstance(it, tuple) and it[0] == "it"):
            chk.undecided("choice:first", w, "selection over %s" % show(it)[:60])
            return
        fwd = it[1] in ("ref", "val", "mut") and it[3] == 0
        if meth == "find" and fwd:
            chk.proved("choice:first", w, "find() from the front")
        elif meth in ("rfind", "last", "rposition") or (meth == "find" and it[1] == "rev"):
            chk.refuted("choice:first", w, "among several reductions the last item is taken, not the first (%s)" % meth)
        else:
            chk.undecided("choice:first", w, "%s over %s" % (meth, show(it)[:60]))
            return
        clo = args[-1] if len(args) > 1 else None
        clo = unwrap(clo)
        if not (isinstance(clo, tuple) and clo[0] == "clo"):
            chk.undecided("choice:lookahead", w, "the condition is not a closure")
            return
        f = self.prog.fns.get(clo[1])
        if f is None:
            chk.undecided("choice:lookahead", w, "closure body")
            return
        e = Engine(self.prog, panics=False)
        res = e.run(f, args_of(f), Path())
        rs = {self.D(q.ret) if isinstance(q.ret, T) else show(q.ret) for q in res if q.status == "return"}
        ok = len(rs) == 1 and next(iter(rs)).startswith("contains(item.lookahead,")
        bad = len(rs) == 1 and next(iter(rs)).startswith("not(contains(item.lookahead")
        chk.decide("choice:lookahead", True if ok else False if bad else None, where(f), "condition: %s" % sorted(rs)[:2])

    def candidates(self, chk, fn, head, w):
        """The items considered are the complete ones, in item order."""
        L = {h: b for h, b in block_loops(fn).items() if h != "irreducible"}
        outer = sorted((len(b), h) for h, b in L.items() if head in b and h != head)
        if not outer:
            chk.undecided("choice:complete-items", w, "no loop over the states")
            return
        oh = outer[0][1]
        inner = set()
        for h, b in L.items():
            if h != oh and set(b) < set(L[oh]):
                inner |= set(b)
        e = Engine(self.prog, panics=False)
        paths, fid = region(e, fn, oh, set(L[oh]) - inner)
        calls = []
        for q, b, k in paths:
            for ev in q.events:
                if ev[0] == "call" and ev[1].endswith("::collect") and "Item" in show(ev[3] if len(ev) > 3 else "") + (getattr(unwrap(ev[3]), "ty", "") or "" if len(ev) > 3 else ""):
                    calls.append(ev)
        its = {ev[2][0] for ev in calls} if calls else set()
        if len(its) != 1:
            its = {ev[2][0] for q, b, k in paths for ev in q.events if ev[0] == "call" and ev[1].endswith("::collect")}
        if len(its) != 1:
            chk.undecided("choice:complete-items", w, "the list of complete items was not recognised")
            return
        it = its.pop()
        if not (isinstance(it, tuple) and it[0] == "it" and it[1] == "filter" and it[2][0] == "it" and it[2][1] == "ref" and it[2][3] == 0):
            chk.undecided("choice:complete-items", w, show(it)[:100])
            return
        clo = it[3]
        f = self.prog.fns.get(clo[1]) if clo[0] == "clo" else None
        if f is None:
            chk.undecided("choice:complete-items", w, "closure body")
            return
        e = Engine(self.prog, panics=False)
        res = e.run(f, args_of(f), Path())
        conds = []
        for q in res:
            if q.status == "return":
                r = q.ret
                if isinstance(r, T) and r.op == "eqz":
                    ls = sorted({self.D(t) for t in leaves_of(r)})
                    conds.append((1, ls, r))
                else:
                    conds.append((None, r, None))
        ok = None
        if len(conds) == 1 and conds[0][0]:
            ls = conds[0][1]
            if any(x == "item.dot_pos" for x in ls) and any(x.endswith("[item.rule_index].components)") and x.startswith("len(") for x in ls) and len(ls) == 2:
                ok = True
        chk.decide("choice:complete-items", ok, where(f), "complete items: %s" % ("; ".join(x[:150] for x in conds[0][1]) if conds and conds[0][0] else conds,))

    # ------------------------------------------------------------ where precedence comes from
    def precedence(self, chk):
        fns = [f for f in self.fns if aggregates(f, "lalr::LalrRule") and innermost(f, aggregates(f, "lalr::LalrRule"))]
        fns = [f for f in fns if f["def"].split("::")[-1] == "new" or "::new" in f["def"]] or fns
        if len(fns) != 1:
            raise AnalysisError("the loop that builds the rules was not found")
        fn = fns[0]
        w = where(fn)
        head, body = innermost(fn, aggregates(fn, "lalr::LalrRule"))
        op = {f["def"] for f in self.prog.fns.values() if f["def"].endswith("to_component_id") or ("From<" in f["def"] and "TokenKind" in f["def"])}
        e = Engine(self.prog, panics=False, opaque=op)
        paths, fid = region(e, fn, head, body)
        fields = self.prog.adt("lalr::LalrRule")["variants"][0]["fields"]
        pi = fields.index("reduce_priority")
        seen = {"explicit": [], "last": [], "none": []}
        for q, b, k in paths:
            new = [unwrap(v) for ev in q.events if ev[0] == "push" for v in ev[1:] if isinstance(unwrap(v), tuple) and unwrap(v)[0] == "adt" and unwrap(v)[1].endswith("lalr::LalrRule")]
            if not new:
                continue
            pv = unwrap(new[0][3][pi])
            prec = None
            lastd = None
            for t in atoms(q):
                d = self.D(t)
                if d == "discr(rule.prec)":
                    prec = q.truth(eqz(lsub(t, 1)))
                if t.op == "discr" and isinstance(t.args[0], T) and t.args[0].op == "call" and t.args[0].args[0].split("::")[-1] in ("last", "next_back", "rfind", "find", "next", "first", "reduce", "nth"):
                    lastd = (t.args[0], q.truth(eqz(lsub(t, 1))))
            src = self.source(pv)
            if prec == 1:
                seen["explicit"].append((src == "prec", src, q))
            elif lastd is not None and lastd[1] == 1:
                seen["last"].append((self.is_last_terminal(lastd[0]) if src in ("chosen",) else None, src, q))
            elif pv[0] == "adt" and pv[2] == 0 if isinstance(pv, tuple) else False:
                seen["none"].append((True, "none", q))
            else:
                seen["none"].append((None, src, q))
        for nm, xs in seen.items():
            if not xs:
                chk.undecided("precedence:" + nm, w, "no partition")
            elif all(x[0] is True for x in xs):
                chk.proved("precedence:" + nm, w, "%d partitions" % len(xs))
            elif any(x[0] is False for x in xs):
                x = [x for x in xs if x[0] is False][0]
                chk.refuted("precedence:" + nm, w, {"explicit": "a rule with %%prec takes its precedence from %s" % x[1],
                                                    "last": "a rule's precedence is not that of its last terminal"}.get(nm, x[1]))
            else:
                chk.undecided("precedence:" + nm, w, str(xs[0][1])[:100])

    def source(self, pv):
        """Where the precedence value is taken from: 'prec' (the %prec token), 'chosen' (a component of the rule), other."""
        if isinstance(pv, tuple):
            return "none" if pv[0] == "adt" and pv[2] == 0 else show(pv)[:60]
        if not isinstance(pv, T) or pv.op != "elem":
            return False if False else show(pv)[:60]
        c = pv.args[1]
        while isinstance(c, T) and c.op in ("fld", "as"):
            c = c.args[0]
        if not (isinstance(c, T) and c.op == "call" and c.args[0].endswith("to_component_id")):
            return show(c)[:60]
        a = unwrap(c.args[2])
        if isinstance(a, tuple) and a[0] == "adt" and a[1].endswith("bison::Component"):
            inner = a[3][0]
            inner = unwrap(inner)
            if isinstance(inner, T) and inner.op == "call" and "From" in inner.args[0]:
                x = self.D(unwrap(inner.args[1]))
                return "prec" if x.startswith("rule.prec") else x
            return show(a)[:60]
        while isinstance(a, T) and a.op in ("fld", "as", "deref"):
            a = a.args[0]
        if isinstance(a, T) and a.op == "call":
            return "chosen"
        return show(a)[:60]

    def is_last_terminal(self, c):
        """Does the call give the last terminal of the rule's components?"""
        meth = c.args[0].split("::")[-1]
        it = unwrap(c.args[1])
        flt, base, rev = None, it, False
        for _ in range(4):
            if not (isinstance(base, tuple) and base[0] == "it"):
                return None
            if base[1] == "filter":
                flt, base = base[3], base[2]
            elif base[1] == "rev":
                rev = not rev
                base = base[2]
            else:
                break
        if not (base[1] in ("ref", "val") and base[3] == 0) or "rule.components" not in self.D(base[2]) and "rule.components" not in deep_names(self, base[2]):
            return None
        if meth in ("find", "rfind"):
            flt = unwrap(c.args[2])
        if flt is None:
            return None
        f = self.prog.fns.get(flt[1]) if flt[0] == "clo" else None
        if f is None:
            return None
        e = Engine(self.prog, panics=False)
        res = e.run(f, args_of(f), Path())
        comp = [v["name"] for v in self.prog.adt("bison::Component")["variants"]]
        term = comp.index("Terminal")
        for q in res:
            if q.status != "return":
                continue
            ds = [t for t in atoms(q) if t.op == "discr"]
            if isinstance(q.ret, int) and len(ds) == 1:
                if q.truth(eqz(lsub(ds[0], term))) != (1 if q.ret else 0):
                    return None
            elif isinstance(q.ret, T):
                if q.ret.op == "eqz" and len(leaves_of(q.ret)) == 1 and q.ret == eqz(lsub(next(iter(leaves_of(q.ret))), term)):
                    continue
                return None
            else:
                return None
        end = {"last": True, "next_back": True, "rfind": True, "find": False, "next": False, "first": False}.get(meth)
        if end is None:
            return None
        return end != rev

    # ------------------------------------------------------------ declarations
    def declarations(self, chk):
        fs = [f for f in self.prog.fns.values() if f["def"].endswith("bison::parse_assoc")]
        bs = [f for f in self.prog.fns.values() if f["def"].endswith("bison::parse_bison")]
        if len(fs) != 1 or len(bs) != 1:
            raise AnalysisError("parse_assoc and parse_bison were not found")
        pa, pb = fs[0], bs[0]
        w = where(pb)
        # %left, %right, %nonassoc
        calls = [b for b, blk in enumerate(pb["blocks"]) if blk["t"]["k"] == "call" and blk["t"]["f"].get("res") == pa["def"]]
        got = innermost(pb, calls)
        if not got:
            raise AnalysisError("the loop over the declarations was not found")
        op = {f["def"] for f in self.prog.fns.values() if f["def"].split("::")[-1] in ("parse_assoc", "parse_token", "parse_type")}
        e = Engine(self.prog, panics=False, opaque=op)
        paths, fid = region(e, pb, *got)
        want = {"%left": "Left", "%right": "Right", "%nonassoc": "NonAssoc"}
        dirs = {}
        for q, b, k in paths:
            for ev in q.events:
                if ev[0] == "call" and ev[1] == pa["def"]:
                    v = unwrap(ev[2][-1])
                    word = word_of(q, want)
                    d = self.dirs[v[2]] if isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("AssocDirective") else None
                    dirs.setdefault(word, set()).add(d)
        for word, d in want.items():
            g = dirs.get(word)
            ok = None if not g or None in g else g == {d}
            chk.decide("declaration:" + word, ok, w, "%s is recorded as %s" % (word, sorted(map(str, g or []))))
        # later declarations bind tighter; every name of one declaration gets the same precedence
        w = where(pa)
        e = Engine(self.prog, panics=False)
        blocks = aggregates(pa, "bison::Assoc")
        got = innermost(pa, blocks)
        if not got:
            raise AnalysisError("the loop over the names of a declaration was not found")
        paths, fid = region(e, pa, *got)
        fields = self.prog.adt("bison::Assoc")["variants"][0]["fields"]
        dirs, prios = [], []
        dirarg = [i for i in range(pa["nargs"]) if strip_ty(pa["locals"][i + 1]).endswith("AssocDirective")]
        for q, b, k in paths:
            for ev in q.events:
                if ev[0] == "call" and ev[1].endswith("::insert"):
                    v = unwrap(ev[2][-1])
                    if not (isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("bison::Assoc")):
                        continue
                    pr, di = unwrap(v[3][fields.index("priority")]), unwrap(v[3][fields.index("directive")])
                    chk.count("declaration_partitions")
                    ok = isinstance(di, T) and len(dirarg) == 1 and str(di.args[0]).startswith("a%d:" % dirarg[0])
                    dirs.append((True if ok else None if isinstance(di, T) else False, show(di)[:60]))
                    prios.append((pr, q))
        if not dirs:
            chk.undecided("declaration:associativity", w, "no entry is recorded")
            return
        for nm, xs in (("declaration:associativity", dirs), ("declaration:precedence", [self.priority(pa, pr, q, fid) for pr, q in prios])):
            worst = next((x for x in xs if x[0] is False), None) or next((x for x in xs if x[0] is None), None) or xs[0]
            chk.decide(nm, worst[0], w, "recorded: %s" % worst[1])

    def priority(self, pa, pr, q, fid):
        """The precedence of a declaration: constant inside it, the number of names declared before it."""
        if not (isinstance(pr, T) and pr.op == "sym" and str(pr.args[0]).startswith("v")):
            if grows(self, pr):
                return False, "%s, which changes inside a declaration" % show(pr)[:60]
            return None, show(pr)[:60]
        loc = int(str(pr.args[0])[1:].split(":")[0])
        now = q.mem.get((fid, loc))
        if now is not None and now != pr:
            d = lsub(now, pr)
            return (False if isinstance(d, int) and d or grows(self, now) else None), "a value that changes inside a declaration"
        L = {h: b for h, b in block_loops(pa).items() if h != "irreducible"}
        inside = set().union(*L.values()) if L else set()
        defs = []
        for b, blk in enumerate(pa["blocks"]):
            for s in blk["s"]:
                if s.get("p") and s["p"][0] == loc:
                    defs.append((b, s))
            t = blk["t"]
            if t["k"] == "call" and t.get("dest") and t["dest"][0] == loc:
                defs.append((b, t))
        if any(b in inside for b, _ in defs):
            return None, "a value assigned inside a declaration"
        e = Engine(self.prog, panics=False)
        p, fid = start(e, pa)
        e.finals = []
        stop = set(range(len(pa["blocks"]))) - inside
        out = e.explore([(p, 0)], (fid, 0, stop, {"first": True}))
        vals = {x.mem.get((fid, loc)) for x, b, k in out}
        names = sorted({self.D(v) if isinstance(v, T) else show(v) for v in vals})
        if len(vals) != 1:
            return None, names[:2]
        v = next(iter(vals))
        ok = names[0].startswith("len(") and "assoc" in names[0] or is_len_of_assoc(self, vals)
        if not ok and isinstance(v, T) and v.op == "lin" and len(v.args[1]) == 1:
            (x, k), = v.args[1]
            if is_len_of_assoc(self, {x}):
                return k > 0, names[:2]
        return True if ok else None, names[:2]

    # ------------------------------------------------------------ the table of token precedences
    def tokens(self, chk):
        fns = [f for f in self.fns if aggregates(f, "lalr::LalrRule") and f["def"].endswith("::new")]
        if len(fns) != 1:
            raise AnalysisError("Lalr::new was not found")
        fn = fns[0]
        w = where(fn)
        op = {f["def"] for f in self.prog.fns.values() if f["def"].endswith("to_component_id") or ("From<" in f["def"] and "TokenKind" in f["def"])}
        L = {h: b for h, b in block_loops(fn).items() if h != "irreducible"}
        found = None
        for h, b in L.items():
            e = Engine(self.prog, panics=False, opaque=op)
            try:
                paths, fid = region(e, fn, h, b)
            except Exception:
                continue
            for q, bb, k in paths:
                if k != "back":
                    continue
                for ev in q.events:
                    if ev[0] == "store" and "Assoc" in show(ev):
                        found = (q, ev)
            for q, bb, k in paths:
                if k != "back":
                    continue
                for cell, v in q.mem.items():
                    if cell[0] != fid or not isinstance(cell[1], int):
                        continue
                    ty = strip_ty(fn["locals"][cell[1]])
                    if ty.startswith("std::vec::Vec<std::option::Option<") and "bison::Assoc" in ty and not (isinstance(v, T) and v.op == "sym"):
                        found = (q, v)
        return found


def grows(c, v):
    """Does the value hold the number of declared names at this point of the loop?"""
    from .encoding import walk
    return any(is_len_of_assoc(c, {x}) for x in walk(v))


def is_len_of_assoc(c, vals):
    v = next(iter(vals))
    return isinstance(v, T) and v.op in ("call", "len", "maplen") and "assoc" in deep_names(c, v) and ("len" in str(v.args[0]) or v.op != "call")


def deep_names(c, v):
    out = []

    def go(x):
        if isinstance(x, T):
            if x.op in ("fld", "elem", "deref"):
                out.append(c.D(x))
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(v)
    return " ".join(out)


def leaves_of(t):
    from .driver import leaves
    out = set()
    leaves(t, out)
    return out


def word_of(q, words):
    """The literal the current line starts with on this partition."""
    hits = {v[0] for v in q.strs.values() if v[0] in words}
    return hits.pop() if len(hits) == 1 else None


def report(chk, prog):
    c = Conflicts(prog)
    chk.guard("table", c.table, chk)
    chk.guard("precedence", c.precedence, chk)
    chk.guard("declarations", c.declarations, chk)
