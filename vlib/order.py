"""Where the iteration order of a hash collection can reach what a program computes.

A value is *unordered* when it enumerates the elements of a hash collection in hash order: every iterator over one (its
type says so) and every sequence filled from one.  Such a value may be consumed by operations whose result does not
depend on the order (sets and maps built from it, counts, quantifiers, sorting) and by loops whose body only has effects
that commute; anything that lets the order through - a sequence that is formatted, indexed, numbered or handed on as a
sequence to such a use, numbers given out in the loop, the element that happens to come first - is reported."""
import re
from . import graph
from .dump import where
from .eng import loops_of, successors

HASHIT = re.compile(r"(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
HASHCOL = re.compile(r"^&?(mut )?std::collections::Hash(Map|Set)<")
SETLIKE = re.compile(r"^&?(mut )?std::collections::(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")
SEQLIKE = re.compile(r"^&?(mut )?(std::vec::Vec<|std::collections::(VecDeque|LinkedList)<|std::string::String|std::boxed::Box<\[|std::boxed::Box<str|\[|str$|std::vec::IntoIter|std::slice::Iter)")
ADAPT = {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "inspect", "fuse", "by_ref", "into_iter", "iter", "iter_mut",
         "clone", "chain", "keys", "values", "into_keys", "into_values", "drain", "difference", "union", "intersection",
         "symmetric_difference", "rev", "peekable", "values_mut", "as_ref", "borrow", "deref", "deref_mut", "as_slice", "to_vec", "into_boxed_slice",
         "into", "from", "unwrap", "expect", "to_owned", "as_mut", "clone_from", "as_mut_slice", "into_vec", "dedup", "retain", "get", "get_mut", "index",
         "unwrap_or_default", "or_default", "branch", "ok_or", "cloned_ref", "shrink_to_fit", "reserve", "insert_unique", "windows", "concat_iter", "extract_if"}
ORDERED = {"enumerate", "zip", "take", "skip", "step_by", "scan", "take_while", "skip_while", "map_while", "last", "nth", "join", "concat",
           "intersperse", "first", "first_mut", "split_first", "split_last", "partition_point", "chunks", "split_at", "into_string"}
COMMUTE = {"count", "len", "all", "any", "sum", "product", "min", "max", "contains", "is_empty", "size_hint", "drop", "is_disjoint", "is_subset",
           "is_superset", "contains_key", "capacity", "for_each", "try_for_each", "clear"}
SORT = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"}
PUSH = {"push", "push_back", "push_front", "push_str", "insert_str", "append", "write_str", "write_fmt", "write_char", "add_assign", "extend_from_slice",
        "extend_from_within", "resize"}
OK, BAD, UNK = "ok", "bad", "unk"
RANK = {OK: 0, UNK: 1, BAD: 2}


def cname(f):
    return f.get("res") or f.get("def") or ""


def meth(f):
    n = cname(f)
    n = re.sub(r"::<[^<>]*(<.*>)?[^<>]*>$", "", n)
    return n.rsplit("::", 1)[-1]


def hashit(ty):
    return bool(HASHIT.search(ty)) and not ty.startswith("closure:") and not ty.startswith("&mut closure:")


class Order:
    def __init__(self, prog):
        self.prog = prog
        self.fields = set()        # (index, type) of fields that hold unordered sequences
        self.params = {}           # fn id -> {local}
        self.rets = set()          # fn ids that return unordered sequences
        self.obs = {}              # (fn id, line, what) -> (verdict, detail)
        self.nums = {}
        changed = True
        rounds = 0
        while changed and rounds < 12:
            rounds += 1
            self.obs = {}
            before = (len(self.fields), sum(map(len, self.params.values())), len(self.rets))
            for k in sorted(prog.fns):
                self.function(prog.fns[k])
            changed = before != (len(self.fields), sum(map(len, self.params.values())), len(self.rets))

    # ------------------------------------------------------------------ one function
    def note(self, fn, t, what, verdict, detail):
        k = (fn["id"], t.get("l"), what)
        if k not in self.obs or RANK[verdict] > RANK[self.obs[k][0]]:
            self.obs[k] = (verdict, detail)

    def ty(self, fn, p):
        """Type of a place as far as the projections tell."""
        for e in reversed(p[1]):
            if isinstance(e, dict) and "t" in e:
                return str(e["t"])
        t = str(fn["locals"][p[0]])
        for e in p[1]:
            if e == "*":
                t = re.sub(r"^&(mut )?", "", t)
        return t

    def unordered(self, fn, st, p):
        if p is None:
            return False
        if p[0] in st:
            return True
        if hashit(self.ty(fn, p)):
            return True
        return any(isinstance(e, dict) and "f" in e and (e["f"], str(e.get("t"))) in self.fields for e in p[1])

    def function(self, fn):
        blocks = fn["blocks"]
        if not self.relevant(fn):
            return
        n = len(blocks)
        ins = [None] * n
        ins[0] = frozenset(self.params.get(fn["id"], ()))
        work = [0]
        self.alias = self.aliases(fn)
        self.loop_push = {}
        loops = loops_of(fn)
        # effects of loops over unordered values are applied when the loop is met
        steps = 0
        while work:
            b = work.pop()
            steps += 1
            if steps > 20 * n + 200:
                break
            st = set(ins[b])
            for s in blocks[b]["s"]:
                self.statement(fn, s, st)
            self.terminator(fn, b, blocks[b]["t"], st, loops)
            for s in successors(blocks[b]["t"]):
                new = frozenset(st) | (ins[s] or frozenset())
                if ins[s] is None or new != ins[s]:
                    ins[s] = new
                    work.append(s)

    def relevant(self, fn):
        if self.params.get(fn["id"]):
            return True
        if any(HASHIT.search(str(t)) or HASHCOL.search(str(t)) for t in fn["locals"]):
            return True
        s = None
        if self.fields or self.rets:
            for b in fn["blocks"]:
                f = graph.callee(b["t"])
                if f and f.get("id") in self.rets:
                    return True
                s = repr(b)
                if any(repr(t) in s for _, t in self.fields):
                    return True
        return False

    def aliases(self, fn):
        """local -> (base local, keyed) for references made from other locals."""
        out = {}
        for _ in range(3):
            for b in fn["blocks"]:
                for s in b["s"]:
                    if "p" not in s or s["p"][1]:
                        continue
                    r = s.get("r")
                    src = None
                    if isinstance(r, dict) and "ref" in r:
                        src = r["ref"]
                    elif isinstance(r, dict) and "use" in r and str(fn["locals"][s["p"][0]]).startswith("&"):
                        src = graph.operand_place(r["use"])
                    if src:
                        base, keyed = out.get(src[0], (src[0], False))
                        out[s["p"][0]] = (base, keyed or any(isinstance(e, dict) and "i" in e for e in src[1]))
                t = b["t"]
                f = graph.callee(t)
                if f and t.get("dest") and not t["dest"][1] and t["args"]:
                    d = t["dest"][0]
                    dt = str(fn["locals"][d])
                    p = graph.operand_place(t["args"][0])
                    if p and (dt.startswith("&") or "Entry" in dt or dt.startswith("std::option::Option<&")) and str(fn["locals"][p[0]]).startswith(("&", "std::collections", "std::option::Option<&")):
                        base, keyed = out.get(p[0], (p[0], False))
                        out[d] = (base, keyed or meth(f) in ("index_mut", "entry", "get_mut", "get_or_insert_with", "index"))
        return out

    def base(self, l):
        return self.alias.get(l, (l, False))

    def field_of(self, fn, l):
        """(index, type) of the field a reference local points to, when it does."""
        for b in fn["blocks"]:
            for s in b["s"]:
                if s.get("p") == [l, []] and isinstance(s.get("r"), dict) and "ref" in s["r"]:
                    p = s["r"]["ref"]
                    fs = [e for e in p[1] if isinstance(e, dict) and "f" in e]
                    if fs:
                        return (fs[-1]["f"], str(fs[-1].get("t")))
                    if p[1] and p[1] != ["*"]:
                        return None
                    return self.field_of(fn, p[0]) if p[0] != l else None
            t = b["t"]
            if t["k"] == "call" and t.get("dest") == [l, []] and graph.callee(t) and meth(t["f"]) in ("deref_mut", "deref", "as_mut", "borrow_mut") and t["args"]:
                p = graph.operand_place(t["args"][0])
                return self.field_of(fn, p[0]) if p and p[0] != l else None
        return None

    def taint(self, fn, st, p):
        """An unordered sequence is stored in a place."""
        fs = [e for e in p[1] if isinstance(e, dict) and "f" in e]
        if fs and ("*" in p[1] or str(fn["locals"][p[0]]).find("::") > 0 and not fn["locals"][p[0]].startswith("(")):
            self.fields.add((fs[-1]["f"], str(fs[-1].get("t"))))
        elif "*" in p[1]:
            b = self.base(p[0])[0]
            st.add(b)
            st.add(p[0])
        else:
            st.add(p[0])
            if p[0] == 0:
                self.rets.add(fn["id"])

    def statement(self, fn, s, st):
        if "p" not in s or "r" not in s:
            return
        r = s["r"]
        src = []
        if isinstance(r, dict):
            if "use" in r:
                src = [graph.operand_place(r["use"])]
            elif "ref" in r:
                src = [r["ref"]]
            elif "cast" in r or "agg" in r:
                src = [graph.operand_place(o) for o in ops_of(r)]
                if r.get("agg") == "closure":
                    for i, p in enumerate(src):
                        if p and self.unordered(fn, st, p) and not hashit(self.ty(fn, p)):
                            self.fields.add((i, self.ty(fn, p)))
                    return
        src = [p for p in src if p]
        if isinstance(r, dict) and r.get("agg") == "adt" and not str(r.get("adt", "")).startswith(("std::", "core::", "alloc::")):
            for i, o in enumerate(r.get("ops", ())):
                p = graph.operand_place(o)
                if p and p[0] in st and not hashit(self.ty(fn, p)):
                    self.fields.add((i, self.ty(fn, p)))
            return
        hot = [p for p in src if self.unordered(fn, st, p)]
        if hot:
            t = self.ty(fn, hot[0])
            if not hashit(self.ty(fn, s["p"])) or hot[0][0] in st:
                if any(isinstance(e, dict) and "i" in e or e == "i" for e in hot[0][1]):
                    return
                if not scalar(self.ty(fn, s["p"])):
                    self.taint(fn, st, s["p"])
        elif not s["p"][1] and s["p"][0] in st and isinstance(r, dict) and ("use" in r or "agg" in r):
            st.discard(s["p"][0])

    def terminator(self, fn, b, t, st, loops):
        if t["k"] == "return":
            if 0 in st:
                self.rets.add(fn["id"])
            return
        if t["k"] != "call":
            return
        f = graph.callee(t)
        if not f:
            return
        m = meth(f)
        args = [graph.operand_place(a) for a in t["args"]]
        tys = [self.ty(fn, p) if p else "" for p in args]
        hot = [i for i, p in enumerate(args) if p and self.unordered(fn, st, p)]
        # collections handed over by value or reference to something that will iterate over them
        eats = [i for i, y in enumerate(tys) if HASHCOL.match(y) and i > 0 and m in ("extend", "zip", "chain", "eq", "cmp", "partial_cmp", "from_iter", "lt", "flat_map")]
        if not hot and m in ("from_iter",) and tys and HASHCOL.match(tys[0]):
            eats = [0]
        dest = t.get("dest")
        dty = self.ty(fn, dest) if dest else ""
        if f.get("id") in self.rets and dest and not SETLIKE.match(dty) or f.get("id") in self.rets and dest:
            self.taint(fn, st, dest)
        if not hot and not eats:
            if dest and not dest[1] and dest[0] in st and f.get("id") not in self.rets:
                st.discard(dest[0])
            return
        local = f.get("id") in self.prog.fns
        if local:
            g = self.prog.fns[f["id"]]
            for i in hot:
                if not hashit(tys[i]) or True:
                    if args[i][0] in st and i + 1 <= g["nargs"]:
                        self.params.setdefault(f["id"], set()).add(i + 1)
            return
        what = m
        if m in SORT and hot == [0]:
            x = self.base(args[0][0])[0]
            st.discard(x)
            for l, (bb, _) in self.alias.items():
                if bb == x:
                    st.discard(l)
            self.note(fn, t, what, OK, "sorted")
            fd = self.field_of(fn, args[0][0])
            return
        if m == "next" or m == "next_back":
            head = innermost(loops, b)
            if head is None:
                self.note(fn, t, what, BAD, "takes the element that comes first in hash order")
            else:
                self.loop(fn, t, b, dest, loops[head], st)
            return
        if m in ("extend", "append") and 0 not in hot and (1 in hot or 1 in eats):
            if SETLIKE.match(tys[0]):
                self.note(fn, t, what, OK, "added to a set or map")
            elif SEQLIKE.match(tys[0]):
                self.note(fn, t, what, OK, "a sequence in hash order")
                self.push(fn, st, args[0])
            else:
                self.note(fn, t, what, UNK, "extends %s" % tys[0][:60])
            self.closures(fn, t, tys)
            return
        if m in ("collect", "from_iter", "into_sorted_vec", "partition", "unzip", "collect_into", "try_collect"):
            inner = dty
            for w in ("std::result::Result<", "std::option::Option<"):
                if inner.startswith(w):
                    inner = inner[len(w):]
            if SETLIKE.match(inner):
                v = OK
                if args[0] and args[0][0] in st and carries(tys[0]):
                    pass
                if self.carrier(fn, t, tys, f):
                    self.taint(fn, st, dest)
                    self.note(fn, t, what, OK, "a map of sequences in hash order")
                else:
                    self.note(fn, t, what, OK, "collected into a set or map")
            elif m != "into_sorted_vec":
                self.note(fn, t, what, OK, "a sequence in hash order")
                self.taint(fn, st, dest)
            self.closures(fn, t, tys)
            return
        if m in ("push", "push_back", "insert", "push_front") and 0 in hot and len(hot) == 1:
            return                                        # more elements for a sequence that is unordered anyway
        if m in PUSH | {"insert"} and 0 not in hot:       # an unordered sequence becomes an element
            if SETLIKE.match(tys[0]) and (hot != [1] or not carries(tys[1])):
                self.push(fn, st, args[0])
            elif m in ("push_str", "write_str", "write_fmt", "add_assign"):
                self.note(fn, t, what, BAD, "text in hash order")
            else:
                self.push(fn, st, args[0])
            return
        if m in ("index", "get", "get_mut", "index_mut") and 0 in hot:
            if SETLIKE.match(tys[0]):
                self.taint(fn, st, dest)
            elif not re.search(r"Vec<std::vec::Vec|Vec<std::string", tys[0]):
                rng = "Range" in "".join(tys[1:])
                self.note(fn, t, what, BAD, "an element is taken by its position in hash order")
            else:
                self.taint(fn, st, dest)
            return
        if m in ("pop", "pop_front", "pop_back", "swap_remove", "remove") and 0 in hot and not SETLIKE.match(tys[0]):
            self.note(fn, t, what, BAD, "an element is taken by its position in hash order")
            return
        if m in ORDERED:
            if m == "zip" and 0 not in hot and not hot:
                pass
            self.note(fn, t, what, BAD, "%s lets the hash order through" % m)
            return
        if re.search(r"fmt::rt::Argument|new_debug|new_display", cname(f)) and hot:
            self.note(fn, t, what, BAD, "printed in hash order")
            return
        if m in COMMUTE:
            self.note(fn, t, what, OK, "does not depend on the order")
            self.closures(fn, t, tys)
            return
        if m in ("fold", "try_fold", "reduce", "rfold"):
            self.note(fn, t, what, BAD if SEQLIKE.match(dty) else UNK, "folded in hash order")
            return
        if m in ("find", "find_map", "position", "rposition", "min_by_key", "max_by_key", "min_by", "max_by"):
            blind = self.blind(fn, m, tys)
            self.note(fn, t, what, BAD if blind else UNK, "%s: %s" % (m, blind or "which element is chosen may depend on the order"))
            return
        if m in ADAPT or hashit(dty) or dty.startswith("std::iter::"):
            self.closures(fn, t, tys)
            if dest and not scalar(dty) and (not hashit(dty) or any(args[i] and args[i][0] in st for i in hot)):
                if dty != "()":
                    self.taint(fn, st, dest)
            return
        self.note(fn, t, what, UNK, "%s is not known" % cname(f)[:80])

    def push(self, fn, st, p):
        """The object behind a &mut argument becomes an unordered sequence."""
        fd = self.field_of(fn, p[0])
        fs = [e for e in p[1] if isinstance(e, dict) and "f" in e]
        if fd:
            self.fields.add(fd)
        elif fs:
            self.fields.add((fs[-1]["f"], str(fs[-1].get("t"))))
        st.add(self.base(p[0])[0])

    def carrier(self, fn, t, tys, f):
        """The elements of a collected iterator hold unordered sequences: a closure of the chain returns one."""
        for c in closures_in(tys[0] if tys else "", self.prog):
            if c["id"] in self.rets:
                return True
        return False

    def blind(self, fn, m, tys):
        """Why the choice among the elements cannot be a function of what tells the elements apart (the key of a map's entries):
        elements that tie are told apart only by the hash order."""
        if m in ("position", "rposition"):
            return "a position in hash order"
        g = HASHIT.search(tys[0])
        if not g or g.group(1) not in ("hash_map", "hash::map"):
            return None
        if g.group(2) in ("Values", "ValuesMut", "IntoValues"):
            return "chosen by a value, which several entries may share"
        if g.group(2) in ("Keys", "IntoKeys") or m in ("min_by", "max_by"):
            return None
        found = [c for y in tys[1:] for c in closures_in(y, self.prog)]
        if not found:
            return None
        for c in found:
            if reads_key(c, c["nargs"]):
                return None
        return "chosen by the value of the entry alone, which several entries may share"

    def closures(self, fn, t, tys):
        """Effects of the closures an unordered iterator runs, in hash order."""
        for y in tys:
            for c in closures_in(y, self.prog):
                self.body(c, set(range(len(c["blocks"]))), set(range(2, c["nargs"] + 1)), lambda l: l == 1, t, fn)

    # ------------------------------------------------------------------ loops
    def loop(self, fn, t, b, dest, body, st):
        inside = set(body)
        used = set()
        for i in live(fn):
            bl = fn["blocks"][i]
            if i not in inside:
                for s in bl["s"]:
                    graph.reads(s, used)
                    if "p" in s:
                        used.add(s["p"][0])
                graph.reads(bl["t"], used)
                if bl["t"].get("dest"):
                    used.add(bl["t"]["dest"][0])
                if bl["t"]["k"] == "drop" and bl["t"].get("p"):
                    pass
        outer = lambda l: l in used or 1 <= l <= fn["nargs"]
        self.body(fn, inside, {dest[0]}, outer, t, fn, st, b)

    def body(self, fn, inside, elems, outer, at, site, st=None, nextblock=None):
        """Effects of code that runs once per element, in hash order."""
        blocks = fn["blocks"]
        if fn is not site:
            save = self.alias
            self.alias = self.aliases(fn)
        try:
            elem = self.spread(fn, inside, set(elems))
            what = "loop" if nextblock is not None else "closure"
            bad = False
            for i in sorted(inside):
                for s in blocks[i]["s"]:
                    self.write(fn, s, elem, outer, at, site, what, inside, i)
                t = blocks[i]["t"]
                if t["k"] == "call" and i != nextblock and graph.callee(t):
                    self.call_effect(fn, t, elem, outer, at, site, what, st, inside)
            if nextblock is not None:
                self.exits(fn, inside, elem, at, site, nextblock)
            self.note(site, at, what, OK, "the effects of the body commute")
        finally:
            if fn is not site:
                self.alias = save

    def spread(self, fn, inside, elem):
        """Locals that depend on the current element."""
        changed = True
        while changed:
            changed = False
            for i in inside:
                for s in fn["blocks"][i]["s"]:
                    if "p" in s and s["p"][0] not in elem:
                        if graph.reads(s.get("r"), set()) & elem and not (isinstance(s.get("r"), dict) and s["r"].get("agg") == "closure"):
                            if not s["p"][1]:
                                elem.add(s["p"][0])
                                changed = True
                t = fn["blocks"][i]["t"]
                if t["k"] == "call" and t.get("dest") and not t["dest"][1] and t["dest"][0] not in elem:
                    rs = set()
                    for a in t["args"]:
                        graph.reads(a, rs)
                    if rs & elem:
                        elem.add(t["dest"][0])
                        changed = True
        return elem

    def target(self, fn, p, outer):
        """(base local, keyed) when a place lies in an object that outlives one pass."""
        l, keyed = self.base(p[0])
        if "*" not in p[1] and p[0] == l:
            return (l, False) if outer(l) else None
        return (l, keyed) if outer(l) else None

    def write(self, fn, s, elem, outer, at, site, what, inside, blk):
        if "p" not in s or "r" not in s:
            return
        p, r = s["p"], s["r"]
        tg = self.target(fn, p, outer)
        if tg is None or (p[0] == 0 and not p[1] and what == "closure"):
            return
        if isinstance(r, dict) and ("ref" in r):
            return
        rs = graph.reads(r, set())
        if not (rs & elem):
            return                                           # a constant, or a counter
        if tg[1] or any(isinstance(e, dict) and isinstance(e.get("i"), int) and e["i"] in elem for e in p[1]):
            return                                           # a place of its own per element
        if not p[1] and p[0] in elem and str(fn["locals"][p[0]]).startswith(("&", "std::option", "std::ops")):
            if p[0] != 0 and not self.read_outside(fn, inside, p[0]):
                return
        if isinstance(r, dict) and r.get("bin") in ("Add", "AddWithOverflow", "AddUnchecked", "Mul", "MulWithOverflow", "BitOr", "BitAnd", "BitXor"):
            return
        if not self.read_outside(fn, inside, p[0]) and "*" not in p[1]:
            return
        v = BAD if dominates_latch(fn, inside, blk) else UNK
        self.note(site, at, what, v, "%s: the value left behind is that of the element that comes last in hash order" % where(fn, s.get("l")))

    def read_outside(self, fn, inside, l):
        if l == 0:
            return True
        for i in live(fn):
            bl = fn["blocks"][i]
            if i in inside:
                continue
            rs = set()
            for s in bl["s"]:
                graph.reads(s.get("r"), rs)
            graph.reads(bl["t"], rs)
            if bl["t"]["k"] in ("drop", "goto", "return"):
                rs -= {l} if bl["t"]["k"] == "drop" else set()
            if l in rs:
                return True
        return False

    def call_effect(self, fn, t, elem, outer, at, site, what, st, inside):
        f = t["f"]
        m = meth(f)
        args = [graph.operand_place(a) for a in t["args"]]
        rs = set()
        for a in t["args"]:
            graph.reads(a, rs)
        muts = []
        for i, p in enumerate(args):
            if p and self.ty(fn, p).startswith("&mut") or p and str(fn["locals"][p[0]]).startswith("&mut"):
                l, keyed = self.base(p[0])
                if outer(l):
                    muts.append((i, p, l, keyed))
        if not muts:
            return
        for i, p, l, keyed in muts:
            y = self.ty(fn, p)
            obj = y[5:] if y.startswith("&mut ") else y
            if keyed:
                continue
            if HASHIT.search(y):
                continue
            if m in ("deref_mut", "index_mut", "entry", "get_mut", "as_mut", "borrow_mut", "or_default", "or_insert", "or_insert_with", "iter_mut", "reserve", "by_ref", "as_mut_slice", "get_or_insert_with"):
                continue
            if f.get("id") in self.prog.fns:
                if rs & elem or True:
                    if self.numbers(f["id"]):
                        self.note(site, at, what, BAD, "%s: %s is called once per element in hash order and appends to a sequence" % (where(fn, t.get("l")), meth(f)))
                    elif self.mutates(f["id"]):
                        self.note(site, at, what, UNK, "%s: %s changes state in hash order" % (where(fn, t.get("l")), meth(f)))
                continue
            if SETLIKE.match(obj):
                if m in ("insert", "remove", "extend", "push", "append", "take", "replace", "clear", "retain"):
                    if m == "insert" and "Map<" in obj.split(">")[0] + ">" and len(args) > 2:
                        k = graph.reads(t["args"][1], set())
                        if not (k & elem) and graph.reads(t["args"][2], set()) & elem:
                            self.note(site, at, what, BAD, "%s: the last element in hash order wins" % where(fn, t.get("l")))
                    continue
            if m in PUSH or m == "extend" or m == "insert" and SEQLIKE.match(obj):
                if not (rs & elem) and m != "write_fmt":
                    continue
                if "fmt::Formatter" in obj:
                    self.note(site, at, what, BAD, "%s: text in hash order" % where(fn, t.get("l")))
                elif st is not None:
                    self.push(fn, st, p)
                elif fn is not site:
                    self.upvar(fn, p, site, at, what)
                continue
            self.note(site, at, what, UNK, "%s: %s in hash order" % (where(fn, t.get("l")), cname(f)[:60]))

    def upvar(self, c, p, site, at, what):
        """A closure that runs once per element appends to a captured sequence."""
        self.note(site, at, what, UNK, "%s: a captured sequence is filled in hash order" % where(c))

    def numbers(self, fid, seen=None):
        """The function appends to a sequence behind one of its mutable arguments."""
        if fid in self.nums:
            return self.nums[fid]
        self.nums[fid] = False
        fn = self.prog.fns[fid]
        res = False
        save = getattr(self, "alias", None)
        self.alias = self.aliases(fn)
        for b in fn["blocks"]:
            t = b["t"]
            f = graph.callee(t)
            if not f or not t["args"]:
                continue
            p = graph.operand_place(t["args"][0])
            if not p or not str(fn["locals"][p[0]]).startswith("&mut"):
                continue
            l = self.base(p[0])[0]
            if not 1 <= l <= fn["nargs"]:
                continue
            y = self.ty(fn, p)
            if meth(f) in PUSH | {"insert", "extend"} and SEQLIKE.match(y.replace("&mut ", "")):
                res = True
            elif f.get("id") in self.prog.fns and self.numbers(f["id"]):
                res = True
        self.alias = save
        self.nums[fid] = res
        return res

    def mutates(self, fid):
        fn = self.prog.fns[fid]
        for i in range(1, fn["nargs"] + 1):
            if str(fn["locals"][i]).startswith("&mut"):
                return True
        return False

    def exits(self, fn, inside, elem, at, site, nextblock):
        """Leaving the loop early with something that depends on the element."""
        blocks = fn["blocks"]
        sw = blocks[nextblock]["t"]["to"]
        for i in sorted(inside):
            if i == sw:
                continue
            for s in successors(blocks[i]["t"]):
                if s in inside:
                    continue
                # follow the way out: what does it carry?
                seen, work = set(), [s]
                carried = None
                while work and carried is None:
                    x = work.pop()
                    if x in seen or len(seen) > 12:
                        continue
                    seen.add(x)
                    for st in blocks[x]["s"]:
                        if "p" in st and graph.reads(st.get("r"), set()) & elem:
                            carried = st
                            break
                    t = blocks[x]["t"]
                    if t["k"] == "call" and carried is None:
                        if t.get("to") is None:
                            continue                          # a panic
                        rs = set()
                        for a in t["args"]:
                            graph.reads(a, rs)
                        if rs & elem:
                            carried = t
                    work += successors(t)
                if carried is not None:
                    self.note(site, at, "loop", BAD, "%s: the loop ends with the element that comes first in hash order" % where(fn, carried.get("l")))


def live(fn):
    """Blocks reached without unwinding."""
    if "_live" not in fn:
        seen, work = set(), [0]
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += successors(fn["blocks"][x]["t"])
        fn["_live"] = sorted(seen)
    return fn["_live"]


def ops_of(r):
    if "ops" in r:
        return r["ops"]
    out = []
    for k in ("op", "o", "a", "cast"):
        if isinstance(r.get(k), dict):
            out.append(r[k])
    for v in r.values():
        if isinstance(v, dict) and ("mv" in v or "cp" in v):
            out.append(v)
    return out


def scalar(t):
    return t in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "bool", "char", "()", "f32", "f64")


def carries(t):
    return False


def place_of(r):
    """The place an operand, a copy or a borrow is about."""
    if not isinstance(r, dict):
        return None
    for k in ("cp", "mv", "ref"):
        if isinstance(r.get(k), list):
            return r[k]
    return place_of(r["use"]) if isinstance(r.get("use"), dict) else None


def reads_key(c, arg):
    """Whether a closure over map entries can look at the key: it uses field 0 of its argument, or lets the whole argument go."""
    hold = {arg}
    changed = True
    while changed:
        changed = False
        for b in c["blocks"]:
            for s in b["s"]:
                r = s.get("r") or {}
                src = place_of(r)
                if src is None:
                    if graph.reads(r, set()) & hold:
                        return True
                    continue
                if src[0] not in hold:
                    continue
                fs = [e["f"] for e in src[1] if isinstance(e, dict) and "f" in e]
                if fs:
                    if fs[0] == 0:
                        return True
                    continue
                if s["p"][0] not in hold:
                    hold.add(s["p"][0])
                    changed = True
            u = set()
            graph.reads(b["t"], u)
            if b["t"]["k"] == "call" and u & hold:
                for a in b["t"].get("args", ()):
                    p = place_of(a)
                    if p and p[0] in hold and not any(isinstance(e, dict) and "f" in e for e in p[1]):
                        return True
    return False


def closures_in(ty, prog):
    out = []
    for m in re.finditer(r"closure:((?:[^<>,()]|<[^<>]*>)+)", ty):
        for c in prog.by_def.get(m.group(1).strip(), ()):
            out.append(c)
    return out


def innermost(loops, b):
    best = None
    for h, body in loops.items():
        if b in body and (best is None or len(body) < len(loops[best])):
            best = h
    return best


def dominates_latch(fn, inside, blk):
    """Every pass through the loop goes through the block."""
    heads = [h for h, body in loops_of(fn).items() if set(body) == set(inside)]
    if not heads:
        return set(inside) == set(range(len(fn["blocks"]))) and blk == 0
    h = heads[0]
    # is the head reachable from itself without the block?
    seen, work = set(), [s for s in successors(fn["blocks"][h]["t"]) if s in inside and h != blk]
    while work:
        x = work.pop()
        if x == h:
            return False
        if x in seen or x == blk or x not in inside:
            continue
        seen.add(x)
        work += successors(fn["blocks"][x]["t"])
    return True


def analyse(prog):
    if not hasattr(prog, "_order"):
        prog._order = Order(prog)
    return prog._order


def site_ok(prog, fn, bi):
    """For a call that starts iterating over a hash collection: may its order be seen?  True, (False, why) or (None, why)."""
    o = analyse(prog)
    xs = [v for k, v in o.obs.items() if k[0] == fn["id"]]
    if not xs:
        return (None, "no use of the iterator was found")
    v = max(xs, key=lambda x: RANK[x[0]])
    return True if v[0] == OK else (False if v[0] == BAD else None, v[1])


# ------------------------------------------------------------------------------------------------- C21
OUTPUT = re.compile(r"^std::fs::(write|copy|create_dir|create_dir_all|remove_file|rename|read|read_to_string|exists)\b|^std::fs::File::(create|open)|^std::io::(_print|_eprint|Write|Read|stdout|stderr|BufWriter|BufReader)"
                    r"|as std::io::(Write|Read)>::|^std::process::(Command|exit|ExitStatus|Output|Stdio)|^<std::process::ExitCode|^std::path::")
KNOWN = re.compile(r"^<?(automata|typed_arena|regex|itertools|once_cell|lazy_static|quote|proc_macro2|syn|miniregex)::")
PTRORD = re.compile(r"^<\*(const|mut) .* as std::cmp::(Partial)?Ord>::|^core::ptr::(const_ptr|mut_ptr)::.*Ord|ptr::NonNull<.*> as std::cmp::(Partial)?Ord>")


def hashy(prog, ty, seen=None):
    """The type's Debug output lists a hash collection."""
    seen = seen if seen is not None else set()
    if re.search(r"collections::Hash(Map|Set)<", ty):
        return True
    for n, a in prog.adts.items():
        if n in ty and n not in seen:
            seen.add(n)
            if any(hashy(prog, str(t), seen) for v in a["variants"] for t in v.get("ftys", ())):
                return True
    return False


def sink_after(fn, b):
    """What the formatted arguments made in block b end in: 'text', 'message', or None."""
    seen, work = set(), [b]
    while work:
        x = work.pop(0)
        if x in seen or len(seen) > 40:
            continue
        seen.add(x)
        t = fn["blocks"][x]["t"]
        f = graph.callee(t)
        if f and x != b:
            n = cname(f)
            if re.search(r"panic|_eprint|_print$|unwrap_failed|assert_failed", n):
                return "message"
            if re.search(r"fmt::format$|write_fmt|format_inner|to_string$", n):
                return "text"
        work += successors(t)
    return None


def report(chk, prog, roots, prefix):
    from . import effects
    fs = set()
    for r in roots:
        fs |= graph.reachable(prog, [r])
    fs |= graph.reachable(prog, [k for k in effects.impl_fns(prog) if "std::fmt::Debug>" not in prog.fns[k]["def"]])
    # closures of generic library calls are reached through the types mentioned; take everything written in a reached function
    fs |= {k for k, f in prog.fns.items() if "{closure" in f["def"] and any(prog.fns[x]["def"] == f["def"].split("::{closure")[0] for x in fs)}
    o = analyse(prog)
    chk.count("functions", len(fs))
    n = 0
    for k in sorted(fs):
        fn = prog.fns[k]
        bad, unk = [], []
        for _, bi, t, f in effects.calls(prog, [k]):
            nm = cname(f)
            n += 1
            if f.get("id") in prog.fns or prog.by_def.get(f.get("res")):
                continue
            if f.get("def") == "<indirect>" or OUTPUT.search(nm) or KNOWN.search(nm):
                continue
            if PTRORD.search(nm):
                bad.append((t, "%s: orders by address" % nm))
                continue
            if "new_debug" in nm:
                if hashy(prog, f.get("inst") or "") and sink_after(fn, bi) == "text":
                    bad.append((t, "a hash collection is written out in hash order"))
                continue
            c = effects.classify(f)
            if c == "once":
                continue
            if c == "iterates over a hash collection":
                continue                                  # decided by the order obligations
            if c == "hash":
                if "hash_one" in nm or "RandomState as" in nm and "build_hasher" in nm:
                    bad.append((t, "%s: hashes with a random key" % nm))
                continue
            if c is None:
                unk.append((t, "%s is not classified" % nm))
            elif c:
                bad.append((t, "%s: %s" % (nm, c)))
        for fn2, s in effects.casts(prog, [k]):
            bad.append((s, "turns an address into a number"))
        for b in fn["blocks"]:
            for s in b["s"]:
                r = s.get("r")
                if isinstance(r, dict) and r.get("bin") in ("Lt", "Le", "Gt", "Ge", "Cmp") and any(
                        str(fn["locals"][x]).startswith("*") for x in graph.reads(r, set())):
                    bad.append((s, "compares addresses"))
        oid = prefix + "effects:" + fn["def"]
        at = lambda t: where(fn, t.get("l"))
        if bad:
            chk.refuted(oid, at(bad[0][0]), "; ".join(b for _, b in bad[:3]))
        elif unk:
            chk.undecided(oid, at(unk[0][0]), "; ".join(b for _, b in unk[:3]))
        else:
            chk.proved(oid, where(fn))
    chk.count("external_calls", n)
    used = set()
    for (fid, line, what), (v, d) in sorted(o.obs.items(), key=str):
        fn = prog.fns[fid]
        if fid not in fs:
            continue
        chk.count("hash_order_sites")
        oid = prefix + "order:%s:%s" % (fn["def"], what)
        k, n0 = oid, 1
        while k in used:
            n0 += 1
            k = "%s#%d" % (oid, n0)
        used.add(k)
        chk.decide(k, {OK: True, BAD: False, UNK: None}[v], where(fn, line), d)
        chk.sample({"site": where(fn, line), "use": what, "why": d})
    # every place that starts iterating has been followed to its use
    for k in sorted(fs):
        fn = prog.fns[k]
        for _, bi, t, f in effects.calls(prog, [k]):
            if f.get("id") not in prog.fns and effects.HASHCALL.search(cname(f)) and not any(x[0] == k for x in o.obs):
                chk.undecided(prefix + "order:%s" % fn["def"], where(fn, t.get("l")), "the iterator's use was not found")
