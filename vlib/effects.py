"""Effects of the functions reachable from an entry point: what of the outside world they read or write.

An external callee is classified by its resolved path; local functions are followed through direct calls, closures,
function items passed as values, drop glue and the trait impls of the crate (which generic library code may call)."""
import re
from . import graph
from .dump import where

IMPURE = [
    (r"^std::env::", "reads the process environment"),
    (r"^std::time::(Instant|SystemTime)\b", "reads the clock"),
    (r"^std::fs::|^std::os::|^std::path::Path::(exists|metadata|read_dir|canonicalize|is_file|is_dir|try_exists)", "uses the file system"),
    (r"^std::io::|^<?std::io::", "performs input or output"),
    (r"^std::net::", "uses the network"),
    (r"^std::process::(?!abort)", "uses processes"),
    (r"^std::thread::(?!local)", "uses threads"),
    (r"^std::thread::local", "uses thread-local state"),
    (r"^(std|core)::sync::atomic::", "uses atomic shared state"),
    (r"sync::(poison::)?(mutex|rwlock|condvar|barrier|mpsc|once)|^std::sync::(Mutex|RwLock|Condvar|Barrier|mpsc)", "uses shared mutable state"),
    (r"^std::random::|^rand(_core|_chacha)?::|^getrandom::|^fastrand::", "reads random numbers"),
    (r"RandomState as std::hash::BuildHasher|BuildHasher::(hash_one|build_hasher)|^std::hash::(random::)?RandomState::new$|DefaultHasher::new", "hash"),
    (r"ptr::.*::(addr|expose_provenance|expose_addr)$|^std::ptr::(addr_eq|hash|from_ref)$|as std::fmt::Pointer>::fmt|new_pointer", "depends on addresses"),
    (r"std::backtrace::|std::panic::(catch_unwind|set_hook|take_hook|update_hook)", "touches the panic machinery"),
]
IMPURE = [(re.compile(a), b) for a, b in IMPURE]
PURE = re.compile(r"^<?&?('\w+ )?(mut )?(std|core|alloc)::|^cstree::|^<cstree::|^regex(_automata|_syntax)?::|^<?regex::|^<?miniregex|^<[A-Z]\w* as (std|core|alloc)::|^<impl |^<\[|^<\(|^<&|^<[a-z0-9]+ as |^<fn|^<F as|^<dyn ")
ONCE = re.compile(r"^<?std::sync::(OnceLock|LazyLock)|^<?std::sync::(once_lock|lazy_lock)::|^core::cell::(once|lazy)")
HASHITER = re.compile(r"(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
HASHCALL = re.compile(r"^std::collections::Hash(Map|Set)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$"
                      r"|^<(&'?a? ?(mut )?)?std::collections::Hash(Map|Set)<.*as std::iter::IntoIterator>::into_iter$")
HASHFMT = re.compile(r"^<std::collections::Hash(Map|Set)<.* as std::fmt::Debug>::fmt$")


def name(f):
    return f.get("res") or f.get("def") or ""


def local(prog, f):
    return f.get("id") in prog.fns or bool(prog.by_def.get(f.get("res")))


def impl_fns(prog):
    """Functions of the crate's trait impls, which library code may call back."""
    return [k for k, fn in prog.fns.items() if re.match(r"^<|.*::<impl ", fn["def"]) and re.search(r"(as|impl) (std|core|alloc|cstree)::|^<.* as ", fn["def"])]


def closed(prog, roots):
    return graph.reachable(prog, list(roots) + impl_fns(prog))


def calls(prog, fids):
    for k in sorted(fids):
        fn = prog.fns[k]
        for bi, b in enumerate(fn["blocks"]):
            f = graph.callee(b["t"])
            if f:
                yield fn, bi, b["t"], f


def classify(f):
    """'' pure, a reason, or None unknown."""
    n = name(f)
    inst = f.get("inst") or ""
    for s in (n, f.get("def") or ""):
        if ONCE.search(s):
            return "once"
        for rx, why in IMPURE:
            if rx.search(s):
                return why
    if HASHCALL.search(n) or HASHFMT.search(n):
        return "iterates over a hash collection"
    if "new_debug" in n and re.search(r"collections::(hash::)?\w*(::)?Hash(Map|Set)", inst):
        return "prints a hash collection in hash order"
    if PURE.search(n) or PURE.search(f.get("def") or ""):
        return ""
    return None


def casts(prog, fids):
    """Casts that turn addresses into numbers."""
    for k in sorted(fids):
        fn = prog.fns[k]
        for b in fn["blocks"]:
            for s in b["s"]:
                r = s.get("r")
                if isinstance(r, dict) and "cast" in r and "Expose" in str(r["cast"]):
                    yield fn, s


def static_mentions(prog, fn, names):
    out = set()

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("static", "tls") and isinstance(v, str):
                    out.add(v)
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    for b in fn["blocks"]:
        go(b)
    return {n for n in names for o in out if o == n or o.endswith("::" + n) or n.endswith("::" + o)}


def spot(fn, t):
    return where(fn, t.get("l"))


# ------------------------------------------------------------------------------------------------- C13
def report_pure(chk, prog, prefix, entry="parse"):
    root = prog.one(prog.crate + "::" + entry)
    fs = closed(prog, [root["id"]])
    st = {s["name"]: s for s in prog.safety["statics"]}
    lazy = set()
    shared = {n for n, s in st.items() if s["mut"] or not s["freeze"] or s["tls"]}
    chk.count("functions", len(fs))
    if [t for t in root["locals"][1:1 + root["nargs"]] if t.replace("&", "").strip() != "str"]:
        chk.undecided(prefix + "entry", where(root), "the entry point takes more than the text")
    else:
        chk.proved(prefix + "entry", where(root), "the only argument is the text")
    for n in shared:  # initialisers of lazily filled statics run under parse
        fs |= closed(prog, [k for k, f in prog.fns.items() if ("::" + n + "::") in f["def"]])
    n = 0
    for k in sorted(fs):
        fn = prog.fns[k]
        bad, unk = [], []
        for _, bi, t, f in calls(prog, [k]):
            if t.get("to") is None and "panic" in name(f):
                continue
            if local(prog, f):
                continue
            n += 1
            if f.get("def") == "<indirect>":
                continue
            c = classify(f)
            if c == "once":
                c = once(prog, fn, t, f)
            elif c == "iterates over a hash collection":
                from . import order
                r = order.site_ok(prog, fn, bi)
                c = "" if r is True else (c + ": " + str(r[1])) if r[0] is False else None
            elif c == "hash":
                c = None if "new" in name(f) else "hashes with a random key"
            if c is None:
                unk.append((t, "%s is not classified" % name(f)))
            elif c:
                bad.append((t, "%s: %s" % (name(f), c)))
        for fn2, s in casts(prog, [k]):
            bad.append((s, "turns an address into a number"))
        for s in static_mentions(prog, fn, shared):
            ty = "the static %s is %s" % (s, "thread-local" if st[s]["tls"] else "mutable" if st[s]["mut"] else "interior-mutable")
            if not st[s]["mut"] and is_once(prog, s):
                continue
            bad.append(({"l": st[s]["line"]}, ty))
        if bad:
            chk.refuted(prefix + "effects:" + fn["def"], spot(fn, bad[0][0]), "; ".join(b for _, b in bad[:3]))
        elif unk:
            chk.undecided(prefix + "effects:" + fn["def"], spot(fn, unk[0][0]), "; ".join(b for _, b in unk[:3]))
        else:
            chk.proved(prefix + "effects:" + fn["def"], where(fn))
    chk.count("external_calls", n)
    chk.count("statics", len(st))


def is_once(prog, s):
    for n, v in prog.statics.items():
        if n == s or n.endswith("::" + s):
            return bool(re.match(r"^std::sync::(OnceLock|LazyLock|Once)\b|^std::sync::\w+::(OnceLock|LazyLock)", v["ty"]))
    return False


def once(prog, fn, t, f):
    """Write-once cells are harmless when what fills them cannot depend on the call."""
    n = name(f)
    if n.endswith("::set") or n.endswith("::get_or_init") or n.endswith("::get_mut_or_init"):
        for a in t["args"][1:]:
            if "c" in a:
                continue
            p = graph.operand_place(a)
            ty = fn["locals"][p[0]] if p and not p[1] else "?"
            caps = captures(fn, p)
            if n.endswith("::set") or caps is None or caps > 0:
                return "the first call decides what later calls see"
    return ""


def captures(fn, p):
    """Number of values a closure held in local p captures."""
    if not p:
        return None
    for b in fn["blocks"]:
        for s in b["s"]:
            if s.get("p") == [p[0], []] and isinstance(s.get("r"), dict):
                r = s["r"]
                if "agg" in r:
                    return len(r.get("ops", ()))
                if "use" in r:
                    o = r["use"]
                    if "c" in o:
                        return 0
                    return captures(fn, graph.operand_place(o))
    return None


# ------------------------------------------------------------------------------------------------- C14
def report_safe(chk, prog, prefix, kinds=None):
    sf = prog.safety
    seen = {}
    for u in sf["unsafe"]:
        if u["what"] == "impl" and "TrivialClone" in u["in"] and "Derive" in str(u["macro"]):
            continue  # the standard derive of Clone marks the type; it adds no unsafe operation
        seen.setdefault((u["what"], u["in"]), []).append(u)
    chk.count("unsafe_constructs", len(seen))
    conv = [f for f in prog.fns.values() if f["def"].endswith("as cstree::Syntax>::from_raw")]
    for (what, inn), us in sorted(seen.items()):
        at = "%s:%s (%s)" % (us[0]["file"], us[0]["line"], inn)
        oid = prefix + "unsafe:%s:%s" % (what, inn)
        if what == "block" and inn.endswith("as cstree::Syntax>::from_raw") and conv:
            checked_conversion(chk, prog, conv[0], oid, at)
        else:
            chk.refuted(oid, at, {"block": "unsafe block", "fn": "unsafe function", "impl": "unsafe impl"}[what] + " outside the checked kind conversion")
    if not seen:
        chk.proved(prefix + "unsafe", "", "no unsafe construct in the crate")
    else:
        chk.proved(prefix + "unsafe:elsewhere", "", "no unsafe construct outside the listed ones") if all(
            w == "block" and i.endswith("from_raw") for w, i in seen) else None
    for s in sf["statics"]:
        at = "%s:%s (%s)" % (s["file"], s["line"], s["name"])
        oid = prefix + "static:" + s["name"]
        if s["mut"]:
            chk.refuted(oid, at, "static mut")
        elif s["tls"]:
            chk.refuted(oid, at, "thread-local state outlives a call")
        elif not s["freeze"] and not is_once(prog, s["name"]):
            chk.refuted(oid, at, "the static can be changed through a shared reference")
        else:
            chk.proved(oid, at)
    # thread-local cells declared by thread_local! are constants holding a key
    for fn in prog.fns.values():
        for _, bi, t, f in calls(prog, [fn["id"]]):
            if re.search(r"thread::(local::)?LocalKey", name(f)):
                chk.refuted(prefix + "tls:" + fn["def"], spot(fn, t), "uses a thread-local cell")
    for r in sf["results"]:
        if not r["pub"]:
            continue
        at = "%s:%s (%s)" % (r["file"], r["line"], r["fn"])
        for tr in ("send", "sync"):
            oid = prefix + "%s:%s" % (tr, r["fn"])
            ok = r[tr]
            chk.decide(oid, ok, at, "the result type %s is %s%s" % (r["ty"], "" if ok else "not ", tr.capitalize()))


def checked_conversion(chk, prog, fn, oid, at):
    from .eng import Engine, mk
    ty = fn["locals"][0]
    a = prog.adt(ty.split("::")[-1])
    ds = sorted(int(v["discr"]) for v in a["variants"])
    n = len(ds)
    if ds != list(range(n)) or any(v["fields"] for v in a["variants"]):
        chk.refuted(oid, at, "the numbers of %s have gaps, so a range check does not make the conversion safe" % ty)
        return
    e = Engine(prog, panics=False)
    x = mk("sym", ("raw",), "u32")
    fs = e.run(fn, [("adt", fn["locals"][1], 0, (x,))])
    bad = []
    k = 0
    for f in fs:
        if f.status != "return":
            continue
        k += 1
        lo, hi = f.itv(x)
        if hi > n - 1 or lo < 0:
            bad.append((lo, hi))
    if bad:
        chk.refuted(oid, at, "a raw number up to %s is turned into one of %d kinds" % (bad[0][1], n))
    elif not k:
        chk.undecided(oid, at, "no returning path")
    else:
        chk.proved(oid, at, "%d returning paths, raw number always below %d" % (k, n))
