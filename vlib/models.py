"""Transfer functions of the standard-library operations this crate uses (and their usual alternatives)."""
import re
from .eng import (T, Arr, mk, adt, NONE, some, OPT, RES, CF, UNIT, S, slen, sslice, streq, cat, lift, ladd, lsub, lez, eqz,
                  lnot, cmp_int, Unmodelled, Arr, INT_RANGE, strip_ref, elem_type, generics, is_int)

MODELS = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def content(e, p, v):
    """Content term of a str/String value or of references to one."""
    for _ in range(6):
        if isinstance(v, tuple):
            if v[0] in ("str", "String"):
                return v[1]
            if v[0] == "ref":
                v = e.read(p, v)
                continue
            if v[0] == "vec" and v[1] is None and not v[2]:
                return S("")
        if isinstance(v, T):
            ty = v.ty
            if ty in ("str", "&str", "std::string::String"):
                return v
            if ty and ty.startswith("&"):
                v = e.read(p, v)
                continue
            return v
        break
    raise Unmodelled("string content of %r" % (v,))


def deep(e, p, v):
    """Follows references down to a non-reference value."""
    for _ in range(8):
        if isinstance(v, tuple) and v[0] == "ref":
            v = e.read(p, v)
        elif isinstance(v, T) and v.ty and v.ty.startswith("&"):
            v = e.read(p, v)
        else:
            return v
    return v


# ------------------------------------------------------------------ identities
@model("std::hint::must_use", "std::convert::identity")
def _ident(e, p, a, c):
    return c.finish(p, a[0])


@pat(r"IntoIterator>::into_iter$|^std::iter::IntoIterator::into_iter|::into_iter$")
def _into_iter(e, p, a, c):
    v = a[0]
    ty = e.otype(c.t["args"][0], c.fr.fn)
    if isinstance(v, tuple) and v[0] in ("it",):
        return c.finish(p, v)
    if isinstance(v, tuple) and v[0] == "adt" and v[1] == "std::ops::RangeInclusive" and v[3][2:] in ((), (0,)) and "char" not in (ty or "char"):
        return c.finish(p, ("adt", "std::ops::Range", 0, (v[3][0], ladd(v[3][1], 1))))
    if isinstance(v, tuple) and v[0] == "adt" and v[1].startswith("std::ops::Range"):
        return c.finish(p, v)
    if isinstance(v, tuple) and v[0] in ("vec",):
        return c.finish(p, ("it", "val", v, 0))
    if isinstance(v, Arr):
        return c.finish(p, ("it", "val", v, 0))
    if ty and ty.startswith("&"):
        return c.finish(p, ("it", "ref", v, 0))
    if isinstance(v, T) and ty and (ty.startswith("std::vec::Vec<") or ty.startswith("[")):
        return c.finish(p, ("it", "val", v, 0))
    return NotImplemented


# ------------------------------------------------------------------ strings
@model("core::str::<impl str>::len", "std::string::String::len")
def _len(e, p, a, c):
    return c.finish(p, slen(content(e, p, a[0])))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def _is_empty(e, p, a, c):
    return c.finish(p, eqz(slen(content(e, p, a[0]))))


@pat(r"^<str as std::string::ToString>::to_string|^<&str as std::string::ToString>|^<std::string::String as std::string::ToString>"
     r"|^<std::string::String as std::clone::Clone>::clone|^<std::string::String as std::convert::From<&str>>::from"
     r"|^<str as std::borrow::ToOwned>::to_owned|^<std::string::String as std::borrow::ToOwned>::to_owned|ToOwned for str>::to_owned|str>::to_string$|^std::str::<impl str>::into_string")
def _to_string(e, p, a, c):
    return c.finish(p, ("String", content(e, p, a[0])))


@pat(r"^<std::string::String as std::ops::Deref>::deref|^std::string::String::as_str$|^std::string::String::as_mut_str"
     r"|<std::string::String as std::convert::AsRef<str>>::as_ref|<str as std::convert::AsRef<str>>::as_ref"
     r"|<std::string::String as std::borrow::Borrow<str>>::borrow")
def _as_str(e, p, a, c):
    return c.finish(p, ("str", content(e, p, a[0])))


@model("core::str::<impl str>::as_bytes", "std::string::String::as_bytes")
def _as_bytes(e, p, a, c):
    return c.finish(p, ("bytes", content(e, p, a[0])))


@pat(r"PartialEq(<[^>]*>)? for (&)*(str|std::string::String)>::(eq|ne)$|^<(&)*(std::string::String|str) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$"
     r"|PartialEq<&?(str|std::string::String)> for &*(std::string::String|str)>::(eq|ne)$")
def _streq(e, p, a, c):
    r = streq(content(e, p, a[0]), content(e, p, a[1]))
    if (c.f.get("inst") or c.f["res"]).endswith("::ne"):
        r = lnot(r)
    return c.finish(p, r)


@pat(r"Ord for u(8|16|32|64|size)>::|PartialEq for &*(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char|bool)>::(eq|ne)$"
     r"|PartialOrd for &*(u8|u16|u32|u64|usize|i16|i32|i64|isize|char)>::(lt|le|gt|ge)$")
def _intcmp(e, p, a, c):
    n = (c.f.get("inst") or c.f["res"]).split("::")[-1]
    m = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(n)
    if m is None:
        return NotImplemented
    return c.finish(p, cmp_int(m, p.norm(deep(e, p, a[0])), p.norm(deep(e, p, a[1]))))


@model("std::cmp::PartialEq::ne", "std::cmp::PartialEq::eq")
def _enum_eq(e, p, a, c):
    """Derived comparison of fieldless enumerations."""
    d = []
    for x in a:
        x = deep(e, p, x)
        if isinstance(x, T):
            ty = x.ty
            if x.op == "call" and str(x.args[0]).endswith("::from_raw"):
                ty = "SyntaxKind"
            if ty is None:
                return NotImplemented
        elif isinstance(x, tuple) and x[0] == "adt":
            ty = x[1]
        else:
            return NotImplemented
        ad = [v for k, v in e.prog.adts.items() if k == ty or (ty == "SyntaxKind" and k.endswith("::SyntaxKind"))]
        if len(ad) != 1 or any(v["fields"] for v in ad[0]["variants"]):
            return NotImplemented
        d.append(e.discr(p, x))
    r = cmp_int("Eq", d[0], d[1])
    if (c.f.get("inst") or c.f["res"]).endswith("::ne"):
        r = lnot(r)
    return c.finish(p, r)


@pat(r"Ord for &*(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char)>::(cmp|partial_cmp)$|^<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char) as std::cmp::(Partial)?Ord>::(cmp|partial_cmp)$")
def _ordcmp(e, p, a, c):
    x, y = p.norm(deep(e, p, a[0])), p.norm(deep(e, p, a[1]))
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    wrap = some if (c.f.get("inst") or c.f["res"]).endswith("partial_cmp") else (lambda v: v)
    o = lambda k: wrap(adt("std::cmp::Ordering", k))
    return c.split(p, lez(lsub(x, y)),
                   lambda q: c.split(q, lez(lsub(y, x)), lambda r: c.finish(r, o(1)), lambda r: c.finish(r, o(0))),
                   lambda q: c.finish(q, o(2)))


@pat(r"core::slice::<impl \[(&*(str|std::string::String)|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char)\]>::contains$")
def _slice_contains(e, p, a, c):
    """Membership in a known list: one comparison after the other."""
    v = deep(e, p, a[0])
    if isinstance(v, Arr):
        items = v.v
    elif isinstance(v, tuple) and v[0] == "vec" and v[1] is None and not v[3]:
        items = v[2]
    else:
        return NotImplemented
    if len(items) > 40:
        return NotImplemented
    text = re.search(r"\[&*(str|std::string::String)\]", c.f.get("inst") or c.f["res"])
    out, q = [], p
    for it in items:
        if text:
            b = streq(content(e, q, it), content(e, q, a[1]))
        else:
            b = cmp_int("Eq", q.norm(deep(e, q, it)), q.norm(deep(e, q, a[1])))
        r = q.truth(b)
        if r != 0:
            h = q.fork()
            if h.assume(b, 1):
                out += c.finish(h, 1)
            if r == 1 or not q.assume(b, 0):
                return out
    return out + c.finish(q, 0)


@pat(r"(Ord for \w+>|Ord)::max$")
def _max(e, p, a, c):
    x, y = a
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    return c.split(p, lez(lsub(y, x)), lambda q: c.finish(q, x), lambda q: c.finish(q, y))


@pat(r"(Ord for \w+>|Ord)::min$")
def _min(e, p, a, c):
    x, y = a
    if not (is_int(x) and is_int(y)):
        return NotImplemented
    return c.split(p, lez(lsub(x, y)), lambda q: c.finish(q, x), lambda q: c.finish(q, y))


@pat(r"impl u\w+>::saturating_sub$")
def _satsub(e, p, a, c):
    x, y = a
    return c.split(p, lez(lsub(y, x)), lambda q: c.finish(q, lsub(x, y)), lambda q: c.finish(q, 0))


@pat(r"(TryFrom<\w+> for \w+>::try_from|TryInto<\w+>( for \w+)?>::try_into)$")
def _tryint(e, p, a, c):
    n = c.f.get("inst") or c.f["res"]
    m = re.search(r"TryFrom<\w+> for (\w+)>::try_from$|TryInto<(\w+)>", n)
    ty = m.group(1) or m.group(2)
    if ty not in INT_RANGE or not is_int(a[0]):
        return NotImplemented
    x = a[0]
    lo, hi = INT_RANGE[ty]
    ok = lambda q: c.finish(q, adt("std::result::Result", 0, x))
    no = lambda q: c.finish(q, adt("std::result::Result", 1, adt("std::num::TryFromIntError", 0, ("tup", ()))))
    return c.split(p, lez(lsub(lo, x)), lambda q: c.split(q, lez(lsub(x, hi)), ok, no), no)


@pat(r"impl \w+>::checked_(add|sub)$")
def _checked(e, p, a, c):
    n = (c.f.get("inst") or c.f["res"])
    ty = e.otype(c.t["args"][0], c.fr.fn)
    v = ladd(a[0], a[1]) if n.endswith("add") else lsub(a[0], a[1])
    lo, hi = INT_RANGE[ty]
    bad = lez(ladd(lsub(v, lo), 1)) if n.endswith("sub") else lez(ladd(lsub(hi, v), 1))
    return c.split(p, bad, lambda q: c.finish(q, NONE), lambda q: c.finish(q, some(v)))


def _slice_common(e, p, s, lo, hi, c, mkv):
    """s[lo..hi] with its panic conditions: order, bounds, character boundary (reported as an obligation)."""
    out = []
    n = e.seqlen(p, ("str", s)) if mkv == "str" else e.seqlen(p, s)
    conds = [lez(lsub(lo, hi)), lez(lsub(hi, n))]
    for cond in conds:
        r = p.truth(cond)
        if r == 0:
            return out + [c.panic(p, "slice bounds")]
        if r is None:
            if e.panics:
                q = p.fork()
                if q.assume(cond, 0):
                    out.append(c.panic(q, "slice bounds"))
            if not p.assume(cond, 1):
                return out
    if mkv == "str":
        if e.panics:
            for x in (lo, hi):
                x = p.norm(x)
                if x == 0 or x == n:
                    continue
                b = boundary(e, p, s, x)
                r = p.truth(b)
                if r == 0:
                    return out + [c.panic(p, "char boundary")]
                if r is None:
                    q = p.fork()
                    if q.assume(b, 0):
                        out.append(c.panic(q, "char boundary"))
                    if not p.assume(b, 1):
                        return out
        v = ("str", sslice(s, lo, hi))
    else:
        v = ("sub", s, lo, hi) if not (lo == 0 and hi == n) else s
    return out + c.finish(p, v)


def boundary(e, p, s, x):
    """Boolean term: is x a character boundary of s?"""
    if isinstance(s, tuple) and s[0] == "s":
        if isinstance(x, int):
            b = s[1].encode()
            return 1 if 0 <= x <= len(b) and (x == len(b) or (b[x] & 0xC0) != 0x80) else 0
    if x == 0 or x == slen(s):
        return 1
    if isinstance(s, T) and s.op == "slice":
        return boundary(e, p, s.args[0], ladd(s.args[1], x))
    if isinstance(s, T) and s.op == "lower":
        return boundary(e, p, s.args[0], x)
    return mk("bound", (s, x), "bool")


@pat(r"Index(Mut)?<std::ops::(Range|RangeFrom|RangeTo|RangeFull|RangeInclusive|RangeToInclusive)(<usize>)?>( for (str|\[.*\])>|>)::index(_mut)?$")
def _index_range(e, p, a, c):
    inst = c.f.get("inst") or c.f["res"]
    r = a[1]
    base = a[0]
    isstr = "for str>" in inst or "<std::string::String as" in inst or "<str as" in inst
    if isstr:
        s = content(e, p, base)
        n = slen(s)
    else:
        s = base
        v = deep(e, p, base)
        n = e.seqlen(p, v)
    if not (isinstance(r, tuple) and r[0] == "adt"):
        raise Unmodelled("range %r" % (r,))
    k = r[1].split("::")[-1]
    fs = [p.norm(x) for x in r[3]]
    if k == "Range":
        lo, hi = fs
    elif k == "RangeFrom":
        lo, hi = fs[0], n
    elif k == "RangeTo":
        lo, hi = 0, fs[0]
    elif k == "RangeFull":
        lo, hi = 0, n
    elif k == "RangeInclusive":
        lo, hi = fs[0], ladd(fs[1], 1)
    elif k == "RangeToInclusive":
        lo, hi = 0, ladd(fs[0], 1)
    else:
        return NotImplemented
    return _slice_common(e, p, s, lo, hi, c, "str" if isstr else "seq")


@pat(r"^core::str::<impl str>::get::<std::ops::Range")
def _str_get(e, p, a, c):
    return NotImplemented


@pat(r"<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$|Index(Mut)?<usize> for \[.*\]>::index(_mut)?$|VecDeque<.*Index(Mut)?<usize>>::index(_mut)?$")
def _vec_index(e, p, a, c):
    v = deep_ref(e, p, a[0])
    idx = p.norm(a[1])
    n = e.seqlen(p, e.read(p, v) if isinstance(v, tuple) and v[0] == "ref" else v)
    cond = lez(ladd(lsub(idx, n), 1))
    out = []
    r = p.truth(cond)
    if r == 0:
        return [c.panic(p, "index")]
    if r is None:
        if e.panics:
            q = p.fork()
            if q.assume(cond, 0):
                out.append(c.panic(q, "index"))
        if not p.assume(cond, 1):
            return out
    return out + c.finish(p, elem_ref(e, p, v, idx))


def deep_ref(e, p, v):
    """The innermost reference to a sequence (references to references are followed)."""
    for _ in range(8):
        if isinstance(v, tuple) and v[0] == "ref":
            x = e.read(p, v)
            if isinstance(x, tuple) and x[0] in ("ref", "sub", "bytes", "str"):
                v = x
                continue
            if isinstance(x, T) and x.ty and x.ty.startswith("&"):
                v = x
                continue
            return v
        return v
    return v


def elem_ref(e, p, v, idx):
    """A reference to element idx of the sequence v refers to."""
    idx = p.norm(idx)
    if isinstance(v, tuple) and v[0] == "ref":
        return ("ref", v[1], v[2] + (("i", idx),))
    if isinstance(v, tuple) and v[0] == "sub":
        return elem_ref(e, p, v[1], ladd(v[2], idx))
    if isinstance(v, T):
        return ("ref", ("deref", v), (("i", idx),))
    if isinstance(v, tuple) and v[0] == "bytes":
        return ("ref", ("strval", v), (("i", idx),))
    raise Unmodelled("element of %r" % (v,))


@pat(r"^std::string::String::new$")
def _s_new(e, p, a, c):
    return c.finish(p, ("String", S("")))


@pat(r"^std::string::String::clear$")
def _s_clear(e, p, a, c):
    e.write(p, a[0], ("String", S("")))
    return c.finish(p, UNIT)


@pat(r"^std::string::String::push$")
def _s_push(e, p, a, c):
    s = content(e, p, a[0])
    ch = p.norm(a[1])
    piece = S(chr(ch)) if isinstance(ch, int) else mk("char", (ch,), "str")
    e.write(p, a[0], ("String", cat(s, piece)))
    return c.finish(p, UNIT)


@pat(r"^std::string::String::push_str$|<std::string::String as std::ops::AddAssign<&str>>::add_assign$")
def _s_push_str(e, p, a, c):
    e.write(p, a[0], ("String", cat(content(e, p, a[0]), content(e, p, a[1]))))
    return c.finish(p, UNIT)


@pat(r"<impl str>::(to_ascii_lowercase|to_lowercase)$|<impl str>::(to_ascii_uppercase|to_uppercase)$")
def _lower(e, p, a, c):
    s = content(e, p, a[0])
    n = (c.f.get("inst") or c.f["res"]).split("::")[-1]
    if n == "to_ascii_lowercase":
        if isinstance(s, tuple) and s[0] == "s":
            v = S("".join(ch.lower() if ch.isascii() else ch for ch in s[1]))
        else:
            v = mk("lower", (s,), "str")
    else:
        v = mk(n, (s,), "str")
    return c.finish(p, ("String", v))


@model("core::str::<impl str>::is_char_boundary")
def _is_cb(e, p, a, c):
    return c.finish(p, boundary(e, p, content(e, p, a[0]), p.norm(a[1])))


@pat(r"<impl str>::(contains|starts_with|ends_with)(::<.*>)?$")
def _contains(e, p, a, c):
    n = re.search(r"<impl str>::(contains|starts_with|ends_with)(::<|$)", c.f.get("inst") or c.f["res"]).group(1)
    s = content(e, p, a[0])
    nd = needle(e, p, a[1])
    if isinstance(s, tuple) and s[0] == "s" and isinstance(nd, str):
        r = {"contains": nd in s[1], "starts_with": s[1].startswith(nd), "ends_with": s[1].endswith(nd)}[n]
        return c.finish(p, 1 if r else 0)
    return c.finish(p, mk("str_" + n, (s, S(nd) if isinstance(nd, str) else nd), "bool"))


def needle(e, p, v):
    v = p.norm(v)
    if isinstance(v, int):
        return chr(v)
    if isinstance(v, tuple) and v[0] in ("str", "String", "ref"):
        s = content(e, p, v)
        return s[1] if isinstance(s, tuple) and s[0] == "s" else s
    if isinstance(v, T) and v.ty == "char":
        return mk("char", (v,), "str")
    return e.snap(p, v)


@pat(r"<impl str>::r?find(::<.*>)?$")
def _find(e, p, a, c):
    """First occurrence: Some(i) with i + len(needle) <= len(s) and i on a boundary."""
    n = re.search(r"<impl str>::(r?find)(::<|$)", c.f.get("inst") or c.f["res"]).group(1)
    s = content(e, p, a[0])
    nd = needle(e, p, a[1])
    ndt = S(nd) if isinstance(nd, str) else nd
    if isinstance(s, tuple) and s[0] == "s" and isinstance(nd, str):
        i = s[1].find(nd) if n == "find" else s[1].rfind(nd)
        return c.finish(p, NONE if i < 0 else some(len(s[1][:i].encode())))
    has = mk("str_contains", (s, ndt), "bool")
    pos = mk("str_" + n, (s, ndt), "usize")

    def yes(q):
        ln = len(nd.encode()) if isinstance(nd, str) else 1
        if not q.assume(lez(lsub(ladd(pos, ln), slen(s)))):
            return []
        b = boundary(e, q, s, pos)
        if isinstance(b, T):
            q.assume(b, 1)
            if isinstance(nd, str):
                b2 = boundary(e, q, s, ladd(pos, ln))
                if isinstance(b2, T):
                    q.assume(b2, 1)
        return c.finish(q, some(pos))
    return c.split(p, has, yes, lambda q: c.finish(q, NONE))


@pat(r"<impl str>::(chars|bytes|char_indices)$")
def _chars(e, p, a, c):
    n = (c.f.get("inst") or c.f["res"]).split("::")[-1]
    s = content(e, p, a[0])
    if n == "char_indices":
        return c.finish(p, ("it", "enumchars", s, 0))
    return c.finish(p, ("it", n, s, 0))


@pat(r"impl char>::len_utf8$|impl std::primitive::char>::len_utf8$")
def _len_utf8(e, p, a, c):
    v = p.norm(a[0])
    if isinstance(v, int):
        return c.finish(p, len(chr(v).encode("utf-8", "surrogatepass")))
    t = mk("len_utf8", (v,), "usize")
    p.iv[t] = (1, 4)
    lo, hi = p.itv(v)
    if hi < 0x80:
        return c.finish(p, 1)
    return c.finish(p, t)


@pat(r"char>::from_u32$|^(core|std)::char::from_u32$")
def _from_u32(e, p, a, c):
    v = p.norm(a[0])
    if isinstance(v, int):
        ok = v < 0xD800 or 0xE000 <= v <= 0x10FFFF
        return c.finish(p, some(v) if ok else NONE)
    out = []
    for lo, hi, ok in ((0, 0xD7FF, True), (0xD800, 0xDFFF, False), (0xE000, 0x10FFFF, True), (0x110000, (1 << 32) - 1, False)):
        q = p.fork()
        if q.assume(lez(lsub(lo, v))) and q.assume(lez(lsub(v, hi))):
            out += c.finish(q, some(q.norm(v)) if ok else NONE)
    return out


@pat(r"^std::str::<impl str>::replace::<|^alloc::str::<impl str>::replace")
def _replace(e, p, a, c):
    s = content(e, p, a[0])
    return c.finish(p, ("String", mk("replace", (s, _cs(needle(e, p, a[1])), content(e, p, a[2])), "str")))


def _cs(x):
    return S(x) if isinstance(x, str) else x


@pat(r"^core::num::<impl \w+>::from_str_radix$|impl \w+>::from_str_radix$")
def _from_str_radix(e, p, a, c):
    s = content(e, p, a[0])
    ty = re.search(r"impl (\w+)>", c.f.get("inst") or c.f["res"]).group(1)
    return _parse_int(e, p, s, p.norm(a[1]), ty, c)


@pat(r"^core::str::<impl str>::parse::<")
def _parse(e, p, a, c):
    ty = re.search(r"parse::<(\w+)>", c.f.get("inst") or "").group(1)
    if ty not in INT_RANGE:
        return NotImplemented
    return _parse_int(e, p, content(e, p, a[0]), 10, ty, c)


def _parse_int(e, p, s, radix, ty, c):
    ok = mk("parses", (s, radix, ty), "bool")
    val = mk("parsed", (s, radix, ty), ty)
    err = adt(RES, 1, mk("parse_err", (s, radix, ty), "std::num::ParseIntError"))
    return c.split(p, ok, lambda q: c.finish(q, adt(RES, 0, val)), lambda q: c.finish(q, err))


@pat(r"^std::fmt::format$|^alloc::fmt::format$")
def _format(e, p, a, c):
    v = e.snap(p, a[0])
    if isinstance(v, tuple) and v[0] == "fmt" and v[1] is None:
        return c.finish(p, ("String", v[2]))
    return c.finish(p, ("String", mk("format", (v,), "str")))


@pat(r"core::fmt::rt::Argument::<'_>::new_\w+")
def _fmt_arg(e, p, a, c):
    return c.finish(p, ("fa", (c.f.get("inst") or "").split("::new_")[-1].split("::")[0], e.snap(p, a[0])))


@pat(r"std::fmt::Arguments::<'_>::(new|from_str|new_const)")
def _fmt_args(e, p, a, c):
    return c.finish(p, ("fmt", 1) + tuple(e.snap(p, x) for x in a))


# ------------------------------------------------------------------ Option / Result
def opt_split(e, p, v, c, on_some, on_none, ty=None):
    """Partition on an Option; on_some(path, payload)."""
    if isinstance(v, tuple) and v[0] == "adt":
        if v[2] == 1:
            return on_some(p, v[3][0])
        return on_none(p)
    if isinstance(v, T):
        d = e.discr(p, v)
        g = generics(ty or v.ty or "")
        pty = g[0] if g else None
        payload = lift(mk("fld", (mk("as", (v, 1), v.ty), 0), pty), pty)
        return c.split(p, eqz(lsub(d, 1)), lambda q: on_some(q, payload), on_none)
    raise Unmodelled("option %r" % (v,))


def res_split(e, p, v, c, on_ok, on_err, ty=None):
    if isinstance(v, tuple) and v[0] == "adt":
        return on_ok(p, v[3][0]) if v[2] == 0 else on_err(p, v[3][0])
    if isinstance(v, T):
        d = e.discr(p, v)
        g = generics(ty or v.ty or "")
        t0, t1 = (g + [None, None])[:2]
        ok = lift(mk("fld", (mk("as", (v, 0), v.ty), 0), t0), t0)
        er = lift(mk("fld", (mk("as", (v, 1), v.ty), 0), t1), t1)
        return c.split(p, eqz(d) if is_int(d) else d, lambda q: on_ok(q, ok), lambda q: on_err(q, er))
    raise Unmodelled("result %r" % (v,))


@pat(r"^std::option::Option::<.*>::(unwrap|expect)$")
def _unwrap(e, p, a, c):
    return opt_split(e, p, a[0], c, lambda q, x: c.finish(q, x), lambda q: [c.panic(q, "unwrap None")],
                     e.otype(c.t["args"][0], c.fr.fn))


@pat(r"^std::result::Result::<.*>::(unwrap|expect)$")
def _runwrap(e, p, a, c):
    return res_split(e, p, a[0], c, lambda q, x: c.finish(q, x), lambda q, x: [c.panic(q, "unwrap Err")],
                     e.otype(c.t["args"][0], c.fr.fn))


@pat(r"^std::option::Option::<.*>::(is_some|is_none)$")
def _is_some(e, p, a, c):
    n = c.f["inst"].split("::")[-1]
    v = deep(e, p, a[0])
    y = 1 if n == "is_some" else 0
    return opt_split(e, p, v, c, lambda q, x: c.finish(q, y), lambda q: c.finish(q, 1 - y))


@pat(r"^std::result::Result::<.*>::(is_ok|is_err)$")
def _is_ok(e, p, a, c):
    n = c.f["inst"].split("::")[-1]
    v = deep(e, p, a[0])
    y = 1 if n == "is_ok" else 0
    return res_split(e, p, v, c, lambda q, x: c.finish(q, y), lambda q, x: c.finish(q, 1 - y))


@pat(r"^std::option::Option::<.*>::(unwrap_or|unwrap_or_default)$")
def _unwrap_or(e, p, a, c):
    d = a[1] if len(a) > 1 else default_of(c.dty)
    return opt_split(e, p, a[0], c, lambda q, x: c.finish(q, x), lambda q: c.finish(q, d), e.otype(c.t["args"][0], c.fr.fn))


@pat(r"^std::result::Result::<.*>::(unwrap_or|unwrap_or_default)$")
def _runwrap_or(e, p, a, c):
    d = a[1] if len(a) > 1 else default_of(c.dty)
    return res_split(e, p, a[0], c, lambda q, x: c.finish(q, x), lambda q, x: c.finish(q, d), e.otype(c.t["args"][0], c.fr.fn))


def default_of(ty):
    if ty in INT_RANGE:
        return 0
    if ty == "std::string::String":
        return ("String", S(""))
    if ty == "&str":
        return ("str", S(""))
    if ty and ty.startswith("std::option::Option"):
        return NONE
    if ty and ty.startswith("std::vec::Vec"):
        return ("vec", None, (), ())
    raise Unmodelled("default of %s" % ty)


@pat(r"^std::option::Option::<.*>::(map|map_or|map_or_else|and_then|is_some_and|is_none_or|filter|ok_or|ok_or_else|unwrap_or_else|or_else|or|inspect)(::<.*>)?$")
def _opt_hof(e, p, a, c):
    n = re.sub(r"::<.*>$", "", re.sub(r"^std::option::Option::<.*>::(?=[a-z_]+(::<|$))", "", c.f["inst"]))
    n = n.split("::")[0]
    ty = e.otype(c.t["args"][0], c.fr.fn)
    fin = c.finish
    if n == "map":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], lambda r, v: fin(r, some(v))), lambda q: fin(q, NONE), ty)
    if n == "and_then":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], fin), lambda q: fin(q, NONE), ty)
    if n == "map_or":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[2], [x], fin), lambda q: fin(q, a[1]), ty)
    if n == "map_or_else":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[2], [x], fin), lambda q: e.apply(q, a[1], [], fin), ty)
    if n == "is_some_and":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], fin), lambda q: fin(q, 0), ty)
    if n == "is_none_or":
        return opt_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], fin), lambda q: fin(q, 1), ty)
    if n == "ok_or":
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, adt(RES, 0, x)), lambda q: fin(q, adt(RES, 1, a[1])), ty)
    if n == "ok_or_else":
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, adt(RES, 0, x)),
                         lambda q: e.apply(q, a[1], [], lambda r, v: fin(r, adt(RES, 1, v))), ty)
    if n == "unwrap_or_else":
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, x), lambda q: e.apply(q, a[1], [], fin), ty)
    if n == "or":
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, some(x)), lambda q: fin(q, a[1]), ty)
    if n == "or_else":
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, some(x)), lambda q: e.apply(q, a[1], [], fin), ty)
    if n == "filter":
        def some_case(q, x):
            e.fidc += 1
            cell = ("tmp", e.fidc)
            q.mem[cell] = x
            return e.apply(q, a[1], [("ref", cell, ())], lambda r, v: c.split(r, v, lambda s: fin(s, some(x)), lambda s: fin(s, NONE)))
        return opt_split(e, p, a[0], c, some_case, lambda q: fin(q, NONE), ty)
    return NotImplemented


@pat(r"^std::result::Result::<.*>::(map|map_err|and_then|unwrap_or_else|ok|err|map_or|map_or_else|is_ok_and|is_err_and|or_else|or|inspect|inspect_err)(::<.*>)?$")
def _res_hof(e, p, a, c):
    n = re.sub(r"^std::result::Result::<.*>::(?=[a-z_]+(::<|$))", "", c.f["inst"]).split("::")[0]
    ty = e.otype(c.t["args"][0], c.fr.fn)
    fin = c.finish
    if n == "map":
        return res_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], lambda r, v: fin(r, adt(RES, 0, v))), lambda q, x: fin(q, adt(RES, 1, x)), ty)
    if n == "map_err":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, adt(RES, 0, x)), lambda q, x: e.apply(q, a[1], [x], lambda r, v: fin(r, adt(RES, 1, v))), ty)
    if n == "and_then":
        return res_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], fin), lambda q, x: fin(q, adt(RES, 1, x)), ty)
    if n == "or_else":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, adt(RES, 0, x)), lambda q, x: e.apply(q, a[1], [x], fin), ty)
    if n == "unwrap_or_else":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, x), lambda q, x: e.apply(q, a[1], [x], fin), ty)
    if n == "ok":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, some(x)), lambda q, x: fin(q, NONE), ty)
    if n == "err":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, NONE), lambda q, x: fin(q, some(x)), ty)
    if n == "map_or":
        return res_split(e, p, a[0], c, lambda q, x: e.apply(q, a[2], [x], fin), lambda q, x: fin(q, a[1]), ty)
    if n == "map_or_else":
        return res_split(e, p, a[0], c, lambda q, x: e.apply(q, a[2], [x], fin), lambda q, x: e.apply(q, a[1], [x], fin), ty)
    if n == "is_err_and":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, 0), lambda q, x: e.apply(q, a[1], [x], fin), ty)
    if n == "or":
        return res_split(e, p, a[0], c, lambda q, x: fin(q, adt(RES, 0, x)), lambda q, x: fin(q, a[1]), ty)
    if n == "is_ok_and":
        return res_split(e, p, a[0], c, lambda q, x: e.apply(q, a[1], [x], fin), lambda q, x: fin(q, 0), ty)
    return NotImplemented


@pat(r"^std::(option::Option|result::Result)::<.*>::(as_ref|as_mut|as_deref|copied|cloned|take)$")
def _as_ref(e, p, a, c):
    n = c.f["inst"].split("::")[-1]
    isopt = c.f["inst"].startswith("std::option")
    fin = c.finish
    if n in ("copied", "cloned"):
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, some(clone_val(e, q, deep1(e, q, x)))), lambda q: fin(q, NONE), e.otype(c.t["args"][0], c.fr.fn))
    if n == "take":
        v = e.read(p, a[0])
        e.write(p, a[0], NONE)
        return fin(p, v)
    ref = a[0]
    v = e.read(p, ref)
    ty = strip_ref(e.otype(c.t["args"][0], c.fr.fn))

    def payload(q, variant):
        if isinstance(ref, tuple) and ref[0] == "ref":
            r = ("ref", ref[1], ref[2] + (("d", variant), ("f", 0, None)))
        elif isinstance(ref, T):
            r = ("ref", ("deref", ref), (("d", variant), ("f", 0, None)))
        else:
            raise Unmodelled("as_ref")
        if n == "as_deref":
            x = e.read(q, r)
            if isinstance(x, tuple) and x[0] in ("String", "str"):
                return ("str", x[1])
            if isinstance(x, T):
                return ("str", x)
        return r
    if isopt:
        return opt_split(e, p, v, c, lambda q, x: fin(q, some(payload(q, 1))), lambda q: fin(q, NONE), ty)
    return res_split(e, p, v, c, lambda q, x: fin(q, adt(RES, 0, payload(q, 0))), lambda q, x: fin(q, adt(RES, 1, payload(q, 1))), ty)


def deep1(e, p, v):
    return e.read(p, v)


def clone_val(e, p, v):
    return v


@pat(r" as std::ops::Try>::branch$")
def _branch(e, p, a, c):
    ty = e.otype(c.t["args"][0], c.fr.fn)
    fin = c.finish
    if ty and ty.startswith(OPT):
        return opt_split(e, p, a[0], c, lambda q, x: fin(q, adt(CF, 0, x)), lambda q: fin(q, adt(CF, 1, NONE)), ty)
    return res_split(e, p, a[0], c, lambda q, x: fin(q, adt(CF, 0, x)), lambda q, x: fin(q, adt(CF, 1, adt(RES, 1, x))), ty)


@pat(r" as std::ops::FromResidual<.*>>::from_residual$")
def _residual(e, p, a, c):
    return c.finish(p, a[0])


@pat(r"^<.* as std::ops::Try>::from_output$")
def _from_output(e, p, a, c):
    if c.dty and c.dty.startswith(OPT):
        return c.finish(p, some(a[0]))
    return c.finish(p, adt(RES, 0, a[0]))


@pat(r"^<T as std::convert::(Into|From)<.*>>::(into|from)$|^<(\w+) as std::convert::(Into|From)<\w+>>::(into|from)$|impl std::convert::From<\w+> for \w+>::from$")
def _into(e, p, a, c):
    ty = e.otype(c.t["args"][0], c.fr.fn)
    if ty in INT_RANGE and c.dty in INT_RANGE:
        return c.finish(p, a[0])
    if ty == c.dty:
        return c.finish(p, a[0])
    if ty == "&str" and c.dty == "std::string::String":
        return c.finish(p, ("String", content(e, p, a[0])))
    return NotImplemented


@pat(r"^std::clone::impls::<impl std::clone::Clone for|^<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char|bool|&.*) as std::clone::Clone>::clone$|^<std::option::Option<.*> as std::clone::Clone>::clone$|^<std::vec::Vec<.*> as std::clone::Clone>::clone$|^<\(.*\) as std::clone::Clone>::clone$")
def _clone(e, p, a, c):
    return c.finish(p, e.read(p, a[0]))


@pat(r" as std::clone::Clone>::clone$")
def _clone_any(e, p, a, c):
    """Derived Clone of a foreign or local value: the copy equals the original."""
    return c.finish(p, e.read(p, a[0]))


# the crate's own derived Clone implementations are analysed as a copy as well (fields are cloned one by one)


@pat(r"std::mem::(take|replace)(::<.*>)?$")
def _mem_take(e, p, a, c):
    old = e.read(p, a[0])
    if len(a) > 1:
        e.write(p, a[0], a[1])
    else:
        e.write(p, a[0], default_of(strip_ref(e.otype(c.t["args"][0], c.fr.fn))))
    return c.finish(p, old)


@pat(r"std::mem::swap(::<.*>)?$")
def _swap(e, p, a, c):
    x, y = e.read(p, a[0]), e.read(p, a[1])
    e.write(p, a[0], y)
    e.write(p, a[1], x)
    return c.finish(p, UNIT)


@pat(r"discriminant_value(::<.*>)?$|std::mem::discriminant")
def _dv(e, p, a, c):
    return c.finish(p, e.discr(p, deep(e, p, a[0])))


# ------------------------------------------------------------------ Vec and slices
@pat(r"^std::vec::Vec::<.*>::(new|with_capacity)$")
def _v_new(e, p, a, c):
    return c.finish(p, ("vec", None, (), ()))


@pat(r"^std::boxed::Box::<.*>::new_uninit$")
def _box_uninit(e, p, a, c):
    e.fidc += 1
    cell = ("heap", e.fidc)
    p.mem[cell] = ("tup", (UNIT, ("tup", (None,))))
    return c.finish(p, ("box", cell))


@pat(r"box_assume_init_into_vec_unsafe$")
def _box_into_vec(e, p, a, c):
    if not (isinstance(a[0], tuple) and a[0][0] == "box"):
        return NotImplemented
    v = e.read_at(p, a[0][1], (("f", 1, None), ("f", 0, None)))
    if not (isinstance(v, tuple) and v[0] == "vec"):
        return NotImplemented
    return c.finish(p, v)


@pat(r"^std::vec::Vec::<.*>::push$")
def _v_push(e, p, a, c):
    v = e.read(p, a[0])
    if isinstance(v, T):
        v = ("vec", v, (), ())
    if not (isinstance(v, tuple) and v[0] == "vec"):
        raise Unmodelled("push on %r" % (v,))
    e.write(p, a[0], ("vec", v[1], v[2] + (a[1],), v[3]))
    p.event("push", vec_name(e, a[0]), a[1])
    return c.finish(p, UNIT)


def vec_name(e, r):
    return r[1:] if isinstance(r, tuple) else r


@pat(r"^std::vec::Vec::<.*>::pop$")
def _v_pop(e, p, a, c):
    v = e.read(p, a[0])
    if isinstance(v, T):
        v = ("vec", v, (), ())
    if v[0] == "vec" and v[2] and not v[3]:
        e.write(p, a[0], ("vec", v[1], v[2][:-1], ()))
        return c.finish(p, some(v[2][-1]))
    if v[0] == "vec" and v[1] is None and not v[2]:
        return c.finish(p, NONE)
    if v[0] == "vec" and isinstance(v[1], T) and not v[2] and not v[3]:
        base = v[1]
        n = mk("len", (base,), "usize")

        def none(q):
            return c.finish(q, NONE)

        def yes(q):
            et = elem_type(base.ty)
            last = lift(mk("elem", (base, lsub(n, 1)), et), et)
            nb = mk("popped", (base,), base.ty)
            q.assume(eqz(lsub(mk("len", (nb,), "usize"), lsub(n, 1))))
            e.write(q, a[0], ("vec", nb, (), ()))
            return c.finish(q, some(last))
        return c.split(p, eqz(n), none, yes)
    raise Unmodelled("pop on %r" % (v,))


@pat(r"^std::vec::Vec::<.*>::len$|^core::slice::<impl \[.*\]>::len$")
def _v_len(e, p, a, c):
    v = a[0]
    if isinstance(v, tuple) and v[0] == "ref":
        v = deep(e, p, v)
    elif isinstance(v, T):
        v = e.read(p, v)
    return c.finish(p, e.seqlen(p, v))


@pat(r"^std::vec::Vec::<.*>::is_empty$|^core::slice::<impl \[.*\]>::is_empty$")
def _v_is_empty(e, p, a, c):
    v = a[0]
    if isinstance(v, tuple) and v[0] == "ref":
        v = deep(e, p, v)
    elif isinstance(v, T):
        v = e.read(p, v)
    return c.finish(p, eqz(e.seqlen(p, v)))


@pat(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::<.*>::(as_slice|as_mut_slice)$|^std::array::<impl \[.*\]>::as_slice$|<std::vec::Vec<.*> as std::convert::AsRef<\[.*\]>>::as_ref|<std::boxed::Box<.*> as std::ops::Deref(Mut)?>::deref")
def _v_deref(e, p, a, c):
    return c.finish(p, a[0])


@pat(r"^core::slice::<impl \[.*\]>::(last|first)(_mut)?$")
def _v_last(e, p, a, c):
    n = (c.f["inst"]).split("::")[-1].replace("_mut", "")
    r = deep_ref(e, p, a[0])
    v = e.read(p, r) if (isinstance(r, tuple) and r[0] == "ref") or isinstance(r, T) else r
    ln = e.seqlen(p, v)

    def yes(q):
        idx = 0 if n == "first" else lsub(e.seqlen(q, v), 1)
        return c.finish(q, some(elem_ref(e, q, r, idx)))
    return c.split(p, eqz(ln), lambda q: c.finish(q, NONE), yes)


@pat(r"^core::slice::<impl \[.*\]>::get(_mut)?(::<usize>)?$")
def _v_get(e, p, a, c):
    r = deep_ref(e, p, a[0])
    v = e.read(p, r) if (isinstance(r, tuple) and r[0] == "ref") or isinstance(r, T) else r
    if not is_int(a[1]):
        return NotImplemented
    idx = p.norm(a[1])
    ln = e.seqlen(p, v)
    return c.split(p, lez(ladd(lsub(idx, ln), 1)), lambda q: c.finish(q, some(elem_ref(e, q, r, idx))), lambda q: c.finish(q, NONE))


@pat(r"^core::slice::<impl \[.*\]>::reverse$")
def _v_reverse(e, p, a, c):
    r = deep_ref(e, p, a[0])
    v = e.read(p, r)
    if isinstance(v, tuple) and v[0] == "vec":
        if v[1] is None and not v[3]:
            nv = ("vec", None, tuple(reversed(v[2])), ())
        else:
            b = mk("reversed", (e.snap(p, v),), v[1].ty if isinstance(v[1], T) else None)
            p.assume(eqz(lsub(mk("len", (b,), "usize"), e.seqlen(p, v))))
            nv = ("vec", b, (), ())
    elif isinstance(v, T):
        b = mk("reversed", (v,), v.ty)
        p.assume(eqz(lsub(mk("len", (b,), "usize"), e.seqlen(p, v))))
        nv = ("vec", b, (), ())
    else:
        raise Unmodelled("reverse")
    e.write(p, r, nv)
    p.event("reverse", vec_name(e, r))
    return c.finish(p, UNIT)


@pat(r"^std::vec::Vec::<.*>::(clear)$")
def _v_clear(e, p, a, c):
    e.write(p, a[0], ("vec", None, (), ()))
    return c.finish(p, UNIT)


# ------------------------------------------------------------------ iterators
@pat(r"^core::slice::<impl \[.*\]>::iter(_mut)?$")
def _iter(e, p, a, c):
    return c.finish(p, ("it", "ref", deep_ref(e, p, a[0]), 0))


@pat(r" as std::iter::Iterator>::(enumerate|peekable|skip|rev|by_ref|take|copied|cloned)$|std::iter::Iterator::by_ref")
def _adapt(e, p, a, c):
    n = c.f["inst"].split("::")[-1]
    it = a[0]
    if n == "by_ref":
        return c.finish(p, it)
    if n == "enumerate":
        return c.finish(p, ("it", "enum", it, 0))
    if n == "peekable":
        return c.finish(p, ("it", "peek", it))
    if n == "rev":
        return c.finish(p, ("it", "rev", it))
    if n in ("copied", "cloned"):
        return c.finish(p, ("it", "copied", it))
    if n == "skip":
        k = p.norm(a[1])
        x = skip(it, k)
        if x is not None:
            return c.finish(p, x)
    return NotImplemented


def skip(it, k):
    if not isinstance(it, tuple):
        return None
    if it[0] == "it" and it[1] in ("ref", "val", "bytes", "chars"):
        return ("it", it[1], it[2], ladd(it[3], k))
    if it[0] == "it" and it[1] == "enum":
        x = skip(it[2], k)
        return None if x is None else ("it", "enum", x, ladd(it[3], k))
    return None


@pat(r" as std::iter::Iterator>::(map|filter|take_while|skip_while|filter_map)::<")
def _lazy(e, p, a, c):
    n = re.search(r"Iterator>::(\w+)::<", c.f["inst"]).group(1)
    if n == "map":
        return c.finish(p, ("it", "map", a[0], a[1]))
    if n == "filter":
        return c.finish(p, ("it", "filter", a[0], a[1]))
    return NotImplemented


def it_next(e, p, it, c, k):
    """Advances an iterator value: k(path, new iterator, option value)."""
    if isinstance(it, tuple) and it[0] == "adt" and it[1] == "std::ops::Range":
        lo, hi = p.norm(it[3][0]), p.norm(it[3][1])
        return c.split(p, lez(ladd(lsub(lo, hi), 1)),
                       lambda q: k(q, ("adt", it[1], it[2], (ladd(lo, 1), hi)), some(lo)),
                       lambda q: k(q, it, NONE))
    if isinstance(it, tuple) and it[0] == "adt" and it[1] == "std::ops::RangeInclusive":
        lo, hi, ex = p.norm(it[3][0]), p.norm(it[3][1]), (it[3][2] if len(it[3]) > 2 else 0)
        it2 = ("adt", "std::ops::Range", 0, (lo, ladd(hi, 1)))
        if ex == 0:
            return it_next(e, p, it2, c, k)
        raise Unmodelled("range inclusive")
    if isinstance(it, tuple) and it[0] == "adt" and it[1] == "std::ops::RangeFrom":
        lo = p.norm(it[3][0])
        return k(p, ("adt", it[1], it[2], (ladd(lo, 1),)), some(lo))
    if isinstance(it, T):
        raise Unmodelled("iterator %r" % it)
    if it[0] == "ref":
        inner = e.read(p, it)

        def back(q, ni, o):
            e.write(q, it, ni)
            return k(q, it, o)
        return it_next(e, p, inner, c, back)
    if it[0] != "it":
        raise Unmodelled("iterator %r" % (it,))
    kind = it[1]
    if kind in ("ref", "val"):
        r, pos = it[2], p.norm(it[3])
        if kind == "ref":
            v = e.read(p, r) if (isinstance(r, tuple) and r[0] == "ref") or isinstance(r, T) else r
        else:
            v = r
        n = e.seqlen(p, v)
        # optional upper bound (set by next_back)
        if len(it) > 4:
            n = lsub(n, it[4])

        def yes(q):
            x = elem_ref(e, q, r, pos) if kind == "ref" else e.elem(q, v, pos)
            return k(q, it[:3] + (ladd(pos, 1),) + it[4:], some(x))
        return c.split(p, lez(ladd(lsub(pos, n), 1)), yes, lambda q: k(q, it, NONE))
    if kind == "bytes":
        s, pos = it[2], p.norm(it[3])
        return c.split(p, lez(ladd(lsub(pos, slen(s)), 1)),
                       lambda q: k(q, ("it", kind, s, ladd(pos, 1)), some(e.byte_at(q, s, pos))),
                       lambda q: k(q, it, NONE))
    if kind == "chars":
        s, pos = it[2], p.norm(it[3])
        if isinstance(s, tuple) and s[0] == "s" and isinstance(pos, int):
            if pos < len(s[1]):
                return k(p, ("it", kind, s, pos + 1), some(ord(s[1][pos])))
            return k(p, it, NONE)
        n = mk("nchars", (s,), "usize")
        if p.truth(lez(lsub(n, slen(s)))) is None:
            p.assume(lez(lsub(n, slen(s))))
            p.assume(lez(ladd(lsub(slen(s), n), -3, 1)) if False else 1)
        if p.truth(lez(ladd(lsub(1, slen(s)), 0))) == 1:
            p.assume(lez(lsub(1, n)))
        return c.split(p, lez(ladd(lsub(pos, n), 1)),
                       lambda q: k(q, ("it", kind, s, ladd(pos, 1)), some(char_at(q, s, pos))),
                       lambda q: k(q, it, NONE))
    if kind == "enum":
        inner, n = it[2], p.norm(it[3])
        return it_next(e, p, inner, c, lambda q, ni, o: k(q, ("it", "enum", ni, ladd(n, 1) if o[2] == 1 else n),
                                                          some(("tup", (n, o[3][0]))) if o[2] == 1 else NONE))
    if kind == "peek":
        return it_next(e, p, it[2], c, lambda q, ni, o: k(q, ("it", "peek", ni), o))
    if kind == "copied":
        return it_next(e, p, it[2], c, lambda q, ni, o: k(q, ("it", "copied", ni), some(e.read(q, o[3][0])) if o[2] == 1 else NONE))
    if kind == "map":
        def app(q, ni, o):
            if o[2] == 0:
                return k(q, ("it", "map", ni, it[3]), NONE)
            return e.apply(q, it[3], [o[3][0]], lambda r, v: k(r, ("it", "map", ni, it[3]), some(v)))
        return it_next(e, p, it[2], c, app)
    if kind == "filter" and isinstance(it[2], tuple) and it[2][:2] == ("it", "ref") and len(it[2]) == 4:
        # the next element that satisfies the predicate: any later one
        r, pos = it[2][2], p.norm(it[2][3])
        v = e.read(p, r) if (isinstance(r, tuple) and r[0] == "ref") or isinstance(r, T) else r
        n = e.seqlen(p, v)
        j = e.fresh(p, "next", "usize")
        q = p.fork()
        out = []
        if q.assume(lez(lsub(pos, j))) and q.assume(lez(ladd(lsub(j, n), 1))):
            x = elem_ref(e, q, r, j)
            e.fidc += 1
            cell = ("item", e.fidc)
            q.mem[cell] = x

            def tested(z, ok):
                ok = z.norm(ok)
                y = z.fork()
                if y.truth(ok) != 1 and y.assume(ok, 0):
                    e.skipped.append(y)
                if z.truth(ok) == 0 or not z.assume(ok, 1):
                    z.status, z.why = "unreachable", ("filter", 0)
                    return []
                return k(z, ("it", "filter", ("it", "ref", r, ladd(j, 1)), it[3]), some(x))
            out += e.apply(q, it[3], [("ref", cell, ())], tested)
        return out + k(p, it, NONE)
    if kind == "rev":
        inner = it[2]
        if inner[0] == "adt" and inner[1] == "std::ops::Range":
            lo, hi = p.norm(inner[3][0]), p.norm(inner[3][1])
            return c.split(p, lez(ladd(lsub(lo, hi), 1)),
                           lambda q: k(q, ("it", "rev", ("adt", inner[1], 0, (lo, lsub(hi, 1)))), some(lsub(hi, 1))),
                           lambda q: k(q, it, NONE))
        if inner[0] == "adt" and inner[1] == "std::ops::RangeInclusive":
            return it_next(e, p, ("it", "rev", ("adt", "std::ops::Range", 0, (inner[3][0], ladd(inner[3][1], 1)))), c, k)
    raise Unmodelled("iterator kind %s" % kind)


def char_at(p, s, pos):
    return mk("charat", (s, pos), "char")


@pat(r" as std::iter::Iterator>::next$|std::iter::Iterator for .*>::next$")
def _next(e, p, a, c):
    ref = a[0]
    it = e.read(p, ref)
    if isinstance(it, T) or not (it[0] in ("it", "ref") or it[0] == "adt"):
        return NotImplemented

    def k(q, ni, o):
        e.write(q, ref, ni)
        if o[2] == 1:
            q.event("next", ref[1:] if isinstance(ref, tuple) else ref)
        return c.finish(q, o)
    return it_next(e, p, it, c, k)


@pat(r"^std::iter::Peekable::<.*>::peek(_mut)?$")
def _peek(e, p, a, c):
    it = e.read(p, a[0])
    if isinstance(it, T):
        return NotImplemented

    def k(q, ni, o):
        if o[2] == 0:
            return c.finish(q, NONE)
        e.fidc += 1
        cell = ("peeked", e.fidc)
        q.mem[cell] = o[3][0]
        return c.finish(q, some(("ref", cell, ())))
    return it_next(e, p, it[2], c, k)


@pat(r"^std::iter::Peekable::<.*>::next_if(_eq)?(::<.*>)?$")
def _next_if(e, p, a, c):
    return NotImplemented


@pat(r"^<std::str::(Chars|Bytes)<'_> as std::iter::Iterator>::nth$|<std::slice::Iter<.*> as std::iter::Iterator>::nth$")
def _nth(e, p, a, c):
    it = e.read(p, a[0])
    x = skip(it, p.norm(a[1])) if isinstance(it, tuple) else None
    if x is None:
        return NotImplemented

    def k(q, ni, o):
        e.write(q, a[0], ni)
        return c.finish(q, o)
    return it_next(e, p, x, c, k)


@pat(r"^<std::ops::Range<usize> as std::iter::Iterator>::find::<|^<.*Range<usize>.* as std::iter::Iterator>::find::<")
def _range_find(e, p, a, c):
    """First i of lo..hi with pred(i): the predicate holds for the answer and for nothing before it."""
    it = e.read(p, a[0])
    if not (isinstance(it, tuple) and it[0] == "adt" and it[1] == "std::ops::Range"):
        return NotImplemented
    lo, hi = p.norm(it[3][0]), p.norm(it[3][1])
    i = mk("first", (lo, hi, e.snap(p, a[1]) if not isinstance(a[1], tuple) else (a[1][1], e.snap(p, a[1][2]))), "usize")
    q = p.fork()
    out = []
    if q.assume(lez(lsub(lo, i))) and q.assume(lez(ladd(lsub(i, hi), 1))):
        e.fidc += 1
        cell = ("tmp", e.fidc)
        q.mem[cell] = i

        def post(r, v):
            if not r.assume(v, 1):
                return []
            return c.finish(r, some(i))
        out += e.apply(q, a[1], [("ref", cell, ())], post)
    p.event("nofind", lo, hi)
    out += c.finish(p, NONE)
    return out


@pat(r"^<.* as std::iter::Iterator>::(any|all)::<")
def _any(e, p, a, c):
    """Undetermined boolean of the sequence and the predicate; the predicate itself is analysed on a generic element."""
    n = re.search(r"Iterator>::(any|all)::<", c.f["inst"]).group(1)
    it = e.read(p, a[0])
    t = mk("it_" + n, (e.snap(p, it), (a[1][1], e.snap(p, a[1][2])) if isinstance(a[1], tuple) and a[1][0] == "clo" else e.snap(p, a[1])), "bool")
    # analyse the predicate once on a generic element, for its panics
    if e.panics and isinstance(it, tuple) and it[0] == "adt" and it[1] == "std::ops::Range":
        q = p.fork()
        x = e.fresh(q, "anyelem", "usize")
        if q.assume(lez(lsub(it[3][0], x))) and q.assume(lez(ladd(lsub(x, it[3][1]), 1))):
            return e.apply(q, a[1], [x], lambda r, v: []) + c.finish(p, t)
    return c.finish(p, t)


@pat(r"^<.* as std::iter::Iterator>::for_each::<")
def _for_each(e, p, a, c):
    """Analysed as an event on a generic element; see the users of this event."""
    it = a[0]
    p.event("for_each", e.snap(p, it), a[1])
    return NotImplemented


@pat(r"std::ops::(RangeInclusive|Range)::<\w+>::contains::<")
def _rcontains(e, p, a, c):
    r = deep(e, p, a[0])
    x = p.norm(deep(e, p, a[1]))
    if not (isinstance(r, tuple) and r[0] == "adt"):
        return NotImplemented
    lo, hi = r[3][0], r[3][1]
    up = lez(lsub(x, hi)) if "Inclusive" in c.f["inst"] else lez(ladd(lsub(x, hi), 1))
    return c.split(p, lez(lsub(lo, x)),
                   lambda q: c.split(q, up, lambda r: c.finish(r, 1), lambda r: c.finish(r, 0)),
                   lambda q: c.finish(q, 0))


@pat(r"std::ops::RangeInclusive::<\w+>::new$")
def _rinew(e, p, a, c):
    return c.finish(p, adt("std::ops::RangeInclusive", 0, a[0], a[1], 0))


@pat(r"impl (u8|char)>::(is_ascii_\w+|is_ascii)$")
def _ascii(e, p, a, c):
    n = (c.f.get("inst") or c.f["res"]).split("::")[-1]
    x = p.norm(deep(e, p, a[0]))
    rngs = {"is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)],
            "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_lowercase": [(97, 122)],
            "is_ascii_uppercase": [(65, 90)], "is_ascii": [(0, 127)],
            "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
            "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
            "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)]}.get(n)
    if rngs is None:
        return NotImplemented
    out = []
    for lo, hi in rngs:
        q = p.fork()
        if q.assume(lez(lsub(lo, x))) and q.assume(lez(lsub(x, hi))):
            out += c.finish(q, 1)
    prev = 0
    top = INT_RANGE["char"][1]
    for lo, hi in rngs + [(top + 1, top + 1)]:
        q = p.fork()
        if prev <= lo - 1 and q.assume(lez(lsub(prev, x))) and q.assume(lez(lsub(x, lo - 1))):
            out += c.finish(q, 0)
        prev = hi + 1
    return out


@pat(r"^core::panicking::|^std::rt::(begin_)?panic|unreachable_default_msg")
def _panic(e, p, a, c):
    return [c.panic(p, "panic!")]


@pat(r"^std::collections::(HashMap|BTreeMap)::<.*>::new$")
def _map_new(e, p, a, c):
    return c.finish(p, ("map", None, ()))


@pat(r"^std::collections::(HashMap|BTreeMap)::<.*>::insert$")
def _map_insert(e, p, a, c):
    m = e.read(p, a[0])
    if isinstance(m, tuple) and m[0] == "map":
        e.write(p, a[0], ("map", m[1], m[2] + ((e.snap(p, a[1]), a[2]),)))
        return c.finish(p, lift(e.fresh(p, "oldvalue", c.dty), c.dty))
    return NotImplemented


@pat(r"^std::collections::(HashMap|BTreeMap)::<.*>::(get|contains_key)::<")
def _map_get(e, p, a, c):
    m = deep(e, p, a[0])
    key = e.snap(p, deep(e, p, a[1]))
    if "contains_key" in c.f["inst"]:
        return c.finish(p, mk("maphas", (e.snap(p, m), key), "bool"))
    has = mk("maphas", (e.snap(p, m), key), "bool")
    g = generics(c.dty or "")
    pty = g[0] if g else None
    inner = strip_ref(pty)

    def yes(q):
        e.fidc += 1
        cell = ("tmp", e.fidc)
        q.mem[cell] = lift(mk("mapget", (e.snap(q, m), key), inner), inner)
        return c.finish(q, some(("ref", cell, ())))
    return c.split(p, has, yes, lambda q: c.finish(q, NONE))
