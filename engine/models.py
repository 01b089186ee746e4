"""Models of the standard library / third-party functions the code under test reaches.
Everything without a model runs as MIR."""
from sym import *
from vals import *
from vals import _atom_same
import rx
import z3

U64 = (1 << 64) - 1
SURR_OK = ((0, 0xD7FF), (0xE000, 0x10FFFF))
DIG = ((48, 57),)


# ------------------------------------------------------------------ helpers

def sv(I, p):
    """StrV behind &str / &String / String"""
    t = type(p)
    if t is StrV:
        return s_norm(I.ctx, p)
    if t is Ptr:
        return sv(I, I.load(p))
    if t is Lazy or t is Tok:
        return sv(I, I.force_lazy(p))
    if t is FD:
        return sv(I, I.conc_fd(p))
    if t is Agg and p.var in (0, 1) and len(p.f) == 1 and type(p.f[0]) in (StrV, Ptr, Lazy):     # Cow<str>
        return sv(I, p.f[0])
    raise Unsupported("string expected, got %r" % (p,))


def str_len(I, s):
    """length in bytes"""
    ctx = I.ctx
    s = s_norm(ctx, s)
    n = 0
    for a in s.a:
        t = type(a)
        if t is str:
            n += len(a.encode("utf-8"))
        elif t is Opq:
            raise Unsupported("byte length of an opaque string")
        else:
            for c in s_chars(ctx, StrV((a,))):
                if type(c) is int:
                    n += len(chr(c).encode("utf-8"))
                else:
                    n += (1, 2, 3, 4)[ctx.choose((ctx.int_in(c, ((0, 0x7f),)), ctx.int_in(c, ((0x80, 0x7ff),)),
                                                  ctx.int_in(c, ((0x800, 0xffff),)), ctx.int_in(c, ((0x10000, 0x10ffff),))))]
    return n


def str_len_term(I, s):
    """length in bytes as one term, without deciding how wide each character is"""
    ctx = I.ctx
    s = s_norm(ctx, s)
    n = 0
    wide = []
    for a in s.a:
        t = type(a)
        if t is str:
            n += len(a.encode("utf-8"))
        elif t is Opq:
            raise Unsupported("byte length of an opaque string")
        else:
            for c in s_chars(ctx, StrV((a,))):
                if type(c) is int:
                    n += len(chr(c).encode("utf-8"))
                else:
                    lo, hi = ctx.interval(c)
                    w = [len(chr(x).encode("utf-8", "surrogatepass")) for x in (lo, hi)]
                    if w[0] == w[1]:
                        n += w[0]
                    else:
                        wide.append((c, w))
    if not wide:
        return n
    e = z3.IntVal(n)
    vs = frozenset()
    lo = hi = n
    for c, w in wide:
        z = ctx.zi(c)
        e = e + 1 + sum(z3.If(z >= m, z3.IntVal(1), z3.IntVal(0)) for m in (0x80, 0x800, 0x10000))
        vs |= ctx.vs(c)
        lo, hi = lo + w[0], hi + w[1]
    return ZI(e, vs, lo, hi)


def opq_empty(I, a):
    if a.none is not None:
        return False
    return opq_is(I.ctx, a, "")


def str_is_empty(I, s):
    ctx = I.ctx
    s = s_norm(ctx, s)
    cs = []
    for a in s.a:
        t = type(a)
        if t in (str, Ch, Dec):
            return False
        if t is FS:
            cs.append(ctx.norm(InDom(a.v, rs_of([k for k in rs_vals(ctx.dom[a.v]) if a.tab[k] == ""]))))
        elif t is Opq:
            cs.append(opq_empty(I, a))
        else:
            raise Unsupported("emptiness of %r" % (a,))
    return ctx.b_and(cs)


def slice_seq(I, p):
    """(tuple of values) of &[T] / &Vec / Vec / array pointer"""
    if type(p) is SliceRef:
        f = I.force(I.get(p.c.v, p.p)).f
        return f[p.s:p.e] if p.e is not None else f[p.s:]
    if type(p) is Ptr:
        v = I.force(I.load(p))
        if type(v) is Seq:
            return v.f
        return slice_seq(I, v)
    if type(p) is Seq:
        return p.f
    if type(p) is Lazy or type(p) is Tok:
        return slice_seq(I, I.force_lazy(p))
    if type(p) is Obj and p.k == "bytes":
        return tuple(utf8(I, p.d[0]))
    raise Unsupported("slice expected, got %r" % (p,))


def utf8(I, s):
    """the bytes of a string, as terms; decides how many bytes each character has"""
    ctx = I.ctx
    out = []
    src = ctx.__dict__.setdefault("bytesrc", {})      # where a byte comes from: character, place
    for c in s_chars(ctx, s_norm(ctx, s)):
        c = ctx.norm(c)
        if type(c) is int:
            out += chr(c).encode("utf-8")
        elif ctx.branch(ctx.int_in(c, ((0, 0x7F),))):
            out.append(ctx.norm(c))
        else:
            d, r = (lambda x: ctx.divmod(x, 64, "div")), (lambda x: ctx.add(ctx.divmod(x, 64, "rem"), 0x80))
            if ctx.branch(ctx.int_in(c, ((0, 0x7FF),))):
                l = [ctx.add(d(c), 0xC0), r(c)]
            elif ctx.branch(ctx.int_in(c, ((0, 0xFFFF),))):
                l = [ctx.add(d(d(c)), 0xE0), r(d(c)), r(c)]
            else:
                l = [ctx.add(d(d(d(c))), 0xF0), r(d(d(c))), r(d(c)), r(c)]
            for k, b in enumerate(l):
                src[id(b)] = (b, c, k, len(l))
            out += l
    return out


def bytes_slice(I, o):
    return SliceRef(Cell(Seq(tuple(utf8(I, o.d[0])))), (), 0, None)


def as_slice(I, p):
    """SliceRef with concrete bounds for &Vec/&[T]/&[T;N]"""
    if type(p) is Obj and p.k == "bytes":
        p = bytes_slice(I, p)
    if type(p) is SliceRef:
        n = I.seq_len(p)
        return SliceRef(p.c, p.p, p.s, p.s + n)
    if type(p) is Ptr:
        v = I.load(p)
        if type(v) in (SliceRef, Ptr):
            return as_slice(I, v)
        n = len(vec(I, p))
        return SliceRef(p.c, p.p, 0, n)
    raise Unsupported("slice expected, got %r" % (p,))


def sl_ptr(sl, i):
    return Ptr(sl.c, sl.p + (sl.s + i,))


def vec(I, p):
    """tuple of the Vec behind &mut Vec"""
    v = I.force(I.load(p))
    if type(v) is Obj and v.k == "bytes":
        v = Seq(tuple(utf8(I, v.d[0])))
        I.store(p, v)
    if type(v) is not Seq:
        raise Unsupported("vector expected, got %r" % (v,))
    return v.f


def setvec(I, p, t):
    I.store(p, Seq(tuple(t)))


def ordv(i):
    return Agg(i, ())     # Ordering: Less, Equal, Greater


# --------------------------------------------------------------- equality

def veq(I, a, b):
    """boolean term for structural equality of two values"""
    ctx = I.ctx
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is Ptr or tb is Ptr:
        if ta is Ptr and tb is Ptr and a == b:
            return True
        if ta is Ptr:
            a = I.load(a)
        if tb is Ptr:
            b = I.load(b)
        return veq(I, a, b)
    if ta in (Lazy, Tok) or tb in (Lazy, Tok):
        r = I.lazy_eq(a, b)
        if r is not None:
            return r
        if ta in (Lazy, Tok):
            a = I.force_lazy(a)
        if tb in (Lazy, Tok):
            b = I.force_lazy(b)
        return veq(I, a, b)
    if ta is FD and (tb is Agg or tb is FD) or tb is FD and ta is Agg:
        a2, b2 = ctx.norm(a), ctx.norm(b)
        if type(a2) is FD and type(b2) is FD and a2.v is not b2.v:
            return veq(I, I.conc_fd(a2), I.conc_fd(b2))
        v = a2.v if type(a2) is FD else b2.v if type(b2) is FD else None
        if v is None:
            return veq(I, a2, b2)
        good = []
        for k in rs_vals(ctx.dom[v]):
            x = a2.tab[k] if type(a2) is FD else a2
            y = b2.tab[k] if type(b2) is FD else b2
            if type(x) in (int, bool) and type(y) in (int, bool):
                if x == y:
                    good.append(k)
                continue
            r = veq(I, x, y)
            if r is True:
                good.append(k)
            elif r is not False:
                return veq(I, I.conc_fd(a2), I.conc_fd(b2))
        return ctx.norm(InDom(v, rs_of(good)))
    if ta is StrV and tb is StrV:
        return s_eq(ctx, a, b)
    if ta in (int, bool) + SYMI + SYMB and tb in (int, bool) + SYMI + SYMB:
        return ctx.cmp("eq", a, b)
    if ta is Agg and tb is Agg:
        if a.var != b.var:
            return False
        if len(a.f) != len(b.f):
            raise Unsupported("comparison of differently shaped values")
        l = []
        for x, y in zip(a.f, b.f):
            r = veq(I, x, y)
            if r is False:
                return False
            l.append(r)
        return ctx.b_and(l)
    if ta in (Seq, SliceRef) and tb in (Seq, SliceRef):
        x, y = slice_seq(I, a), slice_seq(I, b)
        if len(x) != len(y):
            return False
        l = []
        for p, q in zip(x, y):
            r = veq(I, p, q)
            if r is False:
                return False
            l.append(r)
        return ctx.b_and(l)
    if ta is MapV and tb is MapV:
        if len(a.e) != len(b.e):
            return False
        l = []
        for k, v in a.e:
            for k2, v2 in b.e:
                if ctx.branch(veq(I, k, k2)):
                    r = veq(I, v, v2)
                    if r is False:
                        return False
                    l.append(r)
                    break
            else:
                return False
        return ctx.b_and(l)
    if ta is FnV and tb is FnV:
        return True
    if ta is Obj and a.k == "bytes" or tb is Obj and b.k == "bytes":
        a, b = bytes_or_seq(I, a), bytes_or_seq(I, b)
        if type(a) is not type(b):
            a, b = (Seq(tuple(utf8(I, x))) if type(x) is StrV else x for x in (a, b))
        return veq(I, a, b)
    if ta is Obj and tb is Obj and a.k == b.k and I.same(a, b):
        return True
    raise Unsupported("comparison of %r and %r" % (a, b))


def vcmp(I, a, b):
    """Ordering value index (0 less,1 equal,2 greater); forks"""
    ctx = I.ctx
    ta, tb = type(a), type(b)
    if ta is Ptr:
        return vcmp(I, I.load(a), b)
    if tb is Ptr:
        return vcmp(I, a, I.load(b))
    if ta in (Lazy, Tok):
        return vcmp(I, I.force_lazy(a), b)
    if tb in (Lazy, Tok):
        return vcmp(I, a, I.force_lazy(b))
    if ta is StrV and tb is StrV:
        x, y = s_chars(ctx, s_norm(ctx, a)), s_chars(ctx, s_norm(ctx, b))
        for p, q in zip(x, y):
            r = I.ordering(p, q).var
            if r != 1:
                return r
        return 0 if len(x) < len(y) else 1 if len(x) == len(y) else 2
    if ta is FD and type(I.ctx.norm(a)) is not FD:
        return vcmp(I, ctx.norm(a), b)
    if ta is Agg and tb is Agg:
        if a.var != b.var:
            return 0 if a.var < b.var else 2
        for x, y in zip(a.f, b.f):
            r = vcmp(I, x, y)
            if r != 1:
                return r
        return 1
    if ta in (Seq, SliceRef):
        x, y = slice_seq(I, a), slice_seq(I, b)
        for p, q in zip(x, y):
            r = vcmp(I, p, q)
            if r != 1:
                return r
        return 0 if len(x) < len(y) else 1 if len(x) == len(y) else 2
    return I.ordering(a, b).var


# --------------------------------------------------------------- type facts

STD_EQ = ("std::string::String", "std::vec::Vec", "std::option::Option", "std::result::Result", "std::boxed::Box",
          "std::collections::HashSet", "std::collections::BTreeSet",
          "std::collections::HashMap", "std::collections::BTreeMap", "std::cmp::Ordering")


def is_str_ty(I, t):
    i = I.ty(t)
    while i["k"] == "ref":
        i = I.ty(i["elem"])
    return i["k"] == "str" or (i["k"] == "adt" and i["path"] in ("std::string::String", "std::borrow::Cow"))


def is_std(path):
    return path.startswith(("std::", "core::", "alloc::", "hashbrown::"))


def eq_ok(I, t, seen=None):
    """equality on this type is structural (derived or a std container of such)"""
    memo = I.__dict__.setdefault("_eqok", {})
    if t in memo:
        return memo[t]
    memo[t] = True
    i = I.ty(t)
    k = i["k"]
    r = True
    if k in ("ref", "array", "slice", "ptr"):
        r = eq_ok(I, i["elem"])
    elif k == "tuple":
        r = all(eq_ok(I, x) for x in i["elems"])
    elif k == "adt":
        if is_std(i["path"]):
            r = i["path"] in STD_EQ and all(eq_ok(I, a["ty"]) for a in i["args"] if a["k"] == "ty"
                                            and not I.ty(a["ty"])["s"].endswith(("Global", "RandomState")))
        else:
            x = I.mir.resolve("std::cmp::PartialEq", "eq", [t, t])
            r = x is not None and x["derived"] and all(eq_ok(I, f["ty"]) for v in i["variants"] for f in v["fields"])
    elif k == "float" or k in ("dyn", "other"):
        r = False
    memo[t] = r
    return r


def has_box(I, t):
    memo = I.__dict__.setdefault("_hasbox", {})
    if t in memo:
        return memo[t]
    memo[t] = False
    i = I.ty(t)
    k = i["k"]
    r = False
    if k in ("array", "slice"):
        r = has_box(I, i["elem"])
    elif k == "tuple":
        r = any(has_box(I, x) for x in i["elems"])
    elif k == "adt":
        if i["path"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::cell::RefCell", "std::cell::Cell"):
            r = True
        elif i["path"] in ("std::vec::Vec", "std::option::Option", "std::collections::HashMap"):
            r = any(has_box(I, a["ty"]) for a in i["args"] if a["k"] == "ty")
        elif is_std(i["path"]):
            r = False
        else:
            r = any(has_box(I, f["ty"]) for v in i["variants"] for f in v["fields"])
    memo[t] = r
    return r


def clone_ok(I, t):
    """clone is a structural copy that needs no new heap cell"""
    memo = I.__dict__.setdefault("_clok", {})
    if t in memo:
        return memo[t]
    memo[t] = True
    i = I.ty(t)
    k = i["k"]
    r = True
    if k in ("array", "slice"):
        r = clone_ok(I, i["elem"])
    elif k == "tuple":
        r = all(clone_ok(I, x) for x in i["elems"])
    elif k == "adt":
        p = i["path"]
        if p in ("std::string::String",):
            r = True
        elif p in ("std::vec::Vec", "std::option::Option", "std::result::Result", "std::collections::HashMap",
                   "std::collections::BTreeMap"):
            r = all(clone_ok(I, a["ty"]) for a in i["args"] if a["k"] == "ty"
                    and not I.ty(a["ty"])["s"].endswith(("Global", "RandomState")))
        elif p == "std::boxed::Box":
            r = False
        elif is_std(p) or p.startswith("regex::"):
            r = p.startswith(("std::slice::Iter", "std::str::", "std::iter::", "std::ops::Range", "std::vec::IntoIter", "regex::",
                              "std::collections::hash_map::Iter"))
        else:
            x = I.mir.resolve("std::clone::Clone", "clone", [t])
            r = x is not None and x["derived"] and all(clone_ok(I, f["ty"]) for v in i["variants"] for f in v["fields"])
    elif k in ("closure", "dyn", "other"):
        r = k == "closure"
    memo[t] = r
    return r


# --------------------------------------------------------------- patterns

class CharPred:
    """predicate on one char term -> boolean term"""

    def __init__(self, f, chars=None):
        self.f, self.chars = f, chars


def pattern(I, p, pt):
    """str pattern argument -> CharPred or ('str', StrV)"""
    i = I.ty(pt)
    k = i["k"]
    if k == "char":
        if type(p) is int:
            return CharPred(lambda c: I.ctx.cmp("eq", c, p), (p,))
        return CharPred(lambda c: I.ctx.cmp("eq", c, p))
    if is_str_ty(I, pt):
        s = sv(I, p)
        c = s_conc(s)
        if c is not None and len(c) == 1:
            o = ord(c)
            return CharPred(lambda x: I.ctx.cmp("eq", x, o), (o,))
        return ("str", s)
    if k == "ref":
        e = I.ty(i["elem"])
        if e["k"] in ("slice", "array"):
            k = e["k"]
        else:
            return pattern(I, I.load(p) if type(p) is Ptr else p, i["elem"])
    if k in ("slice", "array"):
        l = [I.ctx.norm(x) for x in slice_seq(I, p)]
        if all(type(x) is int for x in l):
            rs = rs_of(l)
            return CharPred(lambda c: I.ctx.int_in(c, rs), tuple(l))
        raise Unsupported("symbolic pattern")
    if k in ("closure", "fndef", "fnptr"):
        return CharPred(lambda c: I.ctx.i2b(I.call_value(p, pt, [c])))
    raise Unsupported("string pattern of type " + i["s"])


def _dm_chars(a):
    return {c for d in a.dm for c in d}


def pieces(I, s, pat):
    """s as a list of units for searching a one-char predicate: ('skip', atom) atoms that cannot match,
    or ('c', char)."""
    ctx = I.ctx
    out = []
    for a in s.a:
        t = type(a)
        if t is str:
            for c in a:
                out.append(("c", ord(c)))
        elif t is Ch:
            out.append(("c", ctx.norm(a.v)))
        elif t is Dec and pat.chars is not None and not any(chr(c) in _dm_chars(a) for c in pat.chars):
            out.append(("skip", a))
        elif t is FS and pat.chars is not None and not any(
                chr(c) in a.tab[k] for c in pat.chars for k in rs_vals(ctx.dom[a.v])):
            out.append(("skip", a))
        elif t is Opq:
            raise Unsupported("search in an opaque string")
        else:
            for c in s_chars(ctx, StrV((a,))):
                out.append(("c", c))
    return out


def units_str(l):
    return s_make([chr(x[1]) if x[0] == "c" and type(x[1]) is int else Ch(x[1]) if x[0] == "c" else x[1] for x in l])


def find_matches(I, s, pat, limit=None):
    """(units, [(start,end)]) non-overlapping matches left to right"""
    ctx = I.ctx
    s = s_norm(ctx, s)
    if isinstance(pat, CharPred):
        us = pieces(I, s, pat)
        m = []
        for i, u in enumerate(us):
            if limit is not None and len(m) >= limit:
                break
            if u[0] == "c" and ctx.branch(pat.f(u[1])):
                m.append((i, i + 1))
        return us, m
    needle = s_chars(ctx, pat[1])
    if not needle:
        raise Unsupported("search of an empty string")
    nd = {chr(c) for c in needle if type(c) is int}
    us = []
    for a in s.a:
        if type(a) is Dec and not (nd & _dm_chars(a)):
            us.append(("skip", a))
        elif type(a) is Opq:
            raise Unsupported("search in an opaque string")
        else:
            us.extend(("c", c) for c in s_chars(ctx, StrV((a,))))
    m = []
    i = 0
    while i + len(needle) <= len(us):
        if limit is not None and len(m) >= limit:
            break
        ok = True
        for j, c in enumerate(needle):
            u = us[i + j]
            if u[0] != "c" or not ctx.branch(ctx.cmp("eq", u[1], c)):
                ok = False
                break
        if ok:
            m.append((i, i + len(needle)))
            i += len(needle)
        else:
            i += 1
    return us, m


def m_replace(I, s, pat, to, limit=None):
    ctx = I.ctx
    s = s_norm(ctx, s)
    if isinstance(pat, CharPred) and pat.chars is not None and limit is None:
        # atom-wise
        toc = s_conc(to)
        out = []
        for a in s.a:
            t = type(a)
            if t is str:
                cur = []
                hit = False
                for c in a:
                    if ord(c) in pat.chars:
                        hit = True
                        if cur:
                            out.append("".join(cur))
                            cur = []
                        out.extend(to.a)
                    else:
                        cur.append(c)
                if cur:
                    out.append("".join(cur))
                continue
            if t is Ch:
                c = ctx.int_in(a.v, rs_of(pat.chars))
                v = ctx.single(a.v)
                if c is False:
                    out.append(a)
                elif c is True:
                    out.extend(to.a)
                elif toc is not None and v is not None and ctx.small(v):
                    tb = ctx.fd_table(a.v, v)
                    tab = {k: toc if x in pat.chars else chr(x) for k, x in tb.items()}
                    if all(len(x) == 1 for x in tab.values()):
                        out.append(Ch(ctx.mk_fd(v, {k: ord(x) for k, x in tab.items()})))
                    else:
                        out.append(FS(v, tab))
                elif ctx.branch(c):
                    out.extend(to.a)
                else:
                    out.append(Ch(ctx.norm(a.v)))
                continue
            if t is Dec and toc is not None:
                out.append(Dec(a.n, tuple("".join(toc if ord(x) in pat.chars else x for x in d) for d in a.dm)))
                if out[-1].dm == ASCII_DIGITS:
                    out[-1] = Dec(a.n)
                continue
            if t is FS and toc is not None:
                out.append(FS(a.v, {k: "".join(toc if ord(x) in pat.chars else x for x in a.tab[k])
                                    for k in rs_vals(ctx.dom[a.v])}))
                continue
            if t is Opq:
                raise Unsupported("replace in an opaque string")
            for c in s_chars(ctx, StrV((a,))):
                if ctx.branch(ctx.int_in(c, rs_of(pat.chars))):
                    out.extend(to.a)
                else:
                    out.append(chr(c) if type(c) is int else Ch(c))
        return s_make(out)
    us, m = find_matches(I, s, pat, limit)
    out = []
    p = 0
    for a, b in m:
        out.append(units_str(us[p:a]))
        out.append(to)
        p = b
    out.append(units_str(us[p:]))
    return s_cat(*out)


def m_split(I, s, pat, limit=None):
    us, m = find_matches(I, s, pat, limit)
    out = []
    p = 0
    for a, b in m:
        out.append(units_str(us[p:a]))
        p = b
    out.append(units_str(us[p:]))
    return out


def fits_anchor(I, s, pat, end):
    """remaining string after stripping pat at the start/end, or None"""
    ctx = I.ctx
    s = s_norm(ctx, s)
    if isinstance(pat, CharPred):
        n = 1
        nd = None
    else:
        nd = s_chars(ctx, pat[1])
        n = len(nd)
    if n == 0:
        return s
    at = list(s.a)
    # expand only as many characters as needed
    cs = []
    while at and len(cs) < n:
        a = at.pop() if end else at.pop(0)
        if type(a) is Opq:
            raise Unsupported("prefix of an opaque string")
        x = s_chars(ctx, StrV((a,)))
        cs = x + cs if end else cs + x
    if len(cs) < n:
        return None
    test = cs[len(cs) - n:] if end else cs[:n]
    for i, c in enumerate(test):
        ok = pat.f(c) if nd is None else ctx.cmp("eq", c, nd[i])
        if not ctx.branch(ok):
            return None
    rest = cs[:len(cs) - n] if end else cs[n:]
    r = s_from_chars(rest)
    return s_cat(s_make(at), r) if end else s_cat(r, s_make(at))


def trim(I, s, pred, left=True, right=True):
    ctx = I.ctx
    s = s_norm(ctx, s)
    at = list(s.a)

    def side(at, end):
        while at:
            a = at[-1] if end else at[0]
            if type(a) is Dec and not any(pred_conc(I, pred, ord(c)) for c in _dm_chars(a)):
                return
            if type(a) is Opq:
                raise Unsupported("trimming an opaque string")
            cs = s_chars(ctx, StrV((a,)))
            while cs:
                c = cs[-1] if end else cs[0]
                if not ctx.branch(pred(c)):
                    break
                cs.pop() if end else cs.pop(0)
            new = list(s_from_chars(cs).a)
            if end:
                at[-1:] = new
            else:
                at[0:1] = new
            if new:
                return
    if left:
        side(at, False)
    if right:
        side(at, True)
    return s_make(at)


def pred_conc(I, pred, c):
    r = pred(c)
    if type(r) is bool:
        return r
    return True


def m_lines(I, s):
    nl = CharPred(lambda c: I.ctx.cmp("eq", c, 10), (10,))
    ps = m_split(I, s, nl)
    ctx = I.ctx
    if ctx.branch(str_is_empty(I, ps[-1])):
        ps.pop()
        had = True
    else:
        had = False
    out = []
    cr = CharPred(lambda c: ctx.cmp("eq", c, 13), (13,))
    for i, p in enumerate(ps):
        last = i == len(ps) - 1 and not had
        if not last and p.a:
            r = fits_anchor(I, p, cr, True)
            if r is not None:
                p = r
        out.append(p)
    return out


# --------------------------------------------------------------- parsing ints

def parse_int(I, s, bits, signed):
    ctx = I.ctx
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    s = s_norm(ctx, s)
    bad = ERR(Obj("parse_err", ()))
    if len(s.a) == 1 and type(s.a[0]) is Dec and s.a[0].dm == ASCII_DIGITS:
        n = s.a[0].n
        if ctx.branch(ctx.int_in(n, ((lo, hi),))):
            return OK(ctx.norm(n))
        return bad
    if any(type(a) is Opq for a in s.a):
        if len(s.a) != 1:
            raise Unsupported("parsing a partly opaque string")
        a = s.a[0]
        if a.none is not None and a.none[0] == "notint":
            return bad
        r = I.opq_parse_int(a, bits, signed)
        return bad if r is None else OK(r)
    cs = s_chars(ctx, s)
    if not cs:
        return bad
    neg = False
    c0 = cs[0]
    plus = ctx.branch(ctx.cmp("eq", c0, 43))
    minus = not plus and ctx.branch(ctx.cmp("eq", c0, 45))
    if plus or minus:
        if len(cs) == 1:
            return bad
        if minus and not signed:
            return bad
        neg = minus
        cs = cs[1:]
    tot = 0
    for c in cs:
        if not ctx.branch(ctx.int_in(c, DIG)):
            return bad
        tot = ctx.add(ctx.mul(tot, 10), ctx.add(ctx.norm(c), -48))
    if neg:
        tot = ctx.mul(tot, -1)
    if not ctx.branch(ctx.int_in(tot, ((lo, hi),))):
        return bad
    return OK(ctx.norm(tot))


# --------------------------------------------------------------- formatting

def display(I, p, t):
    """text written by Display for the value behind pointer p of type t"""
    ctx = I.ctx
    i = I.ty(t)
    k = i["k"]
    if k == "str" or (k == "adt" and i["path"] == "std::string::String"):
        return sv(I, p)
    if k == "ref":
        return display(I, I.load(p), i["elem"])
    if k == "adt" and i["path"] == "std::boxed::Box":
        return display(I, I.load(p), i["args"][0]["ty"])
    if k == "uint":
        return s_dec(ctx, I.load(p))
    if k == "int":
        v = ctx.norm(I.load(p))
        if type(v) is int:
            return S(str(v))
        if ctx.branch(ctx.cmp("lt", v, 0)):
            return s_cat(S("-"), s_dec(ctx, ctx.mul(v, -1)))
        return s_dec(ctx, v)
    if k == "char":
        return s_from_chars([ctx.norm(I.load(p))])
    if k == "bool":
        return S("true" if ctx.branch(I.load(p)) else "false")
    if k == "dyn":
        d = I.load(p) if type(p) is Ptr else p
        if type(d) is Obj and d.k == "dyn":
            return display(I, d.d[0], d.d[1])
    r = I.mir.resolve("std::fmt::Display", "fmt", [t])
    if r is None:
        raise Unsupported("Display of " + i["s"])
    buf = Cell(EMPTY)
    fm = Ptr(Cell(Obj("formatter", (buf,))))
    res = I.call_inst(r["inst"], [p, fm])
    return buf.v


def render(I, a):
    """fmt::Arguments -> StrV"""
    if type(a) is not Obj or a.k != "fmtargs":
        raise Unsupported("formatting arguments %r" % (a,))
    tmpl, args = a.d
    if tmpl is None:
        return args
    by = tmpl
    out = []
    i = n = 0
    while True:
        b = by[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(S(bytes(by[i:i + b]).decode("utf-8")))
            i += b
        elif b == 0x80:
            ln = by[i] | by[i + 1] << 8
            i += 2
            out.append(S(bytes(by[i:i + ln]).decode("utf-8")))
            i += ln
        else:
            fl = b & 0x3F
            idx = n
            opts = {}
            if fl & 1:
                opts["flags"] = int.from_bytes(bytes(by[i:i + 4]), "little")
                i += 4
            if fl & 2:
                opts["width"] = by[i] | by[i + 1] << 8
                i += 2
            if fl & 4:
                opts["prec"] = by[i] | by[i + 1] << 8
                i += 2
            if fl & 8:
                idx = by[i] | by[i + 1] << 8
                i += 2
            n = idx + 1
            k, t, p = args[idx].d
            if fl & ~0xF & ~0x30 or fl & 0x30:
                raise Unsupported("formatting options")
            if opts and k == "display":
                e = I.ty(t)
                while e["k"] == "ref":
                    e = I.ty(e["elem"])
                if e["k"] not in ("str", "uint", "int", "char") and e.get("path") != "std::string::String":
                    raise Unsupported("formatting options")
                out.append(pad(I, display(I, p, t), opts, "num" if e["k"] in ("uint", "int") else "str"))
                continue
            if k != "display":
                out.append(StrV((opq_new(I.ctx, "dbg"),)))
            else:
                out.append(display(I, p, t))
    return s_cat(*out)


# --------------------------------------------------------------- iterators

def it_native(v):
    return type(v) is Obj and v.k in ("seqit", "slit", "zip", "mapit")


def seqit(items):
    items = tuple(items)
    return Obj("seqit", (items, 0, len(items)))


def it_next(I, p, back=False):
    """next on a native iterator stored at p; returns Option value"""
    v = I.load(p)
    k = v.k
    if k == "seqit":
        items, i, j = v.d
        if i >= j:
            return NONE
        if back:
            I.store(p, Obj("seqit", (items, i, j - 1)))
            return SOME(items[j - 1])
        I.store(p, Obj("seqit", (items, i + 1, j)))
        return SOME(items[i])
    if k == "slit":
        c, pp, i, j = v.d
        if i >= j:
            return NONE
        if back:
            I.store(p, Obj("slit", (c, pp, i, j - 1)))
            return SOME(Ptr(c, pp + (j - 1,)))
        I.store(p, Obj("slit", (c, pp, i + 1, j)))
        return SOME(Ptr(c, pp + (i,)))
    if k == "zip":
        ca, ta, cb, tb = v.d
        x = next_of(I, ta)(Ptr(ca))
        if x.var == 0:
            return NONE
        y = next_of(I, tb)(Ptr(cb))
        if y.var == 0:
            return NONE
        return SOME(TUP(x.f[0], y.f[0]))
    raise Unsupported("iterator " + k)


def it_len(I, p):
    v = I.load(p)
    if v.k in ("seqit", "slit"):
        return v.d[-1] - v.d[-2]
    raise Unsupported("length of iterator " + v.k)


def next_of(I, t, back=False):
    """function(ptr to iterator) -> Option, for iterator type t"""
    key = ("next", t, back)
    f = I.fn_handler_cache.get(key)
    if f is not None:
        return f
    i = I.ty(t)
    if i["k"] == "ref":
        g = next_of(I, i["elem"], back)
        f = lambda p: g(I.load(p))      # noqa: E731
    else:
        r = I.mir.resolve("std::iter::DoubleEndedIterator" if back else "std::iter::Iterator", "next_back" if back else "next", [t])
        if r is None:
            raise Unsupported("no iterator: " + i["s"])
        inst = r["inst"]

        def f(p):
            v = I.load(p)
            if it_native(v):
                return it_next(I, p, back)
            o = I.call_raw(inst, [p])
            return norm_opt(I, o)
    I.fn_handler_cache[key] = f
    return f


def norm_opt(I, o):
    if type(o) is FD:
        o = I.conc_fd(o)
    elif type(o) in (Lazy, Tok):
        o = I.force_lazy(o)
    return o


def drain_it(I, p, t, back=False):
    nx = next_of(I, t, back)
    while True:
        o = nx(p)
        if type(o) is not Agg:
            o = norm_opt(I, o)
        if o.var == 0:
            return
        yield o.f[0]


def collect_into(I, items, target, item_ty=None):
    """FromIterator"""
    i = I.ty(target)
    p = i.get("path", "")
    if p == "std::vec::Vec":
        return Seq(tuple(items))
    if p == "std::boxed::Box":
        return Ptr(Cell(Seq(tuple(items))))
    if p == "std::string::String":
        return s_cat(*[as_str_item(I, x) for x in items])
    if p == "std::option::Option":
        out = []
        for x in items:
            x = norm_opt(I, x)
            if x.var == 0:
                return NONE
            out.append(x.f[0])
        return SOME(collect_into(I, out, i["args"][0]["ty"]))
    if p == "std::result::Result":
        out = []
        for x in items:
            x = norm_opt(I, x)
            if x.var == 1:
                return x
            out.append(x.f[0])
        return OK(collect_into(I, out, i["args"][0]["ty"]))
    if p in MAPS or p in SETS:
        return map_of(I, p, items)
    if i["k"] == "tuple" and not i["elems"]:
        for _ in items:
            pass
        return UNIT
    if p == "std::collections::VecDeque":
        return Seq(tuple(items))
    raise Unsupported("collect into " + i["s"])


def as_str_item(I, x):
    x = I.force(x)
    if type(x) in (int,) + SYMI:
        return s_from_chars([I.ctx.norm(x)])
    if type(x) is Ptr:
        v = I.load(x)
        if type(v) in (int,) + SYMI:
            return s_from_chars([I.ctx.norm(v)])
    return sv(I, x)


# --------------------------------------------------------------- maps

def map_find(I, m, k):
    for n, (ek, ev) in enumerate(m.e):
        if I.ctx.branch(veq(I, ek, k)):
            return n
    return None


def map_insert(I, m, k, v):
    n = map_find(I, m, k)
    if n is None:
        at = len(m.e)
        if m.o:
            at = 0
            while at < len(m.e) and vcmp(I, m.e[at][0], k) == 0:
                at += 1
        return MapV(m.e[:at] + ((k, v),) + m.e[at:], m.o), NONE
    old = m.e[n][1]
    return MapV(m.e[:n] + ((m.e[n][0], v),) + m.e[n + 1:], m.o), SOME(old)


MAPS = {"std::collections::HashMap": False, "std::collections::BTreeMap": True}
SETS = {"std::collections::HashSet": False, "std::collections::BTreeSet": True}


def map_of(I, path, items):
    m = MapV((), MAPS.get(path, False) or SETS.get(path, False))
    for x in items:
        k, v = (x, UNIT) if path in SETS else x.f
        m, _ = map_insert(I, m, k, v)
    return m


def deref_key(I, k):
    while type(k) is Ptr:
        k = I.load(k)
    return k


# --------------------------------------------------------------- handlers

TRAIT = {}     # "std::iter::Iterator::collect" -> factory(I, t) -> handler or None
PATH = {}      # resolved path -> factory(I, inst) -> handler or None


def trait(*names):
    def d(f):
        for n in names:
            TRAIT[n] = f
        return f
    return d


def path(*names):
    def d(f):
        for n in names:
            PATH[n] = f
        return f
    return d


def simple(*names):
    """handler(I, args) by path"""
    def d(f):
        for n in names:
            PATH[n] = lambda I, t, f=f: (lambda a: f(I, *a))
        return f
    return d


def targs(t):
    return [a["ty"] for a in t["args"] if a["k"] == "ty"]


def raw(I, t):
    inst = t["inst"]
    if inst is None:
        raise Unsupported("unresolved " + t["path"])
    return raw_inst(I, inst)


def raw_inst(I, inst):
    if not inst["has_body"]:
        if inst.get("ctor") is not None:
            return lambda a, k=inst["ctor"]: Agg(k, tuple(a))
        return None
    n = inst["inst"]
    box = []

    def h(a):
        if not box:
            box.append(I.body(n))
        return I.run_body(box[0], a)
    return h


# --- Iterator

@trait("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def _next(I, t):
    back = t["path"].endswith("next_back")
    st = targs(t)[0]
    f = next_of(I, st, back)
    return lambda a: f(a[0])


CONS_VAL = {}
CONS_REF = {}


def cons(name, byref=False):
    def d(f):
        def fac(I, t):
            ts = targs(t)
            st = ts[0]

            def h(a):
                I.ctx.stats.models[t["path"]] = I.ctx.stats.models.get(t["path"], 0) + 1
                p = a[0] if byref else Ptr(Cell(a[0]))
                return f(I, p, st, ts[1:], a[1:])
            return h
        TRAIT["std::iter::Iterator::" + name] = fac
        return f
    return d


@cons("collect")
def _collect(I, p, st, ts, a):
    return collect_into(I, drain_it(I, p, st), ts[0])


@cons("count")
def _count(I, p, st, ts, a):
    return sum(1 for _ in drain_it(I, p, st))


@cons("last")
def _last(I, p, st, ts, a):
    r = NONE
    for x in drain_it(I, p, st):
        r = SOME(x)
    return r


@cons("for_each")
def _for_each(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        I.call_closure_ptr(f, ts[0], [x])
    return UNIT


@cons("fold")
def _fold(I, p, st, ts, a):
    acc = a[0]
    f = Ptr(Cell(a[1]))
    for x in drain_it(I, p, st):
        acc = I.call_closure_ptr(f, ts[1], [acc, x])
    return acc


@cons("reduce")
def _reduce(I, p, st, ts, a):
    acc = None
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        acc = x if acc is None else I.call_closure_ptr(f, ts[0], [acc, x])
    return NONE if acc is None else SOME(acc)


def ref_arg(x):
    return Ptr(Cell(x))


@cons("find", True)
def _find(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[0], [ref_arg(x)]))):
            return SOME(x)
    return NONE


@cons("find_map", True)
def _find_map(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        r = norm_opt(I, I.call_closure_ptr(f, ts[1], [x]))
        if r.var == 1:
            return r
    return NONE


@cons("position", True)
def _position(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for n, x in enumerate(drain_it(I, p, st)):
        if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[0], [x]))):
            return SOME(n)
    return NONE


@cons("rposition", True)
def _rposition(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    n = it_len(I, p)
    for x in drain_it(I, p, st, True):
        n -= 1
        if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[0], [x]))):
            return SOME(n)
    return NONE


@cons("any", True)
def _any(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[0], [x]))):
            return True
    return False


@cons("all", True)
def _all(I, p, st, ts, a):
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        if not I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[0], [x]))):
            return False
    return True


@cons("nth", True)
def _nth(I, p, st, ts, a):
    n = I.conc_int(a[0])
    nx = next_of(I, st)
    for _ in range(n):
        if norm_opt(I, nx(p)).var == 0:
            return NONE
    return nx(p)


@cons("advance_by", True)
def _advance_by(I, p, st, ts, a):
    n = I.conc_int(a[0])
    nx = next_of(I, st)
    for k in range(n):
        if norm_opt(I, nx(p)).var == 0:
            return ERR(n - k)
    return OK(UNIT)


@cons("size_hint", True)
def _size_hint(I, p, st, ts, a):
    v = I.load(p)
    if it_native(v) and v.k != "zip":
        n = it_len(I, p)
        return TUP(n, SOME(n))
    return TUP(0, NONE)


@cons("sum")
def _sum(I, p, st, ts, a):
    acc = 0
    bits, sg = I.bits(ts[0])
    if bits is None:
        i = I.ty(ts[0])
        if i.get("path") in ("std::option::Option", "std::result::Result") and I.bits(i["args"][0]["ty"])[0] is not None:
            bits, sg = I.bits(i["args"][0]["ty"])
            good = 1 if i["path"] == "std::option::Option" else 0
            for x in drain_it(I, p, st):
                x = norm_opt(I, x)
                if x.var != good:
                    return x
                acc = I.ctx.add(acc, x.f[0])
                chk_int(I, acc, bits, sg)
            return Agg(good, (acc,))
        raise Unsupported("sum")
    for x in drain_it(I, p, st):
        acc = I.ctx.add(acc, I.load(x) if type(x) is Ptr else x)
        chk_int(I, acc, bits, sg)
    return acc


@cons("product")
def _product(I, p, st, ts, a):
    acc = 1
    bits, sg = I.bits(ts[0])
    if bits is None:
        raise Unsupported("product")
    for x in drain_it(I, p, st):
        acc = I.ctx.mul(acc, I.load(x) if type(x) is Ptr else x)
        chk_int(I, acc, bits, sg)
    return acc


def chk_int(I, v, bits, sg):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    if not I.ctx.branch(I.ctx.int_in(v, ((lo, hi),))):
        raise Panic("arithmetic overflow")


def _maxmin(name, want_max, mode):
    def f(I, p, st, ts, a):
        best = bk = None
        fp = Ptr(Cell(a[0])) if a else None
        for x in drain_it(I, p, st):
            if mode == "key":
                k = I.call_closure_ptr(fp, ts[1], [ref_arg(x)])
            else:
                k = x
            if best is None:
                best, bk = x, k
                continue
            if mode == "by":
                c = I.call_closure_ptr(fp, ts[0], [ref_arg(bk), ref_arg(k)])
                c = I.discr_conc(c)
            else:
                c = vcmp(I, bk, k)
            if (c != 2) if want_max else (c == 2):
                best, bk = x, k
        return NONE if best is None else SOME(best)
    cons(name)(f)


for _nm, _mx in (("max", True), ("min", False)):
    _maxmin(_nm, _mx, "plain")
    _maxmin(_nm + "_by_key", _mx, "key")
    _maxmin(_nm + "_by", _mx, "by")


@cons("try_for_each", True)
def _try_for_each(I, p, st, ts, a):
    return _try(I, p, st, ts, None, a[0], ts[0], ts[1])


@cons("try_fold", True)
def _try_fold(I, p, st, ts, a):
    return _try(I, p, st, ts, (a[0],), a[1], ts[1], ts[2])


def _try(I, p, st, ts, acc, f, ft, rt):
    """try_fold over Option / Result / ControlFlow"""
    i = I.ty(rt)
    pth = i.get("path", "")
    good = {"std::option::Option": 1, "std::result::Result": 0, "std::ops::ControlFlow": 0}.get(pth)
    if good is None:
        raise Unsupported("try_fold with " + i["s"])
    fp = Ptr(Cell(f))
    for x in drain_it(I, p, st):
        r = norm_opt(I, I.call_closure_ptr(fp, ft, ([acc[0]] if acc is not None else []) + [x]))
        if r.var != good:
            return r
        if acc is not None:
            acc = (r.f[0],)
    return Agg(good, (acc[0] if acc is not None else UNIT,))


@cons("partition")
def _partition(I, p, st, ts, a):
    l, r = [], []
    f = Ptr(Cell(a[0]))
    for x in drain_it(I, p, st):
        (l if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ts[1], [ref_arg(x)]))) else r).append(x)
    return TUP(collect_into(I, l, ts[0]), collect_into(I, r, ts[0]))


@cons("unzip")
def _unzip(I, p, st, ts, a):
    l, r = [], []
    for x in drain_it(I, p, st):
        l.append(x.f[0])
        r.append(x.f[1])
    return TUP(collect_into(I, l, ts[2]), collect_into(I, r, ts[3]))


@cons("eq")
def _iter_eq(I, p, st, ts, a):
    x = list(drain_it(I, p, st))
    r = I.mir.resolve("std::iter::IntoIterator", "into_iter", [ts[0]])
    y = list(drain_it(I, Ptr(Cell(a[0])), ts[0])) if not type(a[0]) is Seq else list(a[0].f)
    return veq(I, Seq(tuple(x)), Seq(tuple(y)))


@trait("std::iter::Iterator::zip")
def _zip(I, t):
    ts = targs(t)

    def h(a):
        b, bt = a[1], ts[1]
        r = I.mir.resolve("std::iter::IntoIterator", "into_iter", [bt])
        b = I.call_inst(r["inst"], [b]) if not it_native(b) else b
        # type of the converted iterator
        bt2 = I.mir.sig(r["inst"])["ret"]
        return Obj("zip", (Cell(a[0]), ts[0], Cell(b), bt2))
    return h


@trait("std::iter::ExactSizeIterator::len")
def _ilen(I, t):
    ts = targs(t)

    def h(a):
        v = I.load(a[0])
        if it_native(v):
            return it_len(I, a[0])
        c = Ptr(Cell(v))
        return sum(1 for _ in drain_it(I, c, ts[0]))
    return h


@trait("std::iter::IntoIterator::into_iter")
def _into_iter(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if i["k"] == "adt" and i["path"] in ("std::vec::Vec", "std::collections::VecDeque"):
        return lambda a: seqit(slice_seq(I, a[0]))
    if i["k"] == "array":
        return lambda a: seqit(slice_seq(I, a[0]))
    if i["k"] == "ref":
        e = I.ty(i["elem"])
        if e["k"] in ("slice", "array") or (e["k"] == "adt" and e["path"] in ("std::vec::Vec",)):
            def h(a):
                s = as_slice(I, a[0])
                return Obj("slit", (s.c, s.p, s.s, s.e))
            return h
        if e["k"] == "adt" and e["path"] in MAPS:
            mut = i.get("mut") or i["s"].startswith("&mut")
            return lambda a: map_iter(I, a[0], mut)
        if e["k"] == "adt" and e["path"] in SETS:
            return lambda a: seqit([Ptr(Cell(k)) for k, _ in map_val(I, a[0]).e])
    if i["k"] == "adt" and i["path"] in MAPS:
        return lambda a: seqit([TUP(k, v) for k, v in map_val(I, a[0]).e])
    if i["k"] == "adt" and i["path"] in SETS:
        return lambda a: seqit([k for k, _ in map_val(I, a[0]).e])
    inst = t["inst"]
    if inst and inst["path"].startswith("<I as"):
        return lambda a: a[0]
    return raw(I, t)


def map_val(I, p):
    v = p
    while type(v) is Ptr:
        v = I.load(v)
    v = I.force(v)
    if type(v) is not MapV:
        raise Unsupported("map expected, got %r" % (v,))
    return v


def map_ptr(p):
    while type(p.c.v) is Ptr and not p.p:
        p = p.c.v
    return p


def map_iter(I, p, mut=False):
    m = map_val(I, p)
    if len(m.e) > 1 and not m.o:
        I.ctx.notes.append("hash map iteration order taken as insertion order")
    if mut:
        p = map_ptr(p)
        return seqit([TUP(Ptr(Cell(k)), Ptr(p.c, p.p + (n,))) for n, (k, v) in enumerate(m.e)])
    return seqit([TUP(Ptr(Cell(k)), Ptr(Cell(v))) for k, v in m.e])


@trait("std::iter::FromIterator::from_iter")
def _from_iter(I, t):
    ts = targs(t)

    def h(a):
        it = a[0]
        if type(it) is Seq:
            items = list(it.f)
        else:
            r = I.mir.resolve("std::iter::IntoIterator", "into_iter", [ts[2]])
            it = I.call_inst(r["inst"], [it])
            items = drain_it(I, Ptr(Cell(it)), I.mir.sig(r["inst"])["ret"])
        return collect_into(I, items, ts[0])
    return h


@trait("std::iter::Extend::extend")
def _extend(I, t):
    ts = targs(t)
    i0 = I.ty(ts[0])
    if i0["k"] == "adt" and i0["path"].split("::")[0] not in ("std", "alloc", "core", "hashbrown"):
        return raw(I, t)

    def h(a):
        it = a[1]
        v = I.force(I.load(a[0]))
        i = I.ty(ts[2])
        if type(it) is Seq:
            items = list(it.f)
        else:
            r = I.mir.resolve("std::iter::IntoIterator", "into_iter", [ts[2]])
            if r is None:
                raise Unsupported("extend from " + i["s"])
            it2 = I.call_inst(r["inst"], [it])
            if it_native(it2):
                c = Ptr(Cell(it2))
                items = []
                while True:
                    o = it_next(I, c)
                    if o.var == 0:
                        break
                    items.append(o.f[0])
            else:
                items = list(drain_it(I, Ptr(Cell(it2)), I.mir.sig(r["inst"])["ret"]))
        if type(v) is Seq:
            if I.ty(ts[1])["k"] == "ref":
                items = [I.load(x) if type(x) is Ptr else x for x in items]
            I.store(a[0], Seq(v.f + tuple(items)))
        elif type(v) is StrV:
            I.store(a[0], s_cat(v, *[as_str_item(I, x) for x in items]))
        elif type(v) is MapV:
            for x in items:
                v, _ = map_insert(I, v, *((x, UNIT) if type(x) is not Agg or i0.get('path') in SETS else x.f))
            I.store(a[0], v)
        else:
            raise Unsupported("extend")
        return UNIT
    return h


# --- equality, ordering, clone, default

@trait("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _peq(I, t):
    neg = t["path"].endswith("::ne")
    ts = targs(t)
    ok = is_str_ty(I, ts[0]) and is_str_ty(I, ts[1])
    if not ok:
        ok = eq_ok(I, ts[0]) and eq_ok(I, ts[1])
    if not ok:
        return raw(I, t)

    def h(a):
        r = veq(I, a[0], a[1])
        return I.ctx.b_not(r) if neg else r
    return h


@trait("std::cmp::Ord::cmp")
def _ocmp(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if i["k"] in ("int", "uint", "char", "bool") or is_str_ty(I, st):
        return lambda a: ordv(vcmp(I, a[0], a[1]))
    return raw(I, t)


@trait("std::cmp::PartialOrd::partial_cmp")
def _pcmp(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if i["k"] in ("int", "uint", "char", "bool") or is_str_ty(I, st):
        return lambda a: SOME(ordv(vcmp(I, a[0], a[1])))
    return raw(I, t)


@trait("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _plt(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    op = t["path"][-2:]
    while i["k"] == "ref":
        i = I.ty(i["elem"])
    if i["k"] in ("int", "uint", "char"):
        def h(a):
            x, y = a
            while type(x) is Ptr:
                x = I.load(x)
            while type(y) is Ptr:
                y = I.load(y)
            return I.ctx.cmp(op, x, y)
        return h
    return raw(I, t)


@trait("std::cmp::Ord::max", "std::cmp::Ord::min")
def _omax(I, t):
    mx = t["path"].endswith("max")

    def h(a):
        c = vcmp(I, a[0], a[1])
        if mx:
            return a[0] if c == 2 else a[1]
        return a[1] if c == 2 else a[0]
    return h


def deep_clone(I, v, t):
    """copy with fresh heap cells"""
    v0 = v
    i = I.ty(t)
    if clone_ok(I, t):
        return v
    if type(v) is Obj and v.k == "bytes":
        return v
    if type(v) is FD:
        v = I.conc_fd(v)
    if i["k"] == "adt" and i["path"] == "std::boxed::Box":
        e = i["args"][0]["ty"]
        if I.ty(e)["k"] == "dyn":
            raise Unsupported("clone of a boxed trait object")
        return Ptr(Cell(deep_clone(I, I.load(v), e)))
    if type(v) is Lazy or type(v) is Tok:
        return v
    if i["k"] == "adt" and i["path"] == "std::vec::Vec":
        return Seq(tuple(deep_clone(I, x, i["args"][0]["ty"]) for x in I.force(v).f))
    if i["k"] == "adt" and i["path"] == "std::option::Option":
        return v if v.var == 0 else SOME(deep_clone(I, v.f[0], i["args"][0]["ty"]))
    r = I.mir.resolve("std::clone::Clone", "clone", [t])
    if i["k"] == "adt" and r is not None and r["derived"] and type(v) is Agg:
        fs = i["variants"][v.var]["fields"]
        return Agg(v.var, tuple(deep_clone(I, x, f["ty"]) for x, f in zip(v.f, fs)))
    if r is None:
        raise Unsupported("clone of " + i["s"])
    return I.call_raw(r["inst"], [Ptr(Cell(v))])


@trait("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def _clone(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if i["k"] == "adt" and i["path"] in ("std::rc::Rc", "std::sync::Arc"):
        return lambda a: I.load(a[0])
    if i["k"] == "adt" and i["path"] == "std::borrow::Cow" and t["path"].endswith("::clone") and is_str_ty(I, i["args"][-1]["ty"]):
        return lambda a: I.load(a[0])
    if is_str_ty(I, st) and i["k"] != "ref":
        return lambda a: sv(I, a[0])
    if i["k"] == "slice":
        def hs(a):
            return Seq(tuple(deep_clone(I, x, i["elem"]) for x in slice_seq(I, a[0])))
        return hs
    if i["k"] in ("ref", "int", "uint", "bool", "char", "fndef", "closure", "ptr"):
        return lambda a: I.load(a[0])
    if clone_ok(I, st):
        return lambda a: I.load(a[0])
    r = I.mir.resolve("std::clone::Clone", "clone", [st])
    if i["k"] == "adt" and (is_std(i["path"]) or (r and r["derived"])):
        return lambda a: deep_clone(I, I.load(a[0]), st)
    return raw(I, t)


@trait("std::default::Default::default")
def _default(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    p = i.get("path", "")
    if p == "std::string::String" or i["k"] == "str":
        return lambda a: EMPTY
    if p == "std::vec::Vec":
        return lambda a: Seq(())
    if p == "std::option::Option":
        return lambda a: NONE
    if p in MAPS or p in SETS:
        return lambda a: map_of(I, p, ())
    if i["k"] in ("int", "uint", "char"):
        return lambda a: 0
    if i["k"] == "bool":
        return lambda a: False
    if i["k"] == "ref" and I.ty(i["elem"])["k"] == "str":
        return lambda a: EMPTY
    return raw(I, t)


# --- string conversions

@trait("std::string::ToString::to_string")
def _to_string(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    inst = t["inst"]
    blanket = inst is not None and inst["path"].startswith(("<T as std::string::ToString>", "<T as std::string::SpecToString>"))
    if blanket or is_str_ty(I, st) or i["k"] in ("int", "uint", "char", "bool"):
        return lambda a: display(I, a[0], st)
    return raw(I, t)


@trait("std::fmt::Display::fmt")
def _disp_fmt(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if is_str_ty(I, st) or i["k"] in ("int", "uint", "char", "bool", "ref"):
        def h(a):
            fmt_write(I, a[1], display(I, a[0], st))
            return OK(UNIT)
        return h
    return raw(I, t)


@trait("std::fmt::Debug::fmt")
def _dbg_fmt(I, t):
    def h(a):
        fmt_write(I, a[1], StrV((opq_new(I.ctx, "dbg"),)))
        return OK(UNIT)
    return h


@trait("std::fmt::Write::write_str", "std::fmt::Write::write_char", "std::fmt::Write::write_fmt")
def _wstr(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    m = t["path"].rsplit("::", 1)[1]
    if i["k"] == "adt" and i["path"] in ("std::string::String", "std::fmt::Formatter"):
        def h(a):
            x = render(I, a[1]) if m == "write_fmt" else sv(I, a[1]) if m == "write_str" else s_from_chars([I.ctx.norm(a[1])])
            v = I.load(a[0])
            if type(v) is Obj and v.k == "formatter":
                fmt_write(I, a[0], x)
            else:
                I.store(a[0], s_cat(sv(I, v), x))
            return OK(UNIT)
        return h
    return raw(I, t)


def fmt_write(I, fp, s):
    f = I.load(fp)
    c = f.d[0]
    I.wr(c, s_cat(c.v, s))


@simple("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "std::fmt::Formatter::<'_>::write_str")
def _f_ws(I, f, s):
    fmt_write(I, f, sv(I, s))
    return OK(UNIT)


@simple("std::fmt::Formatter::<'a>::write_fmt")
def _f_wf(I, f, a):
    fmt_write(I, f, render(I, a))
    return OK(UNIT)


@trait("std::convert::From::from")
def _from(I, t):
    ts = targs(t)
    i = I.ty(ts[0])
    if i["k"] == "adt" and i["path"] == "std::borrow::Cow" and is_str_ty(I, i["args"][-1]["ty"]):
        src = I.ty(ts[1])
        if src["k"] == "adt" and src["path"] == "std::string::String":
            return lambda a: Agg(1, (sv(I, a[0]),))
        return lambda a: Agg(0, (sv(I, a[0]),))
    if is_str_ty(I, ts[0]) and is_str_ty(I, ts[1]):
        return lambda a: sv(I, a[0])
    if is_str_ty(I, ts[0]) and I.ty(ts[1])["k"] == "char":
        return lambda a: s_from_chars([I.ctx.norm(a[0])])
    if i["k"] == "adt" and i["path"] == "std::vec::Vec":
        return lambda a: Seq(slice_seq(I, a[0]))
    if i["k"] == "adt" and (i["path"] in MAPS or i["path"] in SETS):
        return lambda a: map_of(I, i["path"], slice_seq(I, a[0]))
    if i["k"] == "adt" and i["path"] == "std::boxed::Box":
        if I.ty(i["args"][0]["ty"])["k"] == "str":
            return lambda a: sv(I, a[0])
        return lambda a: Ptr(Cell(a[0]))
    if i["k"] in ("int", "uint", "char") and I.ty(ts[1])["k"] in ("int", "uint", "char", "bool"):
        return lambda a: I.ctx.b2i(I.ctx.norm(a[0]))
    return raw(I, t)


@trait("std::convert::TryFrom::try_from")
def _tryfrom(I, t):
    ts = targs(t)
    i = I.ty(ts[0])
    if i["k"] in ("int", "uint") and I.ty(ts[1])["k"] in ("int", "uint", "char"):
        bits, sg = I.bits(ts[0])
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)

        def h(a):
            if I.ctx.branch(I.ctx.int_in(a[0], ((lo, hi),))):
                return OK(I.ctx.norm(a[0]))
            return ERR(Obj("parse_err", ()))
        return h
    return raw(I, t)


@trait("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow")
def _asref(I, t):
    ts = targs(t)
    if is_str_ty(I, ts[0]) and len(ts) > 1 and I.ty(ts[1])["k"] == "str":
        return lambda a: sv(I, a[0])
    i = I.ty(ts[0])
    if i["k"] == "adt" and i["path"] == "std::vec::Vec":
        return lambda a: as_slice(I, a[0]) if I.ty(ts[1])["k"] == "slice" else a[0]
    return raw(I, t)


@trait("std::str::FromStr::from_str")
def _fromstr(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    if i["k"] in ("int", "uint"):
        bits, sg = I.bits(st)
        return lambda a: parse_int(I, sv(I, a[0]), bits, sg)
    if is_str_ty(I, st):
        return lambda a: OK(sv(I, a[0]))
    if i["k"] == "bool":
        def hb(a):
            s = sv(I, a[0])
            if I.ctx.branch(s_eq(I.ctx, s, S("true"))):
                return OK(True)
            if I.ctx.branch(s_eq(I.ctx, s, S("false"))):
                return OK(False)
            return ERR(Obj("parse_err", ()))
        return hb
    if i["k"] == "char":
        def hc(a):
            cs = s_chars(I.ctx, sv(I, a[0]))
            return OK(cs[0]) if len(cs) == 1 else ERR(Obj("parse_err", ()))
        return hc
    return raw(I, t)


@path("core::str::<impl str>::parse")
def _parse(I, t):
    st = targs(t)[0]
    r = I.mir.resolve("std::str::FromStr", "from_str", [st])
    if r is None:
        raise Unsupported("parse")
    h = handler_trait(I, "std::str::FromStr::from_str", [st], r)
    return h


# --- deref / index

TRAIT_DEREF = set()


@trait("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(I, t):
    st = targs(t)[0]
    i = I.ty(st)
    p = i.get("path", "")
    if p == "std::string::String":
        if t["path"].endswith("_mut"):
            raise Unsupported("String::deref_mut")
        return lambda a: sv(I, a[0])
    if p == "std::vec::Vec":
        def h(a):
            q = a[0]
            if type(q) is SliceRef:
                return q
            return SliceRef(q.c, q.p, 0, None)
        return h
    if p == "std::boxed::Box" or p in TRAIT_DEREF:
        return lambda a: I.load(a[0])
    if p in ("std::sync::LazyLock", "std::cell::LazyCell"):
        def hl(a):
            q = a[0]
            key = ("lazylock", id(q.c), q.p)
            r = I.ctx.lazies.get(key)
            if r is None:
                f = find_fn(I, I.load(q))
                if f is None:
                    raise Unsupported("lazy static")
                r = Cell(I.call_value(f, i["args"][1]["ty"] if len(i["args"]) > 1 else None, []))
                I.ctx.lazies[key] = r
            return Ptr(r)
        return hl
    return raw(I, t)


def find_fn(I, v):
    if type(v) in (FnPtr, FnV):
        return v
    if type(v) is Agg:
        for x in v.f:
            r = find_fn(I, x)
            if r is not None:
                return r
    return None


def range_bounds(I, r, rt, n):
    i = I.ty(rt)
    p = i.get("path", "")
    ctx = I.ctx
    if p == "std::ops::RangeFull":
        return 0, n
    f = [I.conc_int(x) for x in r.f if type(x) is not bool]
    if p == "std::ops::Range":
        return f[0], f[1]
    if p == "std::ops::RangeFrom":
        return f[0], n
    if p == "std::ops::RangeTo":
        return 0, f[0]
    if p == "std::ops::RangeToInclusive":
        return 0, f[0] + 1
    if p == "std::ops::RangeInclusive":
        return f[0], f[1] + 1
    raise Unsupported("index by " + i["s"])


def str_slice(I, s, r, rt):
    """byte-indexed slice; None when out of range / not on a boundary. The widths of characters are decided only as far
    as the bounds need."""
    ctx = I.ctx
    a, b = range_bounds(I, r, rt, None)
    if a == 0 and b is None:
        return s
    cs = [ctx.norm(c) for c in s_chars(ctx, s)]
    pos = 0
    x = None
    for i, c in enumerate(cs):
        if pos == a:
            x = i
            if b is None:
                return s_from_chars(cs[i:])
        if b is not None and pos >= b:
            break
        if pos > a and x is None:
            return None
        pos += str_len(I, s_from_chars([c]))
    else:
        i = len(cs)
        if pos == a:
            x = i
    if x is None or a > (pos if b is None else b) or (b is not None and pos != b):
        return None
    return s_from_chars(cs[x:i])


@trait("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(I, t):
    ts = targs(t)
    i = I.ty(ts[0])
    p = i.get("path", "")
    it = I.ty(ts[1])
    if p == "std::vec::Vec" or i["k"] in ("slice", "array"):
        if it["k"] == "uint":
            def h(a):
                s = as_slice(I, a[0])
                n = s.e - s.s
                k = I.ctx.norm(a[1])
                if not I.ctx.branch(I.ctx.int_in(k, ((0, n - 1),))):
                    raise Panic("index out of bounds")
                return sl_ptr(s, I.conc_int(k))
            return h

        def hr(a):
            s = as_slice(I, a[0])
            x, y = range_bounds(I, a[1], ts[1], s.e - s.s)
            if x > y or y > s.e - s.s:
                raise Panic("slice index out of range")
            return SliceRef(s.c, s.p, s.s + x, s.s + y)
        return hr
    if is_str_ty(I, ts[0]):
        def hs(a):
            r = str_slice(I, sv(I, a[0]), a[1], ts[1])
            if r is None:
                raise Panic("string index out of range")
            return r
        return hs
    if p in MAPS:
        def hm(a):
            m = map_val(I, a[0])
            n = map_find(I, m, deref_key(I, a[1]))
            if n is None:
                raise Panic("key not found")
            return Ptr(Cell(m.e[n][1]))
        return hm
    if p == "regex::Captures":
        def hc(a):
            c = I.load(a[0])
            if it["k"] == "uint":
                r = cap_group(I, c, I.conc_int(a[1]))
            else:
                r = cap_name(I, c, sv(I, a[1]))
            if r is None:
                raise Panic("no such capture group")
            return r
        return hc
    return raw(I, t)


# --- function traits

@trait("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _fncall(I, t):
    st = targs(t)[0]
    m = t["path"].rsplit("::", 1)[1]

    def h(a):
        args = list(a[1].f)
        if m == "call_once":
            i = I.ty(st)
            if i["k"] == "closure":
                return I.call_closure_ptr(Ptr(Cell(a[0])), st, args)
            return I.call_value(a[0], st, args)
        return I.call_closure_ptr(a[0], st, args)
    return h


# --- arithmetic operator traits on primitives (generic code)

@trait("std::ops::Add::add", "std::ops::AddAssign::add_assign")
def _addop(I, t):
    ts = targs(t)
    i = I.ty(ts[0])
    if i.get("path") == "std::string::String":
        if t["path"].endswith("assign"):
            def h(a):
                I.store(a[0], s_cat(sv(I, I.load(a[0])), sv(I, a[1])))
                return UNIT
            return h
        return lambda a: s_cat(sv(I, a[0]), sv(I, a[1]))
    return raw(I, t)


# --- String

@simple("std::string::String::new", "std::string::String::with_capacity")
def _snew(I, *a):
    return EMPTY


@simple("std::string::String::push_str")
def _push_str(I, p, s):
    I.store(p, s_cat(sv(I, I.load(p)), sv(I, s)))
    return UNIT


@simple("std::string::String::push")
def _push_ch(I, p, c):
    c = I.ctx.norm(c)
    I.store(p, s_cat(sv(I, I.load(p)), s_from_chars([c])))
    return UNIT


@simple("std::string::String::pop")
def _spop(I, p):
    s = sv(I, I.load(p))
    if not s.a:
        return NONE
    cs = s_chars(I.ctx, StrV((s.a[-1],)))
    if not cs:
        return NONE
    I.store(p, s_cat(s_make(s.a[:-1]), s_from_chars(cs[:-1])))
    return SOME(cs[-1])


@simple("std::string::String::clear")
def _sclear(I, p):
    I.store(p, EMPTY)
    return UNIT


@simple("std::string::String::insert")
def _sinsert(I, p, n, c):
    if I.conc_int(n) != 0:
        raise Unsupported("String::insert")
    I.store(p, s_cat(s_from_chars([I.ctx.norm(c)]), sv(I, I.load(p))))
    return UNIT


@simple("std::string::String::insert_str")
def _sinsert_str(I, p, n, s):
    if I.conc_int(n) != 0:
        raise Unsupported("String::insert_str")
    I.store(p, s_cat(sv(I, s), sv(I, I.load(p))))
    return UNIT


@simple("std::string::String::as_str", "std::string::String::into_boxed_str", "alloc::str::<impl str>::into_string",
        "std::str::<impl str>::into_string", "alloc::str::<impl std::borrow::ToOwned for str>::to_owned",
        "std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::string::String::as_mut_str")
def _as_str(I, p):
    return sv(I, p)


@simple("std::string::String::is_empty", "core::str::<impl str>::is_empty")
def _s_is_empty(I, p):
    return str_is_empty(I, sv(I, p))


@simple("std::string::String::len", "core::str::<impl str>::len")
def _s_len(I, p):
    return str_len_term(I, sv(I, p))


@simple("std::string::String::reserve", "std::vec::Vec::<T, A>::reserve", "std::string::String::shrink_to_fit",
        "std::vec::Vec::<T, A>::shrink_to_fit")
def _nop(I, *a):
    return UNIT


@simple("std::string::String::truncate")
def _strunc(I, p, n):
    if I.conc_int(n) == 0:
        I.store(p, EMPTY)
        return UNIT
    raise Unsupported("String::truncate")


# --- str

@simple("core::str::<impl str>::chars")
def _chars(I, p):
    return seqit(s_chars(I.ctx, sv(I, p)))


@simple("core::str::<impl str>::char_indices")
def _char_indices(I, p):
    out = []
    n = 0
    for c in s_chars(I.ctx, sv(I, p)):
        out.append(TUP(n, c))
        n += str_len(I, s_from_chars([c]))
    return seqit(out)


@simple("core::str::<impl str>::bytes")
def _bytes(I, p):
    return seqit(utf8(I, sv(I, p)))


@simple("std::str::Chars::<'a>::as_str")
def _chars_as_str(I, p):
    v = I.load(p)
    items, i, j = v.d
    return s_from_chars([I.ctx.norm(c) for c in items[i:j]])


@simple("core::str::<impl str>::lines")
def _lines(I, p):
    return seqit(m_lines(I, sv(I, p)))


WSPRED = rx.WS


def ws(I):
    return lambda c: I.ctx.int_in(c, WSPRED)


@simple("core::str::<impl str>::trim")
def _trim(I, p):
    return trim(I, sv(I, p), ws(I))


@simple("core::str::<impl str>::trim_start")
def _trim_start(I, p):
    return trim(I, sv(I, p), ws(I), True, False)


@simple("core::str::<impl str>::trim_end")
def _trim_end(I, p):
    return trim(I, sv(I, p), ws(I), False, True)


@simple("core::str::<impl str>::split_whitespace")
def _split_ws(I, p):
    pr = CharPred(ws(I))
    return seqit([x for x in m_split(I, sv(I, p), pr) if not I.ctx.branch(str_is_empty(I, x))])


def patfn(*names):
    """factory for functions whose last type argument is the pattern type"""
    def d(f):
        for n in names:
            def fac(I, t, f=f):
                pt = targs(t)[0]
                return lambda a: f(I, sv(I, a[0]), pattern(I, a[1], pt), *a[2:])
            PATH[n] = fac
        return f
    return d


@patfn("core::str::<impl str>::contains")
def _contains(I, s, pat):
    us, m = find_matches(I, s, pat, 1)
    return bool(m)


@patfn("core::str::<impl str>::starts_with")
def _starts(I, s, pat):
    return fits_anchor(I, s, pat, False) is not None


@patfn("core::str::<impl str>::ends_with")
def _ends(I, s, pat):
    return fits_anchor(I, s, pat, True) is not None


@patfn("core::str::<impl str>::strip_prefix")
def _strip_p(I, s, pat):
    r = fits_anchor(I, s, pat, False)
    return NONE if r is None else SOME(r)


@patfn("core::str::<impl str>::strip_suffix")
def _strip_s(I, s, pat):
    r = fits_anchor(I, s, pat, True)
    return NONE if r is None else SOME(r)


@patfn("core::str::<impl str>::split")
def _split(I, s, pat):
    return seqit(m_split(I, s, pat))


@patfn("core::str::<impl str>::rsplit")
def _rsplit(I, s, pat):
    return seqit(m_split(I, s, pat)[::-1])


@path("core::str::<impl str>::splitn")
def _splitn(I, t):
    pt = targs(t)[0]

    def h(a):
        n = I.conc_int(a[1])
        if n == 0:
            return seqit([])
        return seqit(m_split(I, sv(I, a[0]), pattern(I, a[2], pt), n - 1))
    return h


@patfn("core::str::<impl str>::split_terminator")
def _split_term(I, s, pat):
    l = m_split(I, s, pat)
    if I.ctx.branch(str_is_empty(I, l[-1])):
        l.pop()
    return seqit(l)


@patfn("core::str::<impl str>::split_once")
def _split_once(I, s, pat):
    us, m = find_matches(I, s, pat, 1)
    if not m:
        return NONE
    return SOME(TUP(units_str(us[:m[0][0]]), units_str(us[m[0][1]:])))


@patfn("core::str::<impl str>::rsplit_once")
def _rsplit_once(I, s, pat):
    us, m = find_matches(I, s, pat)
    if not m:
        return NONE
    return SOME(TUP(units_str(us[:m[-1][0]]), units_str(us[m[-1][1]:])))


@patfn("core::str::<impl str>::find")
def _sfind(I, s, pat):
    us, m = find_matches(I, s, pat, 1)
    if not m:
        return NONE
    return SOME(str_len(I, units_str(us[:m[0][0]])))


@patfn("core::str::<impl str>::matches")
def _smatches(I, s, pat):
    us, m = find_matches(I, s, pat)
    return seqit([units_str(us[a:b]) for a, b in m])


@patfn("std::str::<impl str>::replace", "alloc::str::<impl str>::replace")
def _replace(I, s, pat, to):
    return m_replace(I, s, pat, sv(I, to))


@patfn("std::str::<impl str>::replacen", "alloc::str::<impl str>::replacen")
def _replacen(I, s, pat, to, n):
    return m_replace(I, s, pat, sv(I, to), I.conc_int(n))


@patfn("core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_left_matches")
def _tsm(I, s, pat):
    return trimpat(I, s, pat, True, False)


@patfn("core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_right_matches")
def _tem(I, s, pat):
    return trimpat(I, s, pat, False, True)


@patfn("core::str::<impl str>::trim_matches")
def _tm(I, s, pat):
    return trimpat(I, s, pat, True, True)


def trimpat(I, s, pat, l, r):
    if isinstance(pat, CharPred):
        return trim(I, s, pat.f, l, r)
    while l:
        x = fits_anchor(I, s, pat, False)
        if x is None:
            break
        s = x
    while r:
        x = fits_anchor(I, s, pat, True)
        if x is None:
            break
        s = x
    return s


@simple("std::str::<impl str>::repeat", "alloc::str::<impl str>::repeat")
def _repeat(I, s, n):
    return s_cat(*([sv(I, s)] * I.conc_int(n)))


@path("core::str::<impl str>::get")
def _sget(I, t):
    rt = targs(t)[0]

    def h(a):
        r = str_slice(I, sv(I, a[0]), a[1], rt)
        return NONE if r is None else SOME(r)
    return h


@simple("core::str::<impl str>::is_char_boundary")
def _icb(I, s, n):
    n = I.conc_int(n)
    pos = 0
    for c in s_chars(I.ctx, sv(I, s)):
        if pos >= n:
            break
        pos += str_len(I, s_from_chars([c]))
    return pos == n


# --- char

@simple("core::char::methods::<impl char>::is_whitespace")
def _c_ws(I, c):
    return I.ctx.int_in(c, rx.WS)


@simple("core::char::methods::<impl char>::to_digit")
def _to_digit(I, c, r):
    if I.conc_int(r) != 10:
        raise Unsupported("to_digit radix")
    if I.ctx.branch(I.ctx.int_in(c, DIG)):
        return SOME(I.ctx.add(c, -48))
    return NONE


@simple("core::char::methods::<impl char>::is_digit")
def _is_digit(I, c, r):
    if I.conc_int(r) != 10:
        raise Unsupported("is_digit radix")
    return I.ctx.int_in(c, DIG)


@simple("core::char::methods::<impl char>::is_ascii_digit")
def _is_ad(I, p):
    return I.ctx.int_in(I.load(p), DIG)


@simple("core::char::methods::<impl char>::from_digit", "std::char::from_digit", "core::char::convert::from_digit")
def _from_digit(I, d, r):
    r = I.conc_int(r)
    if r > 36:
        raise Panic("from_digit: radix is too high (maximum 36)")
    if I.ctx.branch(I.ctx.int_in(d, ((0, r - 1),))):
        if r > 10:
            raise Unsupported("from_digit radix")
        return SOME(I.ctx.add(d, 48))
    return NONE


@simple("core::char::methods::<impl char>::from_u32", "std::char::from_u32", "core::char::convert::from_u32")
def _from_u32(I, d):
    if I.ctx.branch(I.ctx.int_in(d, SURR_OK)):
        return SOME(I.ctx.norm(d))
    return NONE


@simple("core::char::methods::<impl char>::len_utf8")
def _len_utf8(I, c):
    return str_len(I, s_from_chars([I.ctx.norm(c)]))


# --- Vec and slices

@simple("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::new_in")
def _vnew(I, *a):
    return Seq(())


@simple("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def _vpush(I, p, x):
    v = vec(I, p)
    I.store(p, Seq(v + (x,)))
    return UNIT


@simple("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back")
def _vpop(I, p):
    v = vec(I, p)
    if not v:
        return NONE
    I.store(p, Seq(v[:-1]))
    return SOME(v[-1])


@simple("std::collections::VecDeque::<T, A>::pop_front")
def _vpopf(I, p):
    v = vec(I, p)
    if not v:
        return NONE
    I.store(p, Seq(v[1:]))
    return SOME(v[0])


@simple("std::vec::Vec::<T, A>::append")
def _vappend(I, p, q):
    v, w = vec(I, p), vec(I, q)
    I.store(p, Seq(v + w))
    I.store(q, Seq(()))
    return UNIT


@simple("std::vec::Vec::<T, A>::extend_from_slice")
def _vefs(I, p, q):
    v, w = vec(I, p), slice_seq(I, q)
    I.store(p, Seq(v + tuple(w)))
    return UNIT


@simple("std::vec::Vec::<T, A>::clear")
def _vclear(I, p):
    I.store(p, Seq(()))
    return UNIT


@simple("std::vec::Vec::<T, A>::truncate")
def _vtrunc(I, p, n):
    I.store(p, Seq(vec(I, p)[:I.conc_int(n)]))
    return UNIT


@simple("std::vec::Vec::<T, A>::insert")
def _vinsert(I, p, n, x):
    v = vec(I, p)
    n = I.conc_int(n)
    if n > len(v):
        raise Panic("insertion index out of range")
    I.store(p, Seq(v[:n] + (x,) + v[n:]))
    return UNIT


@simple("std::vec::from_elem")
def _from_elem(I, x, n):
    return Seq((x,) * I.conc_int(n))


@simple("std::vec::Vec::<T, A>::resize")
def _vresize(I, p, n, x):
    v = vec(I, p)
    n = I.conc_int(n)
    I.store(p, Seq(v[:n] + (x,) * (n - len(v))))
    return UNIT


@simple("std::vec::Vec::<T, A>::dedup")
def _vdedup(I, p):
    out = []
    for x in vec(I, p):
        if out and I.ctx.branch(veq(I, out[-1], x)):
            continue
        out.append(x)
    I.store(p, Seq(tuple(out)))
    return UNIT


@simple("std::vec::Vec::<T, A>::remove")
def _vremove(I, p, n):
    v = vec(I, p)
    n = I.conc_int(n)
    if n >= len(v):
        raise Panic("removal index out of range")
    I.store(p, Seq(v[:n] + v[n + 1:]))
    return v[n]


@simple("std::vec::Vec::<T, A>::swap_remove")
def _vswap_remove(I, p, n):
    v = vec(I, p)
    n = I.conc_int(n)
    if n >= len(v):
        raise Panic("swap_remove index out of range")
    w = list(v)
    w[n] = w[-1]
    w.pop()
    I.store(p, Seq(tuple(w)))
    return v[n]


@simple("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::capacity")
def _vlen(I, p):
    s = as_slice(I, p)
    return s.e - s.s


@simple("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def _visempty(I, p):
    s = as_slice(I, p)
    return s.e == s.s


@simple("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice")
def _vas(I, p):
    return as_slice(I, p)


@simple("std::vec::Vec::<T, A>::into_boxed_slice")
def _vibs(I, v):
    return Ptr(Cell(v))


@path("std::vec::Vec::<T, A>::drain")
def _vdrain(I, t):
    rt = targs(t)[-1]

    def h(a):
        v = vec(I, a[0])
        x, y = range_bounds(I, a[1], rt, len(v))
        if x > y or y > len(v):
            raise Panic("drain out of range")
        I.store(a[0], Seq(v[:x] + v[y:]))
        return seqit(v[x:y])
    return h


@simple("std::vec::Vec::<T, A>::split_off")
def _vsplit_off(I, p, n):
    v = vec(I, p)
    n = I.conc_int(n)
    if n > len(v):
        raise Panic("split_off out of range")
    I.store(p, Seq(v[:n]))
    return Seq(v[n:])


@path("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut")
def _vretain(I, t):
    ft = targs(t)[-1]

    def h(a):
        out = []
        f = Ptr(Cell(a[1]))
        for x in vec(I, a[0]):
            c = Cell(x)
            if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ft, [Ptr(c)]))):
                out.append(c.v)
        I.store(a[0], Seq(tuple(out)))
        return UNIT
    return h


@simple("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _siter(I, p):
    s = as_slice(I, p)
    return Obj("slit", (s.c, s.p, s.s, s.e))


@simple("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def _sfirst(I, p):
    s = as_slice(I, p)
    return SOME(sl_ptr(s, 0)) if s.e > s.s else NONE


@simple("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def _slast(I, p):
    s = as_slice(I, p)
    return SOME(sl_ptr(s, s.e - s.s - 1)) if s.e > s.s else NONE


@simple("core::slice::<impl [T]>::split_first")
def _ssf(I, p):
    s = as_slice(I, p)
    return SOME(TUP(sl_ptr(s, 0), SliceRef(s.c, s.p, s.s + 1, s.e))) if s.e > s.s else NONE


@simple("core::slice::<impl [T]>::split_last")
def _ssl(I, p):
    s = as_slice(I, p)
    return SOME(TUP(sl_ptr(s, s.e - s.s - 1), SliceRef(s.c, s.p, s.s, s.e - 1))) if s.e > s.s else NONE


@simple("core::slice::<impl [T]>::split_at")
def _ssa(I, p, n):
    s = as_slice(I, p)
    n = I.conc_int(n)
    if n > s.e - s.s:
        raise Panic("split_at out of range")
    return TUP(SliceRef(s.c, s.p, s.s, s.s + n), SliceRef(s.c, s.p, s.s + n, s.e))


@path("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _slget(I, t):
    rt = targs(t)[-1]

    def h(a):
        s = as_slice(I, a[0])
        n = s.e - s.s
        if I.ty(rt)["k"] == "uint":
            k = I.ctx.norm(a[1])
            if not I.ctx.branch(I.ctx.int_in(k, ((0, n - 1),))):
                return NONE
            return SOME(sl_ptr(s, I.conc_int(k)))
        x, y = range_bounds(I, a[1], rt, n)
        if x > y or y > n:
            return NONE
        return SOME(SliceRef(s.c, s.p, s.s + x, s.s + y))
    return h


@simple("core::slice::<impl [T]>::contains")
def _slcontains(I, p, x):
    return I.ctx.b_or([veq(I, y, x) for y in slice_seq(I, p)])


@simple("core::slice::<impl [T]>::starts_with")
def _slstarts(I, p, q):
    x, y = slice_seq(I, p), slice_seq(I, q)
    if len(y) > len(x):
        return False
    return I.ctx.b_and([veq(I, a, b) for a, b in zip(x, y)])


@simple("core::slice::<impl [T]>::ends_with")
def _slends(I, p, q):
    x, y = slice_seq(I, p), slice_seq(I, q)
    if len(y) > len(x):
        return False
    return I.ctx.b_and([veq(I, a, b) for a, b in zip(x[len(x) - len(y):], y)])


@simple("core::slice::<impl [T]>::reverse")
def _slrev(I, p):
    s = as_slice(I, p)
    f = list(I.force(I.get(s.c.v, s.p)).f)
    f[s.s:s.e] = f[s.s:s.e][::-1]
    I.store(Ptr(s.c, s.p), Seq(tuple(f)))
    return UNIT


@simple("core::slice::<impl [T]>::swap")
def _slswap(I, p, i, j):
    s = as_slice(I, p)
    i, j = I.conc_int(i), I.conc_int(j)
    f = list(I.force(I.get(s.c.v, s.p)).f)
    if max(i, j) >= s.e - s.s:
        raise Panic("index out of bounds")
    f[s.s + i], f[s.s + j] = f[s.s + j], f[s.s + i]
    I.store(Ptr(s.c, s.p), Seq(tuple(f)))
    return UNIT


@simple("std::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec")
def _to_vec(I, p):
    return Seq(tuple(slice_seq(I, p)))


@simple("std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec")
def _into_vec(I, p):
    return Seq(tuple(slice_seq(I, p)))


@path("std::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::join")
def _join(I, t):
    def h(a):
        items = slice_seq(I, a[0])
        if not items:
            st = targs(t)[0]
            return EMPTY if is_str_ty(I, st) else Seq(())
        if type(I.force(items[0])) in (StrV,) or type(items[0]) in (Ptr,):
            sep = sv(I, a[1])
            l = []
            for i, x in enumerate(items):
                if i:
                    l.append(sep)
                l.append(sv(I, x))
            return s_cat(*l)
        raise Unsupported("join")
    return h


@path("std::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::concat")
def _concat(I, t):
    def h(a):
        items = slice_seq(I, a[0])
        st = targs(t)[0]
        if is_str_ty(I, st):
            return s_cat(*[sv(I, x) for x in items])
        out = ()
        for x in items:
            out += tuple(slice_seq(I, x))
        return Seq(out)
    return h


@simple("std::iter::repeat_n")
def _repeat_n(I, x, n):
    return seqit([x] * I.conc_int(n))


@simple("std::iter::once", "std::iter::sources::once::once")
def _once(I, x):
    return seqit([x])


@simple("std::iter::empty")
def _emptyit(I):
    return seqit([])


@simple("core::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_slice")
def _arr_as_slice(I, p):
    return as_slice(I, p)


@path("core::array::<impl [T; N]>::map", "std::array::<impl [T; N]>::map")
def _arr_map(I, t):
    ft = targs(t)[1]

    def h(a):
        f = Ptr(Cell(a[1]))
        return Seq(tuple(I.call_closure_ptr(f, ft, [x]) for x in slice_seq(I, a[0])))
    return h


# --- boxes

@simple("std::boxed::Box::<T>::new")
def _boxnew(I, x):
    return Ptr(Cell(x))


@simple("std::boxed::Box::<T>::new_uninit")
def _boxnu(I):
    return Ptr(Cell(UNINIT))


def unwrap_mu(v):
    while type(v) is Agg:
        if not v.f:
            break
        v = v.f[-1]
    return v


@simple("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::hack::box_assume_init_into_vec_unsafe",
        "std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init", "alloc::boxed::box_assume_init_into_vec_unsafe")
def _bai(I, b):
    v = unwrap_mu(I.load(b))
    if type(v) is not Seq:
        raise Unsupported("vec! contents %r" % (v,))
    return v


# --- hash maps

for _m in MAPS:
    for _f in ("new", "with_capacity"):
        PATH["%s::<K, V>::%s" % (_m, _f)] = lambda I, t, _m=_m: (lambda a: map_of(I, _m, ()))
for _m in SETS:
    for _f in ("new", "with_capacity"):
        PATH["%s::<T>::%s" % (_m, _f)] = lambda I, t, _m=_m: (lambda a: map_of(I, _m, ()))


def vac_insert(I, e, v):
    p, k = e.d
    m, _ = map_insert(I, map_val(I, p), k, v)
    I.store(p, m)
    return Ptr(p.c, p.p + (map_find(I, m, k),))


def occ_ptr(I, e):
    while type(e) is Ptr:
        e = I.load(e)
    p, k = e.d
    return Ptr(p.c, p.p + (map_find(I, map_val(I, p), k),))


def maps_models(b, occ_v, vac_v, mod):
    @simple(b + "::insert")
    def _minsert(I, p, k, v):
        m, old = map_insert(I, map_val(I, p), k, v)
        I.store(p, m)
        return old

    @simple(b + "::get")
    def _mget(I, p, k):
        r = I.lazy_map_get(p, k)
        if r is not None:
            return r
        m = map_val(I, p)
        n = map_find(I, m, deref_key(I, k))
        return NONE if n is None else SOME(Ptr(Cell(m.e[n][1])))

    @simple(b + "::get_key_value")
    def _mgetkv(I, p, k):
        m = map_val(I, p)
        n = map_find(I, m, deref_key(I, k))
        return NONE if n is None else SOME(TUP(Ptr(Cell(m.e[n][0])), Ptr(Cell(m.e[n][1]))))

    @simple(b + "::get_mut")
    def _mgetm(I, p, k):
        p = map_ptr(p)
        n = map_find(I, map_val(I, p), deref_key(I, k))
        return NONE if n is None else SOME(Ptr(p.c, p.p + (n,)))

    @simple(b + "::contains_key")
    def _mcontains(I, p, k):
        r = I.lazy_map_get(p, k)
        if r is not None:
            return r.var == 1
        return map_find(I, map_val(I, p), deref_key(I, k)) is not None

    @simple(b + "::remove")
    def _mremove(I, p, k):
        m = map_val(I, p)
        n = map_find(I, m, deref_key(I, k))
        if n is None:
            return NONE
        I.store(p, MapV(m.e[:n] + m.e[n + 1:], m.o))
        return SOME(m.e[n][1])

    @simple(b + "::entry")
    def _mentry(I, p, k):
        p = map_ptr(p)
        n = map_find(I, map_val(I, p), k)
        return Agg(vac_v if n is None else occ_v, (Obj("mapentry", (p, k)),))

    @simple(b + "::len")
    def _mlen(I, p):
        return len(map_val(I, p).e)

    @simple(b + "::is_empty")
    def _mempty(I, p):
        return not map_val(I, p).e

    @simple(b + "::clear")
    def _mclear(I, p):
        I.store(p, MapV((), map_val(I, p).o))
        return UNIT

    @simple(b + "::iter")
    def _miter(I, p):
        return map_iter(I, p)

    @simple(b + "::iter_mut")
    def _mitermut(I, p):
        return map_iter(I, p, True)

    @simple(b + "::keys")
    def _mkeys(I, p):
        return seqit([Ptr(Cell(k)) for k, _ in map_val(I, p).e])

    @simple(b + "::into_keys")
    def _mintokeys(I, p):
        return seqit([k for k, _ in map_val(I, p).e])

    @simple(b + "::values")
    def _mvals(I, p):
        return seqit([Ptr(Cell(v)) for _, v in map_val(I, p).e])

    @simple(b + "::into_values")
    def _mintovals(I, p):
        return seqit([v for _, v in map_val(I, p).e])

    @simple(b + "::values_mut")
    def _mvalsmut(I, p):
        p = map_ptr(p)
        return seqit([Ptr(p.c, p.p + (n,)) for n in range(len(map_val(I, p).e))])


def entry_models(o, v):
    @simple(v + "::insert")
    def _vi(I, e, x):
        return vac_insert(I, e, x)

    @simple(v + "::key", o + "::key")
    def _vk(I, e):
        while type(e) is Ptr:
            e = I.load(e)
        return Ptr(Cell(e.d[1]))

    @simple(v + "::into_key")
    def _vik(I, e):
        return e.d[1]

    @simple(o + "::get", o + "::get_mut", o + "::into_mut")
    def _og(I, e):
        return occ_ptr(I, e)

    @simple(o + "::insert")
    def _oi(I, e, x):
        p = occ_ptr(I, e)
        old = I.load(p)
        I.store(p, x)
        return old

    @simple(o + "::remove")
    def _or(I, e):
        p, k = e.d
        m = map_val(I, p)
        n = map_find(I, m, k)
        I.store(p, MapV(m.e[:n] + m.e[n + 1:], m.o))
        return m.e[n][1]


for _b in ("std::collections::HashMap::<K, V, S>", "std::collections::HashMap::<K, V, S, A>"):
    maps_models(_b, 0, 1, "hash_map")
maps_models("std::collections::BTreeMap::<K, V, A>", 1, 0, "btree_map")
for _x in ("", ", A"):
    entry_models("std::collections::hash_map::OccupiedEntry::<'a, K, V%s>" % _x, "std::collections::hash_map::VacantEntry::<'a, K, V%s>" % _x)
    entry_models("std::collections::btree_map::OccupiedEntry::<'a, K, V%s>" % _x, "std::collections::btree_map::VacantEntry::<'a, K, V%s>" % _x)

for _b in ("std::collections::HashSet::<T, S>", "std::collections::HashSet::<T, S, A>", "std::collections::BTreeSet::<T, A>"):
    @simple(_b + "::insert")
    def _sinsert(I, p, k):
        m = map_val(I, p)
        if map_find(I, m, k) is not None:
            return False
        I.store(p, map_insert(I, m, k, UNIT)[0])
        return True

    @simple(_b + "::contains")
    def _scontains(I, p, k):
        return map_find(I, map_val(I, p), deref_key(I, k)) is not None

    @simple(_b + "::remove")
    def _sremove(I, p, k):
        m = map_val(I, p)
        n = map_find(I, m, deref_key(I, k))
        if n is None:
            return False
        I.store(p, MapV(m.e[:n] + m.e[n + 1:], m.o))
        return True

    @simple(_b + "::len")
    def _slen(I, p):
        return len(map_val(I, p).e)

    @simple(_b + "::is_empty")
    def _sempty(I, p):
        return not map_val(I, p).e

    @simple(_b + "::iter")
    def _siter(I, p):
        return seqit([Ptr(Cell(k)) for k, _ in map_val(I, p).e])


# --- mem

@simple("std::mem::replace")
def _mreplace(I, p, v):
    o = I.load(p)
    I.store(p, v)
    return o


@path("std::mem::take")
def _mtake(I, t):
    st = targs(t)[0]
    r = I.mir.resolve("std::default::Default", "default", [st])
    h2 = handler_trait(I, "std::default::Default::default", [st], r)

    def h(a):
        o = I.load(a[0])
        I.store(a[0], h2([]))
        return o
    return h


@simple("std::mem::swap")
def _mswap(I, p, q):
    a, b = I.load(p), I.load(q)
    I.store(p, b)
    I.store(q, a)
    return UNIT


@simple("std::mem::forget")
def _drop(I, x):
    return UNIT


@simple("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def _ident(I, x):
    return x


# --- formatting

@simple("core::fmt::rt::Argument::<'_>::new_display")
def _nd_placeholder(I, p):
    raise Unsupported("new_display")


@path("core::fmt::rt::Argument::<'_>::new_display")
def _new_display(I, t):
    st = targs(t)[0]
    return lambda a: Obj("fmtarg", ("display", st, a[0]))


@path("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def _new_debug(I, t):
    st = targs(t)[0]
    return lambda a: Obj("fmtarg", ("debug", st, a[0]))


@simple("core::fmt::rt::<impl std::fmt::Arguments<'a>>::new", "std::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new")
def _args_new(I, tmpl, args):
    by = I.load(tmpl) if type(tmpl) is Ptr else tmpl
    if type(by) is SliceRef or type(by) is Seq:
        b = slice_seq(I, by)
    else:
        raise Unsupported("format template %r" % (by,))
    return Obj("fmtargs", (tuple(b), tuple(slice_seq(I, args))))


@simple("core::fmt::rt::<impl std::fmt::Arguments<'_>>::from_str", "std::fmt::Arguments::<'a>::from_str",
        "core::fmt::rt::<impl std::fmt::Arguments<'a>>::from_str", "core::fmt::rt::<impl std::fmt::Arguments<'a>>::new_const")
def _args_str(I, s):
    return Obj("fmtargs", (None, sv(I, s)))


@simple("std::fmt::format", "alloc::fmt::format")
def _format(I, a):
    return render(I, a)


@simple("std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint")
def _print(I, a):
    return UNIT


# --- panics

def panic_handler(name):
    def fac(I, t):
        def h(a):
            msg = name
            for x in a:
                if type(x) is StrV:
                    c = s_conc(x)
                    if c:
                        msg = c
                        break
                if type(x) is Obj and x.k == "fmtargs":
                    try:
                        c = s_conc(render(I, x))
                        if c:
                            msg = c
                    except Unsupported:
                        pass
            raise Panic(msg, I.ctx.stack[-1] if I.ctx.stack else None)
        return h
    return fac


def is_panic_path(p):
    if p.startswith(("core::panicking::", "std::panicking::", "std::rt::begin_panic", "std::rt::panic")):
        return True
    last = p.rsplit("::", 1)[-1]
    return last in ("unwrap_failed", "expect_failed", "slice_index_fail", "begin_panic", "panic_fmt", "panic_display",
                    "slice_error_fail", "handle_alloc_error", "panic_cold_explicit", "unwrap_none_failed", "capacity_overflow",
                    "len_mismatch_fail", "abort")


# --- dates
# koyomi formats "{:<4}-{:<02}-{:<02}" and has chrono read it as "%Y-%m-%d": a year of fewer than
# four characters is padded with spaces chrono does not accept, one of more digits is not read whole

_YEARS = ((-262143, -100), (1000, 9999))
_M31 = ((1, 1), (3, 3), (5, 5), (7, 8), (10, 10), (12, 12))


def _leap(ctx, y):
    y = ctx.norm(y)
    if type(y) is int:
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    z = ctx.zi(y)
    return ZB(z3.And(z % 4 == 0, z3.Or(z % 100 != 0, z % 400 == 0)), ctx.vs(y))


@simple("koyomi::Date::from_ymd", "koyomi::date::Date::from_ymd")
def _from_ymd(I, y, m, d):
    ctx = I.ctx
    err = ERR(Agg(0, (S("date"),)))
    if not ctx.branch(ctx.int_in(y, _YEARS)) or not ctx.branch(ctx.int_in(m, ((1, 12),))):
        return err
    if ctx.branch(ctx.int_in(m, _M31)):
        last = 31
    elif not ctx.branch(ctx.int_in(m, ((2, 2),))):
        last = 30
    elif ctx.branch(ctx.int_in(y, ((-262143, -1),))):
        raise Unsupported("dates before year 0")
    else:
        last = 29 if ctx.branch(_leap(ctx, y)) else 28
    if not ctx.branch(ctx.int_in(d, ((1, last),))):
        return err
    return OK(Agg(0, (y, m, d, Obj("weekday", ()))))


# --- regex

@simple("regex::Regex::new", "regex::regex::string::Regex::new")
def _rxnew(I, s):
    c = s_conc(sv(I, s))
    if c is None:
        raise Unsupported("symbolic regular expression")
    rx.compile_rx(c)
    return OK(Obj("regex", (c,)))


def rx_of(I, p):
    v = p
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is not Obj or v.k != "regex":
        raise Unsupported("regex expected")
    return rx.compile_rx(v.d[0])


@simple("regex::Regex::is_match", "regex::regex::string::Regex::is_match")
def _rxis(I, r, s):
    return rx_of(I, r).search(I.ctx, s_chars(I.ctx, sv(I, s))) is not None


@simple("regex::Regex::captures", "regex::regex::string::Regex::captures")
def _rxcap(I, r, s):
    x = rx_of(I, r)
    cs = s_chars(I.ctx, sv(I, s))
    m = x.search(I.ctx, cs)
    if m is None:
        return NONE
    sp = {0: m[""]}
    for k, v in m.items():
        if k != "":
            sp[k] = v
    return SOME(Obj("caps", (tuple(cs), tuple(sorted(sp.items())), tuple(sorted(x.names.items())))))


@simple("regex::Regex::find", "regex::regex::string::Regex::find")
def _rxfind(I, r, s):
    x = rx_of(I, r)
    cs = s_chars(I.ctx, sv(I, s))
    m = x.search(I.ctx, cs)
    if m is None:
        return NONE
    a, b = m[""]
    return SOME(mk_match(I, cs, a, b))


def mk_match(I, cs, a, b):
    return Obj("match", (s_from_chars([I.ctx.norm(c) for c in cs[a:b]]), tuple(cs), a, b))


def cap_group(I, c, g):
    cs, sp, names = c.d
    sp = dict(sp)
    if g not in sp:
        return None
    a, b = sp[g]
    return s_from_chars([I.ctx.norm(x) for x in cs[a:b]])


def cap_name(I, c, s):
    n = s_conc(s)
    g = dict(c.d[2]).get(n)
    if g is None:
        return None
    return cap_group(I, c, g)


@simple("regex::Captures::<'h>::name", "regex::regex::string::Captures::<'h>::name")
def _capname(I, p, s):
    c = I.load(p)
    n = s_conc(sv(I, s))
    g = dict(c.d[2]).get(n)
    sp = dict(c.d[1])
    if g is None or g not in sp:
        return NONE
    a, b = sp[g]
    return SOME(mk_match(I, c.d[0], a, b))


@simple("regex::Captures::<'h>::get", "regex::regex::string::Captures::<'h>::get")
def _capget(I, p, n):
    c = I.load(p)
    sp = dict(c.d[1])
    n = I.conc_int(n)
    if n not in sp:
        return NONE
    a, b = sp[n]
    return SOME(mk_match(I, c.d[0], a, b))


@simple("regex::Match::<'h>::as_str", "regex::regex::string::Match::<'h>::as_str")
def _mas(I, p):
    v = I.load(p) if type(p) is Ptr else p
    return v.d[0]


@simple("regex::Match::<'h>::end", "regex::regex::string::Match::<'h>::end")
def _mend(I, p):
    v = I.load(p) if type(p) is Ptr else p
    return str_len(I, s_from_chars([I.ctx.norm(c) for c in v.d[1][:v.d[3]]]))


@simple("regex::Match::<'h>::start", "regex::regex::string::Match::<'h>::start")
def _mstart(I, p):
    v = I.load(p) if type(p) is Ptr else p
    return str_len(I, s_from_chars([I.ctx.norm(c) for c in v.d[1][:v.d[2]]]))


# --- intrinsics

def intrinsic(I, inst):
    n = inst["iname"]
    if n in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
        return lambda a: UNIT
    if n in ("likely", "unlikely", "black_box"):
        return lambda a: a[0]
    if n in ("ub_checks", "overflow_checks", "is_val_statically_known", "contract_checks"):
        r = n == "overflow_checks"
        return lambda a: r
    if n == "discriminant_value":
        t = [a["ty"] for a in inst["args"] if a["k"] == "ty"][0]
        return lambda a: I.discr(I.load(a[0]), t)
    if n in ("size_of",):
        t = [a["ty"] for a in inst["args"] if a["k"] == "ty"][0]
        return lambda a: I.size(t)
    if n == "needs_drop":
        return lambda a: False
    if n in ("abort", "unreachable"):
        def h(a):
            raise Unsupported("intrinsic " + n)
        return h
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "add_with_overflow", "sub_with_overflow", "mul_with_overflow",
             "saturating_add", "saturating_sub", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        t = [a["ty"] for a in inst["args"] if a["k"] == "ty"][0]
        bits, sg = I.bits(t)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)

        def ar(a):
            ctx = I.ctx
            if "add" in n:
                r = ctx.add(a[0], a[1])
            elif "sub" in n:
                r = ctx.add(a[0], ctx.mul(a[1], -1))
            else:
                r = ctx.mul(a[0], a[1])
            if n.startswith("wrapping") or n.startswith("unchecked"):
                return I.wrap(r, bits, sg)
            if ctx.branch(ctx.int_in(r, ((lo, hi),))):
                return TUP(r, False) if "overflow" in n else r
            if "overflow" in n:
                return TUP(I.wrap(r, bits, sg), True)
            return hi if ctx.branch(ctx.cmp("gt", r, hi)) else lo
        return ar
    if n in ("three_way_compare",):
        return lambda a: I.ordering(a[0], a[1])
    if n in ("unchecked_div", "exact_div"):
        return lambda a: I.ctx.divmod(a[0], a[1], "div")
    if n == "unchecked_rem":
        return lambda a: I.ctx.divmod(a[0], a[1], "rem")
    if n in ("type_id",):
        t = [a["ty"] for a in inst["args"] if a["k"] == "ty"][0]
        return lambda a: t
    return None


# --------------------------------------------------------------- dispatch

def counted(I, key, h):
    def g(a):
        m = I.ctx.stats.models
        m[key] = m.get(key, 0) + 1
        return h(a)
    return g


def unsupported_handler(name):
    def h(a):
        raise Unsupported("no model for " + name)
    return h


def handler_trait(I, key, tys, inst):
    """handler for trait method key applied to types, resolved to inst"""
    t = {"path": key, "args": [{"k": "ty", "ty": x} for x in tys], "inst": inst, "trait": key.rsplit("::", 1)[0]}
    return find_model(I, t)


def path_model(key):
    f = PATH.get(key)
    if f is None:
        for x in ("core::", "std::", "alloc::"):
            if key.startswith(x):
                for y in ("core::", "std::", "alloc::"):
                    f = PATH.get(y + key[len(x):])
                    if f is not None:
                        return f
    return f


def find_model(I, t):
    """t: type info of a function item"""
    key = t["path"]
    inst = t["inst"]
    for ic in I.intercepts:
        h = ic(I, t)
        if h is not None:
            return h
    h = None
    if t.get("trait"):
        f = TRAIT.get(key)
        if f is not None:
            h = f(I, t)
            if h is not None:
                ip = inst["path"] if inst else ""
                return counted(I, key, h) if not is_user(ip) else h
    else:
        f = path_model(key)
        if f is not None:
            h = f(I, t)
            if h is not None:
                return counted(I, key, h)
    if t.get("trait") and t["args"] and t["args"][0]["k"] == "ty" and I.ty(t["args"][0]["ty"])["k"] == "dyn":
        return dyn_handler(I, t)
    if inst is None:
        return unsupported_handler(key)
    return find_inst_model(I, inst, t)


def dyn_handler(I, t):
    """method of a trait object: resolved for the type behind it"""
    tr, m = t["path"].rsplit("::", 1)
    cache = {}

    def h(a):
        p = a[0]
        while type(p) is Ptr:
            v = I.load(p)
            if type(v) not in (Ptr, Obj):
                break
            p = v
        if type(p) is not Obj or p.k != "dyn":
            raise Unsupported("trait object expected for " + t["path"])
        p, ty = p.d
        g = cache.get(ty)
        if g is None:
            tys = [ty] + [x["ty"] for x in t["args"][1:] if x["k"] == "ty"]
            r = I.mir.resolve(tr, m, tys)
            if r is None:
                raise Unsupported("no method %s of %s" % (t["path"], I.ty(ty)["s"]))
            g = cache[ty] = handler_trait(I, t["path"], tys, r)
        return g([p] + list(a[1:]))
    return h


def is_user(p):
    return p.startswith(("japanese_law_xml_schema", "harness", "<japanese_law", "<harness"))


def find_inst_model(I, inst, t=None):
    p = inst["path"]
    if t is None:
        for ic in I.intercepts:
            h = ic(I, {"path": p, "args": inst["args"], "inst": inst, "trait": None})
            if h is not None:
                return h
    f = path_model(p)
    if f is not None:
        h = f(I, {"path": p, "args": inst["args"], "inst": inst})
        if h is not None:
            return counted(I, p, h)
    if inst["kind"] == "intrinsic":
        h = intrinsic(I, inst)
        if h is not None:
            return h
        r = raw_inst(I, inst)
        return r or unsupported_handler("intrinsic " + str(inst["iname"]))
    if p == "std::ops::FnOnce::call_once" and inst["args"] and inst["args"][0]["k"] == "ty":
        # a closure used as a function pointer
        ct = inst["args"][0]["ty"]
        if I.ty(ct)["k"] == "closure":
            return lambda a: I.call_value(UNIT, ct, list(a))
    if is_panic_path(p):
        return panic_handler(p)(I, t)
    if p.startswith("<") and " as " in p and t is None:
        # trait impl reached through a resolved instance
        tr = p[p.rindex(" as ") + 4:]
        g = tr.rindex(">::")
        trn = tr[:g]
        if "<" in trn:
            trn = trn[:trn.index("<")]
        key = trn + "::" + tr[g + 3:]
        if key in ("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back"):
            back = key.endswith("back")
            n = inst["inst"]

            def h(a):
                v = I.load(a[0])
                if it_native(v):
                    return it_next(I, a[0], back)
                return I.call_raw(n, a)
            return h
        if key in TRAIT and inst["has_body"] is not None:
            # only for receivers the generic path can type: get Self from the body signature
            sg = None
            try:
                sg = I.mir.sig(inst["inst"])
            except Exception:
                sg = None
            if sg and key in ("std::string::ToString::to_string", "std::clone::Clone::clone", "std::iter::IntoIterator::into_iter",
                              "std::convert::From::from", "std::str::FromStr::from_str", "std::default::Default::default"):
                st = None
                if key in ("std::string::ToString::to_string", "std::clone::Clone::clone"):
                    st = [I.ty(sg["args"][0])["elem"]]
                elif key == "std::iter::IntoIterator::into_iter":
                    st = [sg["args"][0]]
                elif key == "std::convert::From::from":
                    st = [sg["ret"], sg["args"][0]]
                elif key == "std::default::Default::default":
                    st = [sg["ret"]]
                elif key == "std::str::FromStr::from_str":
                    st = [I.ty(sg["ret"])["args"][0]["ty"]]
                h = TRAIT[key](I, {"path": key, "args": [{"k": "ty", "ty": x} for x in st], "inst": inst, "trait": trn})
                if h is not None:
                    return h
    r = raw_inst(I, inst)
    if r is not None:
        return r
    return unsupported_handler(p)


def install(I):
    import models_more
    import models_io
    I.find_model = find_model
    I.find_inst_model = find_inst_model
    I.lazy_map_get = lambda p, k: None
    I.lazy_eq = lambda a, b: None

    def discr_conc(v):
        if type(v) is FD:
            v = I.conc_fd(v)
        return v.var
    I.discr_conc = discr_conc


# --------------------------------------------------------------- bytes of a string, input and output

def bytes_of(I, p):
    """the string whose bytes a &[u8] / Vec<u8> holds"""
    v = I.load(p) if type(p) is Ptr else p
    if type(v) is Obj and v.k == "bytes":
        return v.d[0]
    if type(v) is SliceRef or type(v) is Seq:
        l = [I.ctx.norm(x) for x in slice_seq(I, v)]
        if all(type(x) is int for x in l):
            try:
                return S(bytes(l).decode("utf-8"))
            except UnicodeDecodeError:
                raise Unsupported("bytes that are no string")
        if all(I.ctx.branch(I.ctx.int_in(x, ((0, 0x7F),))) for x in l):
            return s_from_chars([I.ctx.norm(x) for x in l])
    raise Unsupported("bytes of %r" % (v,))


def bytes_or_seq(I, p):
    if type(p) is Obj:
        return p.d[0]
    l = [I.ctx.norm(x) for x in slice_seq(I, p)]
    if all(type(x) is int for x in l):
        try:
            return S(bytes(l).decode("utf-8"))
        except UnicodeDecodeError:
            pass
    return Seq(tuple(l))


@simple("core::str::<impl str>::as_bytes", "std::string::String::as_bytes")
def _as_bytes(I, p):
    return Obj("bytes", (sv(I, p),))


@simple("std::string::String::into_bytes")
def _into_bytes(I, p):
    s = sv(I, p)
    if any(type(a) is Opq for a in s.a):
        return Obj("bytes", (s,))
    return Seq(tuple(utf8(I, s)))


@simple("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8", "std::string::String::from_utf8")
def _from_utf8(I, p):
    return OK(bytes_of(I, p))


@trait("std::io::Write::write_fmt")
def _io_write_fmt(I, t):
    st = targs(t)[0]
    r = I.mir.resolve("std::io::Write", "write_all", [st])
    if r is None:
        return None

    def h(a):
        return I.call_inst(r["inst"], [a[0], Obj("bytes", (render(I, a[1]),))])
    return h
