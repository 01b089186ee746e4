"""Value representation."""
from sym import *


class _Uninit:
    __slots__ = ()

    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Agg:
    """struct / tuple / closure (variant 0) or enum variant"""
    __slots__ = ("var", "f")

    def __init__(self, var, f):
        self.var, self.f = var, f

    def __repr__(self):
        return "Agg(%d,%r)" % (self.var, self.f)


class Seq:
    """Vec, array"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "Seq%r" % (self.f,)


class Ptr:
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c, self.p = c, p

    def __repr__(self):
        return "Ptr(%x,%r)" % (id(self.c) & 0xffff, self.p)

    def __eq__(self, o):
        return type(o) is Ptr and self.c is o.c and self.p == o.p

    def __hash__(self):
        return hash((id(self.c), self.p))


class SliceRef:
    """&[T]: elements start..end of the Seq at ptr (end None: to the end)"""
    __slots__ = ("c", "p", "s", "e")

    def __init__(self, c, p, s, e):
        self.c, self.p, self.s, self.e = c, p, s, e

    def __repr__(self):
        return "SliceRef(%r,%r..%r)" % (self.p, self.s, self.e)


class StrV:
    """String / str: atoms are python strings (concrete runs) or symbolic atoms"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return "StrV%r" % (self.a,)


class Ch:
    """one symbolic character (code point term)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Ch(%r)" % (self.v,)


class FS:
    """finite choice of strings: FD with str entries"""
    __slots__ = ("v", "tab")

    def __init__(self, v, tab):
        self.v, self.tab = v, tab

    def __repr__(self):
        return "FS(%s,%r)" % (self.v.name, self.tab)


ASCII_DIGITS = tuple("0123456789")


class Dec:
    """decimal representation of a non-negative integer term; dm: digit strings"""
    __slots__ = ("n", "dm")

    def __init__(self, n, dm=ASCII_DIGITS):
        self.n, self.dm = n, dm

    def __repr__(self):
        return "Dec(%r%s)" % (self.n, "" if self.dm is ASCII_DIGITS else "," + "".join(self.dm))


class Opq:
    """opaque string: an identity variable over interned strings, plus a z3 string constant for
    comparisons of concatenations; none: what is known about it (("num", value), ("nonempty",) ...)"""
    __slots__ = ("name", "v", "z", "none")

    def __init__(self, name, v, none=None):
        self.name = name
        self.v = v
        self.z = z3.String(name)
        self.none = none

    def __repr__(self):
        return "Opq(%s)" % self.name


STRID_MAX = 1 << 40


def str_id(ctx, s):
    """identity number of a constant string on this path ("" is 0)"""
    n = ctx.strids.get(s)
    if n is None:
        n = ctx.strids[s] = len(ctx.strids)
        ctx.idstrs.append(s)
        for v, l in ctx.strfacts.values():
            if not all(f(s) for f in l):
                ctx.restrict(v, rs_sub(((0, STRID_MAX),), ((n, n),)))
    return n


def opq_new(ctx, name, none=None):
    if not ctx.strids:
        str_id(ctx, "")
    lo = 1 if none is not None else 0
    v = ctx.var("id:" + name, ((lo, STRID_MAX),))
    return Opq(v.name[3:], v, none)


def opq_is(ctx, a, s):
    """boolean term: opaque atom equals the constant"""
    if a.none is not None and a.none[0] in ("num", "int") and not (s and all(c in "0123456789_:+-" for c in s)):
        return False
    for f in ctx.strfacts.get(a.name, (None, ()))[1]:
        if not f(s):
            return False
    n = str_id(ctx, s)
    return ctx.norm(InDom(a.v, ((n, n),)))


def opq_fact(ctx, a, f):
    """what is known of an opaque string: no constant for which f is false can equal it"""
    ctx.strfacts.setdefault(a.name, (a.v, []))[1].append(f)
    for n, s in enumerate(ctx.idstrs):
        if not f(s):
            ctx.restrict(a.v, rs_sub(((0, STRID_MAX),), ((n, n),)))


def S(s):
    return StrV((s,)) if s else EMPTY


EMPTY = StrV(())


class MapV:
    """finite map with StrV (or other) keys: tuple of (key, value)"""
    __slots__ = ("e", "o")

    def __init__(self, e, o=False):
        self.e = e
        self.o = o      # kept in the order of the keys

    def __repr__(self):
        return "MapV%r" % (self.e,)


class FnV:
    """zero-sized function item; ty index"""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "FnV(%d)" % self.ty


class FnPtr:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class Obj:
    """immutable model object: kind + data"""
    __slots__ = ("k", "d")

    def __init__(self, k, d):
        self.k, self.d = k, d

    def __repr__(self):
        return "Obj(%s,%r)" % (self.k, self.d)


class Lazy:
    """value of a type, not yet looked at. Identity = name (same name: same value)"""
    __slots__ = ("name", "ty", "depth")

    def __init__(self, name, ty, depth=0):
        self.name, self.ty, self.depth = name, ty, depth

    def __repr__(self):
        return "Lazy(%s)" % self.name


class Tok:
    """abstract element (or part of one) standing for the encoding of a value; see xmltok.py"""
    __slots__ = ("kind", "name", "d")

    def __init__(self, kind, name, d):
        self.kind, self.name, self.d = kind, name, d

    def __repr__(self):
        return "Tok(%s,%s)" % (self.kind, self.name)


UNIT = Agg(0, ())
NONE = Agg(0, ())


def SOME(x):
    return Agg(1, (x,))


def OK(x):
    return Agg(0, (x,))


def ERR(x):
    return Agg(1, (x,))


def TUP(*a):
    return Agg(0, a)


# ------------------------------------------------------------------ strings

def s_make(atoms):
    out = []
    for a in atoms:
        if type(a) is str:
            if not a:
                continue
            if out and type(out[-1]) is str:
                out[-1] += a
                continue
        out.append(a)
    return StrV(tuple(out)) if out else EMPTY


def s_cat(*l):
    at = []
    for x in l:
        at.extend(x.a)
    return s_make(at)


def s_conc(s):
    """python str when concrete, else None"""
    if not s.a:
        return ""
    if len(s.a) == 1 and type(s.a[0]) is str:
        return s.a[0]
    return None


def s_norm(ctx, s):
    """resolve atoms whose variable has been decided"""
    ch = False
    out = []
    for a in s.a:
        t = type(a)
        if t is Ch:
            v = ctx.norm(a.v)
            if type(v) is int:
                out.append(chr(v))
                ch = True
                continue
            if v is not a.v:
                a = Ch(v)
        elif t is FS:
            d = ctx.dom[a.v]
            vals = {a.tab[k] for k in rs_vals(d)}
            if len(vals) == 1:
                out.append(vals.pop())
                ch = True
                continue
        elif t is Opq:
            d = ctx.dom[a.v]
            if len(d) == 1 and d[0][0] == d[0][1] and d[0][0] < len(ctx.idstrs):
                out.append(ctx.idstrs[d[0][0]])
                ch = True
                continue
        elif t is Dec:
            v = ctx.norm(a.n)
            if type(v) is int:
                out.append("".join(a.dm[int(c)] for c in str(v)))
                ch = True
                continue
        out.append(a)
    if not ch:
        return s
    return s_make(out)


def digits_of(ctx, n):
    """digit terms (most significant first) when n is a positional sum of digit variables
    with a leading digit that cannot be 0 (or a single digit); else None"""
    if type(n) is not Lin:
        return None
    by = {}
    for v, c in n.t:
        if c <= 0:
            return None
        e, x = 0, c
        while x % 10 == 0:
            x //= 10
            e += 1
        if e in by:
            by[e] = by[e] + [(v, x)]
        else:
            by[e] = [(v, x)]
    if n.k < 0:
        return None
    k, e = n.k, 0
    kd = {}
    while k:
        if k % 10:
            kd[e] = k % 10
        k //= 10
        e += 1
    top = max(list(by) + list(kd) + [0])
    out = []
    for e in range(top, -1, -1):
        t = {}
        for v, x in by.get(e, ()):
            t[v] = t.get(v, 0) + x
        d = lin_make(t, kd.get(e, 0))
        lo, hi = ctx.interval(d)
        if lo < 0 or hi > 9:
            return None
        out.append(d)
    if len(out) > 1 and ctx.interval(out[0])[0] < 1:
        return None
    return out


def s_dec(ctx, n):
    """decimal string of n (non-negative)"""
    n = ctx.norm(n)
    if type(n) is int:
        return S(str(n))
    return StrV((Dec(n),))


def dec_chars(ctx, a):
    """characters of a Dec atom, as a list of atoms"""
    ds = digits_of(ctx, a.n)
    if ds is None:
        lo, hi = ctx.interval(a.n)
        if hi is None:
            raise Unsupported("digits of an unbounded integer")
        # fork on the number of digits, then name the digits
        opts, conds = [], []
        L = len(str(lo))
        H = len(str(hi))
        for d in range(L, H + 1):
            opts.append(d)
            a0 = 0 if d == 1 else 10 ** (d - 1)
            conds.append(ctx.int_in(a.n, ((a0, 10 ** d - 1),)))
        d = opts[ctx.choose(conds)]
        n = ctx.norm(a.n)
        if type(n) is int:
            return ["".join(a.dm[int(c)] for c in str(n))]
        ds = digits_of(ctx, n)
        if ds is None:
            key = ("digits", a.n.t if type(a.n) is Lin else str(a.n), a.n.k if type(a.n) is Lin else 0, d)
            ds = ctx.lazies.get(key)
            if ds is None:
                ds = []
                tot = 0
                for i in range(d):
                    x = ctx.intvar("digit", 1 if i == 0 and d > 1 else 0, 9)
                    ds.append(x)
                    tot = ctx.add(ctx.mul(tot, 10), x)
                c = ctx.cmp("eq", n, tot)
                ctx.assume_term(c)
                ctx.lazies[key] = ds
    out = []
    for x in ds:
        x = ctx.norm(x)
        if type(x) is int:
            out.append(a.dm[x])
        else:
            v = ctx.single(x)
            if v is None:
                raise Unsupported("digit depends on several variables")
            t = ctx.fd_table(x, v)
            out.append(FS(v, {k: a.dm[y] for k, y in t.items()}))
    return out


def s_chars(ctx, s):
    """list of character terms (ints or symbolic); forks where lengths differ"""
    out = []
    for a in s.a:
        out.extend(_atom_chars(ctx, a))
    return out


def _atom_chars(ctx, a):
    t = type(a)
    if t is str:
        return [ord(c) for c in a]
    if t is Ch:
        return [ctx.norm(a.v)]
    if t is FS:
        d = ctx.dom[a.v]
        bylen = {}
        for k in rs_vals(d):
            bylen.setdefault(len(a.tab[k]), []).append(k)
        lens = sorted(bylen)
        if len(lens) > 1:
            i = ctx.choose([InDom(a.v, rs_of(bylen[n])) for n in lens])
        else:
            i = 0
        n = lens[i]
        ks = bylen[n]
        out = []
        for j in range(n):
            out.append(ctx.mk_fd(a.v, {k: ord(a.tab[k][j]) for k in ks}))
        return [ctx.norm(x) for x in out]
    if t is Dec:
        out = []
        for x in dec_chars(ctx, a):
            out.extend(_atom_chars(ctx, x))
        return out
    raise Unsupported("characters of %r" % (a,))


def s_from_chars(l):
    at = []
    for c in l:
        at.append(chr(c) if type(c) is int else Ch(c))
    return s_make(at)


def s_is_opaque(s):
    return any(type(a) is Opq for a in s.a)


def z_str(ctx, s):
    """z3 string term of s, plus its Vars"""
    parts = []
    vs = set()
    for a in s.a:
        t = type(a)
        if t is str:
            parts.append(z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in a)))
        elif t is Opq:
            parts.append(a.z)
        elif t is Dec:
            z = z3.IntToStr(ctx.zi(a.n))
            if a.dm is not ASCII_DIGITS:
                raise Unsupported("z3 term of mapped digits")
            parts.append(z)
            vs |= ctx.vs(a.n)
        elif t is Ch:
            parts.append(z3.StrFromCode(ctx.zi(a.v)))
            vs |= ctx.vs(a.v)
        elif t is FS:
            ks = list(rs_vals(ctx.dom[a.v]))
            e = None
            for k in ks:
                sv = z_str(ctx, S(a.tab[k]))[0]
                e = sv if e is None else z3.If(a.v.z == k, sv, e)
            parts.append(e)
            vs.add(a.v)
        else:
            raise Unsupported("z3 string of %r" % (a,))
    if not parts:
        return z3.StringVal(""), vs
    return (parts[0] if len(parts) == 1 else z3.Concat(*parts)), vs


def _atom_same(ctx, a, b):
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    if t is str:
        return a == b
    if t is Opq:
        return a.name == b.name
    if t is Dec:
        return a.dm == b.dm and ctx.cmp("eq", a.n, b.n) is True
    if t is Ch:
        return ctx.cmp("eq", a.v, b.v) is True
    if t is FS:
        return a.v is b.v and all(a.tab[k] == b.tab[k] for k in rs_vals(ctx.dom[a.v]))
    return False


def s_eq(ctx, a, b):
    """boolean term: strings equal (may fork)"""
    a, b = s_norm(ctx, a), s_norm(ctx, b)
    ca, cb = s_conc(a), s_conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    la, lb = list(a.a), list(b.a)
    # strip common prefix / suffix
    while la and lb:
        x, y = la[0], lb[0]
        if _atom_same(ctx, x, y):
            la.pop(0)
            lb.pop(0)
        elif type(x) is str and type(y) is str:
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n < len(x) and n < len(y):
                return False
            la[0], lb[0] = x[n:], y[n:]
            if not la[0]:
                la.pop(0)
            if not lb[0]:
                lb.pop(0)
        else:
            break
    while la and lb:
        x, y = la[-1], lb[-1]
        if _atom_same(ctx, x, y):
            la.pop()
            lb.pop()
        elif type(x) is str and type(y) is str:
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n < len(x) and n < len(y):
                return False
            la[-1], lb[-1] = x[:len(x) - n], y[:len(y) - n]
            if not la[-1]:
                la.pop()
            if not lb[-1]:
                lb.pop()
        else:
            break
    if not la and not lb:
        return True
    if not la or not lb:
        r = la or lb
        # other side empty
        conds = []
        for x in r:
            t = type(x)
            if t in (str, Ch, Dec):
                return False
            if t is FS:
                conds.append(ctx.norm(InDom(x.v, rs_of([k for k in rs_vals(ctx.dom[x.v]) if x.tab[k] == ""]))))
            else:
                conds.append(opq_is(ctx, x, ""))
        return ctx.b_and(conds)
    if len(la) == 1 and len(lb) == 1:
        x, y = la[0], lb[0]
        if type(x) is str:
            x, y = y, x
        if type(x) is FS and type(y) is str:
            return ctx.norm(InDom(x.v, rs_of([k for k in rs_vals(ctx.dom[x.v]) if x.tab[k] == y])))
        if type(x) is FS and type(y) is FS and x.v is y.v:
            return ctx.norm(InDom(x.v, rs_of([k for k in rs_vals(ctx.dom[x.v]) if x.tab[k] == y.tab[k]])))
        if type(x) is Dec and type(y) is Dec and x.dm == y.dm:
            return ctx.cmp("eq", x.n, y.n)
        if type(x) is Dec and type(y) is str:
            inv = {d: i for i, d in enumerate(x.dm)}
            if all(len(d) == 1 for d in x.dm):
                if all(c in inv for c in y) and (len(y) == 1 or inv[y[0]] != 0):
                    return ctx.cmp("eq", x.n, int("".join(str(inv[c]) for c in y)))
                return False
        if type(x) is Opq and type(y) is str:
            return opq_is(ctx, x, y)
        if type(x) is Opq and type(y) is Opq:
            return ctx.cmp("eq", Lin(((x.v, 1),), 0), Lin(((y.v, 1),), 0))
    ra, rb = StrV(tuple(la)), StrV(tuple(lb))
    if s_is_opaque(ra) or s_is_opaque(rb):
        # a Dec never equals a non-numeric literal etc.: leave it to the string solver
        za, v1 = z_str(ctx, ra)
        zb, v2 = z_str(ctx, rb)
        return ZB(za == zb, frozenset(v1 | v2))
    xa, xb = s_chars(ctx, ra), s_chars(ctx, rb)
    if len(xa) != len(xb):
        return False
    return ctx.b_and([ctx.cmp("eq", p, q) for p, q in zip(xa, xb)])
