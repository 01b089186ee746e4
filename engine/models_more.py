"""further std functions (tools/selftest.py compares them with the real ones)"""
from sym import *
from vals import *
from models import *
import models
from models import _atom_same
from unitab import CLASS
import rx


# --- characters

def _unicode():
    for n, rs in CLASS.items():
        if n == "is_whitespace":
            rs = rx.WS
        PATH["core::char::methods::<impl char>::" + n] = lambda I, t, rs=rs: (lambda a: I.ctx.int_in(I.load(a[0]) if type(a[0]) is Ptr else a[0], rs))


_unicode()


@simple("core::char::methods::<impl char>::encode_utf8")
def _enc(I, c, buf):
    return s_from_chars([I.ctx.norm(c)])


def ascii_case(I, c, up):
    ctx = I.ctx
    c = ctx.norm(c)
    if ctx.branch(ctx.int_in(c, ((97, 122),) if up else ((65, 90),))):
        return ctx.add(ctx.norm(c), -32 if up else 32)
    return ctx.norm(c)


for _n, _u in (("to_ascii_uppercase", True), ("to_ascii_lowercase", False)):
    @simple("core::char::methods::<impl char>::" + _n)
    def _cac(I, p, _u=_u):
        return ascii_case(I, I.load(p) if type(p) is Ptr else p, _u)

    @simple("alloc::str::<impl str>::" + _n)
    def _sac(I, p, _u=_u):
        return s_from_chars([ascii_case(I, c, _u) for c in s_chars(I.ctx, sv(I, p))])

for _n, _u in (("make_ascii_uppercase", True), ("make_ascii_lowercase", False)):
    @simple("core::str::<impl str>::" + _n)
    def _smac(I, p, _u=_u):
        I.store(p, s_from_chars([ascii_case(I, c, _u) for c in s_chars(I.ctx, sv(I, p))]))
        return UNIT


@simple("core::str::<impl str>::is_ascii")
def _s_ascii(I, p):
    return I.ctx.b_and([I.ctx.int_in(c, ((0, 127),)) for c in s_chars(I.ctx, sv(I, p))])


@simple("core::str::<impl str>::eq_ignore_ascii_case")
def _s_eic(I, p, q):
    x, y = s_chars(I.ctx, sv(I, p)), s_chars(I.ctx, sv(I, q))
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        a, b = ascii_case(I, a, False), ascii_case(I, b, False)
        if not I.ctx.branch(I.ctx.cmp("eq", a, b)):
            return False
    return True


# --- strings by byte position

def split_pos(I, s, n):
    """(before, after) at byte n, or None"""
    n = I.conc_int(n)
    cs = [I.ctx.norm(c) for c in s_chars(I.ctx, s)]
    pos = 0
    for i, c in enumerate(cs):
        if pos == n:
            return s_from_chars(cs[:i]), s_from_chars(cs[i:])
        if pos > n:
            return None
        pos += I.conc_int(str_len(I, s_from_chars([c])))
    return (s_from_chars(cs), EMPTY) if pos == n else None


@simple("core::str::<impl str>::split_at")
def _s_split_at(I, p, n):
    r = split_pos(I, sv(I, p), n)
    if r is None:
        raise Panic("failed to slice string")
    return TUP(*r)


@simple("core::str::<impl str>::split_at_checked")
def _s_split_at_c(I, p, n):
    r = split_pos(I, sv(I, p), n)
    return NONE if r is None else SOME(TUP(*r))


@simple("core::str::<impl str>::is_char_boundary")
def _s_icb(I, p, n):
    return split_pos(I, sv(I, p), n) is not None


@simple("std::string::String::truncate")
def _s_trunc(I, p, n):
    n = I.conc_int(n)
    s = sv(I, p)
    r = split_pos(I, s, n)
    if r is None:
        cs = s_chars(I.ctx, s)
        tot = sum(I.conc_int(str_len(I, s_from_chars([c]))) for c in cs)
        if n > tot:
            return UNIT
        raise Panic("assertion failed: self.is_char_boundary(new_len)")
    I.store(p, r[0])
    return UNIT


@simple("std::string::String::split_off")
def _s_split_off(I, p, n):
    r = split_pos(I, sv(I, p), n)
    if r is None:
        raise Panic("assertion failed: self.is_char_boundary(at)")
    I.store(p, r[0])
    return r[1]


@path("core::str::<impl str>::split_inclusive")
def _s_split_incl(I, t):
    pt = targs(t)[-1]

    def h(a):
        s = sv(I, a[0])
        pr = pattern(I, a[1], pt)
        if type(pr) is tuple:
            raise Unsupported("split_inclusive by a string")
        out, cur = [], []
        for c in s_chars(I.ctx, s):
            cur.append(I.ctx.norm(c))
            if I.ctx.branch(pr.f(c)):
                out.append(s_from_chars([I.ctx.norm(x) for x in cur]))
                cur = []
        if cur:
            out.append(s_from_chars([I.ctx.norm(x) for x in cur]))
        return seqit(out)
    return h


def parse_radix(I, s, r, b, sg):
    ctx = I.ctx
    bad = lambda: parse_int(I, S("x"), b, bool(sg))     # noqa: E731
    if sg or r > 16:
        raise Unsupported("from_str_radix %d" % r)
    cs = list(s_chars(ctx, s_norm(ctx, s)))
    if cs and ctx.branch(ctx.cmp("eq", cs[0], ord("+"))):
        cs = cs[1:]
    if not cs:
        return bad()
    v = 0
    for c in cs:
        if ctx.branch(ctx.int_in(c, ((48, 47 + min(r, 10)),))):
            d = ctx.add(c, -48)
        elif r > 10 and ctx.branch(ctx.int_in(c, ((65, 54 + r),))):
            d = ctx.add(c, -55)
        elif r > 10 and ctx.branch(ctx.int_in(c, ((97, 86 + r),))):
            d = ctx.add(c, -87)
        else:
            return bad()
        v = ctx.add(ctx.mul(v, r), d)
        if not ctx.branch(ctx.cmp("lt", v, 1 << b)):
            return bad()
    return OK(v)


def _radix():
    for b, sg, n in [(8, 0, "u8"), (16, 0, "u16"), (32, 0, "u32"), (64, 0, "u64"), (64, 0, "usize"), (8, 1, "i8"), (16, 1, "i16"),
                     (32, 1, "i32"), (64, 1, "i64"), (64, 1, "isize")]:
        @simple("core::num::<impl %s>::from_str_radix" % n)
        def _fsr(I, s, r, b=b, sg=sg):
            r = I.conc_int(r)
            if r != 10:
                return parse_radix(I, sv(I, s), r, b, sg)
            return parse_int(I, sv(I, s), b, bool(sg))


_radix()


# --- slices

def ordidx(I, v):
    v = I.force(v)
    return (I.conc_fd(v) if type(v) is FD else v).var


def sorted_by(I, items, less):
    """stable insertion; less(y, x) decides"""
    out = []
    for x in items:
        k = len(out)
        while k and less(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def store_items(I, s, items):
    for n, x in enumerate(items):
        I.store(sl_ptr(s, n), x)


@path("std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def _sort(I, t):
    T = targs(t)[0]

    def h(a):
        s = as_slice(I, a[0])
        f = user_cmp(I, T)
        store_items(I, s, sorted_by(I, list(slice_seq(I, s)), lambda x, y: f(x, y) == 0))
        return UNIT
    return h


def lex_cmp(I, T, x, y):
    """0/1/2 of two slices of T"""
    f = user_cmp(I, T)
    x, y = slice_seq(I, x), slice_seq(I, y)
    for p, q in zip(x, y):
        c = f(p, q)
        if c != 1:
            return c
    return (len(x) > len(y)) - (len(x) < len(y)) + 1


def elem_of(I, T):
    """element type of a Vec, slice or array"""
    i = I.ty(T)
    while i["k"] == "ref":
        i = I.ty(i["elem"])
    if i["k"] in ("slice", "array"):
        return i["elem"]
    if i["k"] == "adt" and i["path"] == "std::vec::Vec":
        return i["args"][0]["ty"]
    return None


OLD_OCMP = TRAIT["std::cmp::Ord::cmp"]


@trait("std::cmp::Ord::cmp")
def _ocmp_lists(I, t):
    e = elem_of(I, targs(t)[0])
    if e is not None:
        return lambda a: ordv(lex_cmp(I, e, a[0], a[1]))
    return OLD_OCMP(I, t)


OLD_PCMP = TRAIT["std::cmp::PartialOrd::partial_cmp"]


@trait("std::cmp::PartialOrd::partial_cmp")
def _pcmp_lists(I, t):
    e = elem_of(I, targs(t)[0])
    if e is not None and I.mir.resolve("std::cmp::Ord", "cmp", [e]) is not None:
        return lambda a: SOME(ordv(lex_cmp(I, e, a[0], a[1])))
    return OLD_PCMP(I, t)


def user_cmp(I, T):
    """0/1/2 by Ord::cmp of T"""
    r = I.mir.resolve("std::cmp::Ord", "cmp", [T])
    i = I.ty(T)
    if i["k"] in ("int", "uint", "char", "bool") or is_str_ty(I, T) or r is None:
        return lambda x, y: vcmp(I, x, y)
    hh = handler_trait(I, "std::cmp::Ord::cmp", [T], r)

    def f(x, y):
        return ordidx(I, hh([Ptr(Cell(x)), Ptr(Cell(y))]))
    return f


@path("std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by")
def _sort_by(I, t):
    ft = targs(t)[-1]

    def h(a):
        s = as_slice(I, a[0])
        f = Ptr(Cell(a[1]))
        store_items(I, s, sorted_by(I, list(slice_seq(I, s)), lambda x, y: ordidx(I, I.call_closure_ptr(f, ft, [Ptr(Cell(x)), Ptr(Cell(y))])) == 0))
        return UNIT
    return h


@path("std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key")
def _sort_key(I, t):
    ts = targs(t)
    K, ft = ts[1], ts[2]
    if I.ty(ft)["k"] not in ("closure", "fndef", "fnptr"):
        K, ft = ft, K

    def h(a):
        s = as_slice(I, a[0])
        f = Ptr(Cell(a[1]))
        cmp = user_cmp(I, K)
        l = [(I.call_closure_ptr(f, ft, [Ptr(Cell(x))]), x) for x in slice_seq(I, s)]
        store_items(I, s, [x for _, x in sorted_by(I, l, lambda x, y: cmp(x[0], y[0]) == 0)])
        return UNIT
    return h


@simple("core::slice::<impl [T]>::fill")
def _fill(I, p, v):
    s = as_slice(I, p)
    store_items(I, s, [v] * (s.e - s.s))
    return UNIT


# --- reference counts

for _p in ("std::rc::Rc", "std::sync::Arc"):
    PATH["%s::<T>::new" % _p] = lambda I, t: (lambda a: Ptr(Cell(a[0])))
    PATH["%s::<T, A>::ptr_eq" % _p] = lambda I, t: (lambda a: I.load(a[0]) == I.load(a[1]))
    TRAIT_DEREF.add(_p)


@simple("core::cell::UnsafeCell::<T>::get", "core::cell::UnsafeCell::<T>::get_mut")
def _uc_get(I, p):
    return Ptr(p.c, p.p + (0,))


def once_key(p):
    return ("once", id(p.c), p.p)


def _once():
    for o in ("std::sync::OnceLock::<T>", "std::cell::OnceCell::<T>"):
        PATH[o + "::new"] = lambda I, t: (lambda a: Obj("once", ()))

        def goi(I, t):
            ft = targs(t)[-1]

            def h(a):
                k = once_key(a[0])
                r = I.ctx.lazies.get(k)
                if r is None:
                    r = Cell(I.call_value(a[1], ft, []))
                    I.ctx.lazies[k] = r
                return Ptr(r)
            return h
        PATH[o + "::get_or_init"] = goi

        @simple(o + "::get")
        def _oget(I, p):
            r = I.ctx.lazies.get(once_key(p))
            return NONE if r is None else SOME(Ptr(r))

        @simple(o + "::set")
        def _oset(I, p, v):
            k = once_key(p)
            if k in I.ctx.lazies:
                return ERR(v)
            I.ctx.lazies[k] = Cell(v)
            return OK(UNIT)


_once()


# --- more of strings and slices

@patfn("core::str::<impl str>::rfind")
def _s_rfind(I, s, pat):
    us, m = find_matches(I, s, pat)
    if not m:
        return NONE
    return SOME(str_len(I, units_str(us[:m[-1][0]])))


@simple("std::string::String::remove")
def _s_remove(I, p, n):
    r = split_pos(I, sv(I, p), n)
    if r is None or not r[1].a:
        raise Panic("cannot remove a char from the end of a string")
    cs = s_chars(I.ctx, r[1])
    I.store(p, s_cat(r[0], s_from_chars([I.ctx.norm(c) for c in cs[1:]])))
    return I.ctx.norm(cs[0])


def parts(I, p, ranges):
    s = as_slice(I, p)
    return seqit([SliceRef(s.c, s.p, s.s + a, s.s + b) for a, b in ranges(s.e - s.s)])


@simple("core::slice::<impl [T]>::windows")
def _windows(I, p, n):
    n = I.conc_int(n)
    return parts(I, p, lambda L: [(i, i + n) for i in range(L - n + 1)])


@simple("core::slice::<impl [T]>::chunks")
def _chunks2(I, p, n):
    n = I.conc_int(n)
    return parts(I, p, lambda L: [(i, min(i + n, L)) for i in range(0, L, n)])


@simple("core::slice::<impl [T]>::chunks_exact")
def _chunks_exact(I, p, n):
    n = I.conc_int(n)
    return parts(I, p, lambda L: [(i, i + n) for i in range(0, L - n + 1, n)])


@simple("core::hint::select_unpredictable")
def _sel(I, c, x, y):
    return x if I.ctx.branch(c) else y


# --- map entries

def _entries():
    for m, occ in (("hash_map", 0), ("btree_map", 1)):
        for x in ("", ", A"):
            b = "std::collections::%s::Entry::<'a, K, V%s>" % (m, x)

            def or_with(f, occ=occ):
                def h(I, e, *a):
                    o = e.f[0]
                    return occ_ptr(I, o) if e.var == occ else vac_insert(I, o, f(I, o, *a))
                return h
            simple(b + "::or_insert")(or_with(lambda I, o, v: v))

            def with_closure(I, t, key=False, occ=occ):
                ft = targs(t)[-1]
                return lambda a: or_with(lambda I, o: I.call_value(a[1], ft, [Ptr(Cell(o.d[1]))] if key else []), occ)(I, a[0])
            PATH[b + "::or_insert_with"] = with_closure
            PATH[b + "::or_insert_with_key"] = lambda I, t, wc=with_closure: wc(I, t, True)

            def or_default(I, t, occ=occ):
                V = targs(t)[1]
                r = I.mir.resolve("std::default::Default", "default", [V])
                h2 = handler_trait(I, "std::default::Default::default", [V], r)
                return lambda a: or_with(lambda I, o: h2([]), occ)(I, a[0])
            PATH[b + "::or_default"] = or_default

            def and_modify(I, t, occ=occ):
                ft = targs(t)[-1]

                def h(a):
                    if a[0].var == occ:
                        I.call_value(a[1], ft, [occ_ptr(I, a[0].f[0])])
                    return a[0]
                return h
            PATH[b + "::and_modify"] = and_modify


_entries()


# --- cells: a Cell<T> or RefCell<T> is its content (that a RefCell is borrowed twice is not looked for)

def _cells():
    for c in ("std::cell::Cell::<T>", "std::cell::RefCell::<T>"):
        PATH[c + "::new"] = lambda I, t: (lambda a: a[0])
        PATH[c + "::into_inner"] = lambda I, t: (lambda a: a[0])
        PATH[c + "::get_mut"] = lambda I, t: (lambda a: a[0])

        @simple(c + "::replace")
        def _rep(I, p, v):
            o = I.load(p)
            I.store(p, v)
            return o

        def take(I, t):
            T = targs(t)[0]
            r = I.mir.resolve("std::default::Default", "default", [T])
            h2 = handler_trait(I, "std::default::Default::default", [T], r)

            def h(a):
                o = I.load(a[0])
                I.store(a[0], h2([]))
                return o
            return h
        PATH[c + "::take"] = take

    @simple("std::cell::Cell::<T>::get")
    def _get(I, p):
        return I.load(p)

    @simple("std::cell::Cell::<T>::set")
    def _set(I, p, v):
        I.store(p, v)
        return UNIT

    @simple("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
    def _bor(I, p):
        return p
    TRAIT_DEREF.update(("std::cell::Ref", "std::cell::RefMut"))


_cells()


# --- formatting with a width

def pad(I, s, opts, kind):
    fl = opts.get("flags", 0x20 | 3 << 29)
    if fl & (1 << 23 | 1 << 25 | 1 << 26) or "prec" in opts:
        raise Unsupported("formatting options")
    plus = fl & 1 << 21
    ctx = I.ctx
    if plus and kind == "num":
        s = s_cat(S("+"), s)
    w = opts.get("width", 0)
    n = len(s_chars(ctx, s_fix(I, s)))
    s = s_fix(I, s)
    if n >= w:
        return s
    gap = w - n
    if fl & 1 << 24 and kind == "num":
        return s_cat(S("0" * gap), s)
    al = fl >> 29 & 3
    if al == 3:
        al = 1 if kind == "num" else 0
    left = 0 if al == 0 else gap if al == 1 else gap // 2
    f = chr(fl & 0x1FFFFF)
    return s_cat(S(f * left), s, S(f * (gap - left)))


def s_fix(I, s):
    """decides the number of digits of the numbers in s"""
    out = []
    for a in s_norm(I.ctx, s).a:
        if type(a) is Dec:
            n = a.n
            d = 1
            while not I.ctx.branch(I.ctx.cmp("lt", n, 10 ** d)):
                d += 1
            n = I.ctx.norm(n)
            if type(n) is int:
                out.append(s_dec(I.ctx, n) if a.dm == models.ASCII_DIGITS else StrV((a,)))
                continue
            ds = []
            for k in range(d):
                ds.append(I.ctx.add(n, 48) if d == 1 else I.ctx.add(I.ctx.divmod(I.ctx.divmod(n, 10 ** (d - 1 - k), "div"), 10, "rem"), 48))
            if a.dm != models.ASCII_DIGITS:
                raise Unsupported("width of a number with other digits")
            out.append(s_from_chars(ds))
        else:
            out.append(StrV((a,)))
    return s_cat(*out)


models.pad = pad


@path("std::string::String::retain")
def _s_retain(I, t):
    ft = targs(t)[-1]

    def h(a):
        f = Ptr(Cell(a[1]))
        out = [c for c in s_chars(I.ctx, sv(I, a[0])) if I.ctx.branch(I.ctx.i2b(I.call_closure_ptr(f, ft, [I.ctx.norm(c)])))]
        I.store(a[0], s_from_chars([I.ctx.norm(c) for c in out]))
        return UNIT
    return h


@path("std::string::String::drain")
def _s_drain(I, t):
    rt = targs(t)[-1]

    def h(a):
        s = sv(I, a[0])
        lo, hi = range_bounds(I, a[1], rt, None)
        r = split_pos(I, s, lo)
        q = None if r is None else (r[1], EMPTY) if hi is None else split_pos(I, r[1], hi - lo) if hi >= lo else None
        if q is None:
            raise Panic("drain out of range")
        I.store(a[0], s_cat(r[0], q[1]))
        return seqit([I.ctx.norm(c) for c in s_chars(I.ctx, q[0])])
    return h


@path("std::string::String::replace_range")
def _s_rr(I, t):
    rt = [x for x in targs(t)][-1]

    def h(a):
        s = sv(I, a[0])
        lo, hi = range_bounds(I, a[1], rt, None)
        r = split_pos(I, s, lo)
        q = None if r is None else (r[1], EMPTY) if hi is None else split_pos(I, r[1], hi - lo) if hi >= lo else None
        if q is None:
            raise Panic("range out of bounds")
        I.store(a[0], s_cat(r[0], sv(I, a[2]), q[1]))
        return UNIT
    return h


# --- VecDeque, as a sequence

def _deque():
    d = "std::collections::VecDeque::<T, A>"
    for n in ("std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity"):
        PATH[n] = lambda I, t: (lambda a: Seq(()))

    @simple(d + "::push_back")
    def _pb(I, p, v):
        I.store(p, Seq(slice_seq(I, p) + (v,)))
        return UNIT

    @simple(d + "::push_front")
    def _pf(I, p, v):
        I.store(p, Seq((v,) + tuple(slice_seq(I, p))))
        return UNIT

    @simple(d + "::pop_front")
    def _of(I, p):
        f = slice_seq(I, p)
        if not f:
            return NONE
        I.store(p, Seq(tuple(f[1:])))
        return SOME(f[0])

    @simple(d + "::pop_back")
    def _ob(I, p):
        f = slice_seq(I, p)
        if not f:
            return NONE
        I.store(p, Seq(tuple(f[:-1])))
        return SOME(f[-1])

    @simple(d + "::len")
    def _len(I, p):
        return len(slice_seq(I, p))

    @simple(d + "::is_empty")
    def _ie(I, p):
        return not slice_seq(I, p)

    @simple(d + "::clear")
    def _cl(I, p):
        I.store(p, Seq(()))
        return UNIT

    for n, k in (("front", 0), ("front_mut", 0), ("back", -1), ("back_mut", -1)):
        @simple(d + "::" + n)
        def _fr(I, p, k=k):
            s = as_slice(I, p)
            L = s.e - s.s
            return SOME(sl_ptr(s, k % L)) if L else NONE

    @simple(d + "::get", d + "::get_mut")
    def _g(I, p, n):
        s = as_slice(I, p)
        n = I.conc_int(n)
        return SOME(sl_ptr(s, n)) if n < s.e - s.s else NONE

    @simple(d + "::iter", d + "::iter_mut")
    def _it(I, p):
        s = as_slice(I, p)
        return Obj("slit", (s.c, s.p, s.s, s.e))


_deque()
