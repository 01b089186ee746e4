"""Models of std::io: bytes, writers, errors, files."""
from models import *
from models import _from_utf8


def bytes_val(I, p):
    """Obj("bytes") behind a &[u8] / Vec<u8> when the bytes are a string's, else None"""
    v = I.load(p) if type(p) is Ptr else p
    if type(v) is Obj and v.k == "bytes":
        return v
    return None


OLD_EXTEND = PATH["std::vec::Vec::<T, A>::extend_from_slice"]


@path("std::vec::Vec::<T, A>::extend_from_slice")
def _extend(I, t):
    old = OLD_EXTEND(I, t)

    def h(a):
        w = bytes_val(I, a[1])
        if w is not None:
            v = I.force(I.load(a[0]))
            if type(v) is Obj and v.k == "bytes":
                I.store(a[0], Obj("bytes", (s_norm(I.ctx, s_cat(v.d[0], w.d[0])),)))
                return UNIT
            if type(v) is Seq and v.f == ():
                I.store(a[0], w)
                return UNIT
        v = I.force(I.load(a[0]))
        if type(v) is Obj and v.k == "bytes":
            I.store(a[0], Seq(tuple(utf8(I, v.d[0]))))
        return old(a)
    return h


VEC_WRITE = "std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::"


@path(VEC_WRITE + "write")
def _vec_write(I, t):
    e = _extend(I, t)

    def h(a):
        n = blen(I, a[1])
        e(a)
        return OK(n)
    return h


@path(VEC_WRITE + "write_all")
def _vec_write_all(I, t):
    e = _extend(I, t)

    def h(a):
        e(a)
        return OK(UNIT)
    return h


@simple("std::io::cursor::vec_write_all", "std::io::cursor::vec_write_all_unchecked")
def _vec_write_at(I, pos, v, buf):
    k = I.conc_int(I.load(pos))
    old = list(vec(I, v))
    new = bytes_list(I, buf)
    old += [0] * (k - len(old))
    setvec(I, v, old[:k] + new + old[k + len(new):])
    I.store(pos, k + len(new))
    return OK(len(new))


@simple("std::io::impls::<impl std::io::Write for &mut [u8]>::write")
def _slice_write(I, p, data):
    v = as_slice(I, I.load(p))
    l = bytes_list(I, data)
    n = min(len(l), v.e - v.s)
    for k in range(n):
        I.store(sl_ptr(v, k), l[k])
    I.store(p, SliceRef(v.c, v.p, v.s + n, v.e))
    return OK(n)


@simple("std::io::impls::<impl std::io::Write for &mut [u8]>::write_all")
def _slice_write_all(I, p, data):
    n = blen(I, data)
    k = I.conc_int(_slice_write(I, p, data).f[0])
    if I.ctx.branch(I.ctx.cmp("eq", n, k)):
        return OK(UNIT)
    return ERR(io_err("WriteZero"))


def io_err(kind):
    return Obj("ioerr", (kind,))


def err_kind(I, p):
    v = I.load(p) if type(p) is Ptr else p
    if type(v) is Obj and v.k == "ioerr":
        return v.d[0]
    raise Unsupported("io::Error %r" % (v,))


def variants(I, ty):
    return [v["name"] for v in I.ty(ty)["variants"]]


def sig_of(I, t):
    return I.mir.sig(t["inst"]["inst"])


def kind_name(I, ty, v):
    v = I.force(v)
    if type(v) is FD:
        v = I.conc_fd(v)
    return variants(I, ty)[v.var]


@path("<std::io::Error as std::convert::From<std::io::ErrorKind>>::from", "std::io::Error::new", "std::io::error::<impl std::io::Error>::new")
def _err_new(I, t):
    kt = sig_of(I, t)["args"][0]
    return lambda a: Obj("ioerr", (kind_name(I, kt, a[0]),) + tuple(a[1:2]))


@simple("std::io::Error::other", "std::io::error::<impl std::io::Error>::other")
def _err_other(I, e):
    return Obj("ioerr", ("Other", e))


@path("std::io::Error::kind")
def _err_kind(I, t):
    l = variants(I, sig_of(I, t)["ret"])
    return lambda a: Agg(l.index(err_kind(I, a[0])), ())


@simple("std::io::Error::is_interrupted")
def _err_is_interrupted(I, p):
    return err_kind(I, p) == "Interrupted"


@path("std::io::Write::write_all")
def _write_all(I, t):
    st = targs(t)[0]
    r = I.mir.resolve("std::io::Write", "write", [st])
    if r is None:
        return None

    def h(a):
        p = a[1]
        while True:
            b = bytes_val(I, p)
            if b is not None:
                if I.ctx.branch(str_is_empty(I, b.d[0])):
                    return OK(UNIT)
            elif not slice_seq(I, p):
                return OK(UNIT)
            res = I.force(I.call_inst(r["inst"], [a[0], p]))
            if res.var == 1:
                if err_kind(I, res.f[0]) == "Interrupted":
                    continue
                return res
            n = res.f[0]
            if b is not None:
                total = str_len_term(I, b.d[0])
                if I.ctx.branch(I.ctx.cmp("eq", n, total)):
                    return OK(UNIT)
                p = as_slice(I, b)
            else:
                p = as_slice(I, p)
            k = I.conc_int(n)
            if k == 0:
                return ERR(io_err("WriteZero"))
            if k > p.e - p.s:
                return ERR(io_err("panic"))
            p = SliceRef(p.c, p.p, p.s + k, p.e)
    return h


@simple("std::hash::RandomState::new", "std::collections::hash_map::RandomState::new")
def _random_state(I):
    return Obj("random_state", ())


# --------------------------------------------------------------- reading

def remaining(I, p):
    """SliceRef behind &mut &[u8] (expanding a string's bytes once)"""
    v = I.load(p)
    b = bytes_val(I, v)
    if b is not None:
        v = as_slice(I, b)
        I.store(p, v)
    elif type(v) is not SliceRef or v.e is None:
        v = as_slice(I, v)
        I.store(p, v)
    return v


def _slice_read(I, p, buf):
    v = remaining(I, p)
    buf = as_slice(I, buf)
    n = min(buf.e - buf.s, v.e - v.s)
    src = slice_seq(I, v)[:n]
    for k in range(n):
        I.store(sl_ptr(buf, k), src[k])
    I.store(p, SliceRef(v.c, v.p, v.s + n, v.e))
    return OK(n)


def read_inst(I, st):
    return I.mir.resolve("std::io::Read", "read", [st])


def read_byte(I, inst, p):
    """Some(Ok(byte)), Some(Err) or None"""
    v = I.load(p)
    while type(v) is Ptr:
        p, v = v, I.load(v)
    if type(v) is SliceRef or bytes_val(I, v) is not None:
        v = remaining(I, p)
        if v.s == v.e:
            return NONE
        I.store(p, SliceRef(v.c, v.p, v.s + 1, v.e))
        return SOME(OK(I.force(I.get(v.c.v, v.p)).f[v.s]))
    while True:
        c = Cell(Seq((0,)))
        r = I.force(I.call_inst(inst, [p, SliceRef(c, (), 0, 1)]))
        if r.var == 1:
            if err_kind(I, r.f[0]) == "Interrupted":
                continue
            return SOME(r)
        if I.conc_int(r.f[0]) == 0:
            return NONE
        return SOME(OK(c.v.f[0]))


@path("alloc::io::util::inlined_slow_read_byte")
def _slow_read_byte(I, t):
    st = targs(t)[0]
    r = read_inst(I, st)
    if r is None:
        return None
    return lambda a: read_byte(I, r["inst"], a[0])


# --------------------------------------------------------------- utf-8

def utf8_decode(I, l):
    """chars of bytes (ints and terms), or None when they are no UTF-8"""
    ctx = I.ctx
    out = []
    i = 0
    src = ctx.__dict__.setdefault("bytesrc", {})
    while i < len(l):
        b = ctx.norm(l[i])
        e = src.get(id(l[i]))
        if e is not None and e[2] == 0:
            n = e[3]
            g = [src.get(id(x)) for x in l[i:i + n]]
            if len(g) == n and all(x is not None and x[1] is e[1] and x[2] == k for k, x in enumerate(g)):
                out.append(ctx.norm(e[1]))
                i += n
                continue
            if len(g) < n and all(x is not None and x[1] is e[1] and x[2] == k for k, x in enumerate(g)):
                return None
        if type(b) is int:
            n = 1 if b < 0x80 else 2 if 0xC2 <= b < 0xE0 else 3 if 0xE0 <= b < 0xF0 else 4 if 0xF0 <= b < 0xF5 else 0
        else:
            n = (1, 2, 3, 4, 0)[ctx.choose((ctx.int_in(b, ((0, 0x7f),)), ctx.int_in(b, ((0xC2, 0xDF),)), ctx.int_in(b, ((0xE0, 0xEF),)),
                                            ctx.int_in(b, ((0xF0, 0xF4),)), ctx.int_in(b, ((0x80, 0xC1), (0xF5, 0xFF)))))]
        if n == 0 or i + n > len(l):
            return None
        c = b if n == 1 else ctx.add(b, -(0xC0, 0xE0, 0xF0)[n - 2])
        for x in l[i + 1:i + n]:
            if not ctx.branch(ctx.int_in(x, ((0x80, 0xBF),))):
                return None
            c = ctx.add(ctx.mul(c, 64), ctx.add(x, -0x80))
        if n > 1 and not ctx.branch(ctx.int_in(c, (((0x80, 0x7ff),), ((0x800, 0xd7ff), (0xe000, 0xffff)), ((0x10000, 0x10ffff),))[n - 2])):
            return None
        out.append(c)
        i += n
    return out


UTF8_ERR = Obj("utf8err", ())


def from_utf8(I, p, lossy=False):
    b = bytes_val(I, p)
    if b is not None:
        return OK(b.d[0])
    l = slice_seq(I, p)
    cs = utf8_decode(I, l)
    if cs is None:
        return ERR(UTF8_ERR)
    return OK(s_from_chars(cs))


@simple("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8", "std::string::String::from_utf8")
def _from_utf8(I, p):
    return from_utf8(I, p)


@simple("std::string::String::from_utf8_lossy")
def _from_utf8_lossy(I, p):
    r = from_utf8(I, p)
    if r.var == 1:
        raise Unsupported("from_utf8_lossy of bytes that are no UTF-8")
    return Agg(1, (sv(I, r.f[0]),))


@simple("std::vec::Vec::<T, A>::capacity", "std::string::String::capacity")
def _capacity(I, p):
    return 1 << 40


# --------------------------------------------------------------- files

def path_of(I, p):
    v = I.load(p) if type(p) is Ptr else p
    if type(v) is Obj and v.k == "path":
        return v.d[0]
    return s_conc(sv(I, v))


def file_open(I, p):
    k = path_of(I, p)
    files = I.ctx.__dict__.get("files", {})
    if k not in files:
        raise Unsupported("file " + k)
    content, fault = files[k]
    if fault == 1:
        return ERR(io_err("NotFound"))
    return OK(Obj("file", (Cell(content), fault)))


@simple("std::fs::File::open")
def _file_open(I, p):
    return file_open(I, p)


@simple("std::path::Path::new")
def _path_new(I, p):
    return p


@simple("std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::try_exists")
def _path_exists(I, p):
    raise Unsupported("file system queries")


def the_file(I, p):
    v = I.load(p) if type(p) is Ptr else p
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is Obj and v.k == "file":
        return v
    raise Unsupported("file %r" % (v,))


def take_rest(I, f):
    """Ok(bytes left) or Err"""
    if f.d[1]:
        return ERR(io_err("IsADirectory"))
    c = f.d[0]
    v = c.v
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is Seq:
        v = SliceRef(Cell(v), (), 0, len(v.f))
    c.v = SliceRef(Cell(Seq(())), (), 0, 0)
    return OK(v)


def append(I, p, v):
    PATH["std::vec::Vec::<T, A>::extend_from_slice"](I, {"path": "", "args": [], "inst": None})([p, v])


def blen(I, v):
    b = bytes_val(I, v)
    return str_len_term(I, b.d[0]) if b is not None else len(slice_seq(I, v))


@simple("std::fs::<impl std::io::Read for std::fs::File>::read_to_end", "std::fs::<impl std::io::Read for &std::fs::File>::read_to_end",
        "<std::fs::File as std::io::Read>::read_to_end", "<&std::fs::File as std::io::Read>::read_to_end")
def _file_read_to_end(I, p, buf):
    r = take_rest(I, the_file(I, p))
    if r.var == 1:
        return r
    append(I, buf, r.f[0])
    return OK(blen(I, r.f[0]))


@simple("<std::fs::File as std::io::Read>::read_to_string", "<&std::fs::File as std::io::Read>::read_to_string")
def _file_read_to_string(I, p, buf):
    r = take_rest(I, the_file(I, p))
    if r.var == 1:
        return r
    s = from_utf8(I, r.f[0])
    if s.var == 1:
        return ERR(io_err("InvalidData"))
    n = blen(I, r.f[0])
    I.store(buf, s_norm(I.ctx, s_cat(sv(I, buf), sv(I, s.f[0]))))
    return OK(n)


@simple("<std::fs::File as std::io::Read>::read", "<&std::fs::File as std::io::Read>::read")
def _file_read(I, p, buf):
    f = the_file(I, p)
    if f.d[1]:
        return ERR(io_err("IsADirectory"))
    c = f.d[0]
    v = c.v
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is Seq:
        v = SliceRef(Cell(v), (), 0, len(v.f))
    c.v = v
    return _slice_read(I, Ptr(c), buf)


@simple("std::fs::read")
def _fs_read(I, p):
    r = file_open(I, p)
    if r.var == 0:
        r = take_rest(I, r.f[0])
    if r.var == 1:
        return r
    v = r.f[0]
    b = bytes_val(I, v)
    return OK(b if b is not None else Seq(tuple(slice_seq(I, v))))


@simple("std::fs::read_to_string")
def _fs_read_to_string(I, p):
    r = _fs_read(I, p)
    if r.var == 1:
        return r
    s = from_utf8(I, r.f[0])
    return ERR(io_err("InvalidData")) if s.var == 1 else OK(sv(I, s.f[0]))


PATH["std::io::impls::<impl std::io::Read for &[u8]>::read"] = lambda I, t: (lambda a: _slice_read(I, *a))


OLD_FROM = TRAIT["std::convert::From::from"]


@trait("std::convert::From::from")
def _from(I, t):
    ts = targs(t)
    if len(ts) > 1 and I.ty(ts[0])["s"].endswith("io::Error") and I.ty(ts[1])["s"].endswith("io::ErrorKind"):
        return lambda a: Obj("ioerr", (kind_name(I, ts[1], a[0]),))
    return OLD_FROM(I, t)


# --------------------------------------------------------------- buffers

def read_of(I, t, method="read"):
    r = I.mir.resolve("std::io::Read", method, [t])
    if r is None:
        raise Unsupported("no reader: " + I.ty(t)["s"])
    return r["inst"]


def write_of(I, t, method="write"):
    r = I.mir.resolve("std::io::Write", method, [t])
    if r is None:
        raise Unsupported("no writer: " + I.ty(t)["s"])
    return r["inst"]


def behind(I, p, k):
    v = I.load(p) if type(p) is Ptr else p
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is Obj and v.k == k:
        return v
    raise Unsupported("%s expected, got %r" % (k, v))


class BufW:
    """state of a BufWriter"""
    def __init__(self, inner, ty, cap):
        self.inner, self.ty, self.cap, self.buf = Cell(inner), ty, cap, []
        self.moved = False


def bytes_list(I, p):
    b = bytes_val(I, p)
    return list(utf8(I, b.d[0])) if b is not None else list(slice_seq(I, p))


def bw_flush(I, w):
    """None or the error"""
    inst = write_of(I, w.ty)
    while w.buf:
        r = I.force(I.call_inst(inst, [Ptr(w.inner), SliceRef(Cell(Seq(tuple(w.buf))), (), 0, len(w.buf))]))
        if r.var == 1:
            if err_kind(I, r.f[0]) == "Interrupted":
                continue
            return r
        n = I.conc_int(r.f[0])
        if n == 0:
            return ERR(io_err("WriteZero"))
        del w.buf[:n]
    return None


@path("std::io::BufWriter::<W>::new", "std::io::BufWriter::<W>::with_capacity")
def _bw_new(I, t):
    wt = targs(t)[0]
    return lambda a: Obj("bufwriter", (BufW(a[-1], wt, I.conc_int(a[0]) if len(a) > 1 else 8192),))


def bw_write(I, p, data):
    w = behind(I, p, "bufwriter").d[0]
    l = bytes_list(I, data)
    if len(w.buf) + len(l) > w.cap:
        r = bw_flush(I, w)
        if r is not None:
            return w, l, r
    if len(l) >= w.cap:
        return w, l, SliceRef(Cell(Seq(tuple(l))), (), 0, len(l))
    w.buf += l
    return w, l, None


@simple("<std::io::BufWriter<W> as std::io::Write>::write_all")
def _bw_write_all(I, p, data):
    w, l, r = bw_write(I, p, data)
    if type(r) is SliceRef:
        return I.call_inst(write_of(I, w.ty, "write_all"), [Ptr(w.inner), r])
    return OK(UNIT) if r is None else r


@simple("<std::io::BufWriter<W> as std::io::Write>::write")
def _bw_write(I, p, data):
    w, l, r = bw_write(I, p, data)
    if type(r) is SliceRef:
        return I.call_inst(write_of(I, w.ty), [Ptr(w.inner), r])
    return OK(len(l)) if r is None else r


@simple("<std::io::BufWriter<W> as std::io::Write>::flush")
def _bw_flush(I, p):
    w = behind(I, p, "bufwriter").d[0]
    r = bw_flush(I, w)
    return r if r is not None else I.call_inst(write_of(I, w.ty, "flush"), [Ptr(w.inner)])


@simple("std::io::BufWriter::<W>::into_inner")
def _bw_into_inner(I, v):
    w = v.d[0]
    r = bw_flush(I, w)
    if r is not None:
        return ERR(Agg(0, (v, r.f[0])))
    w.moved = True
    return OK(w.inner.v)


@simple("std::io::IntoInnerError::<W>::into_error")
def _iie(I, v):
    drop_writers(I, v.f[0])
    return v.f[1]


@simple("std::io::BufWriter::<W>::buffer")
def _bw_buffer(I, p):
    b = behind(I, p, "bufwriter").d[0].buf
    return SliceRef(Cell(Seq(tuple(b))), (), 0, len(b))


@simple("std::io::BufWriter::<W>::get_ref", "std::io::BufWriter::<W>::get_mut")
def _bw_get(I, p):
    return Ptr(behind(I, p, "bufwriter").d[0].inner)


def drop_writers(I, v):
    t = type(v)
    if t is Obj:
        if v.k == "bufwriter" and not v.d[0].moved:
            bw_flush(I, v.d[0])
            v.d[0].moved = True
            drop_writers(I, v.d[0].inner.v)
    elif t is Agg or t is Seq:
        for x in v.f:
            drop_writers(I, x)


@simple("std::mem::drop", "core::mem::drop")
def _mem_drop(I, v):
    drop_writers(I, v)
    return UNIT


class BufR:
    def __init__(self, inner, ty):
        self.inner, self.ty = Cell(inner), ty


@path("std::io::BufReader::<R>::new", "std::io::BufReader::<R>::with_capacity")
def _br_new(I, t):
    rt = targs(t)[0]
    return lambda a: Obj("bufreader", (BufR(a[-1], rt),))


def br_forward(method):
    def h(I, p, buf):
        r = behind(I, p, "bufreader").d[0]
        return I.call_inst(read_of(I, r.ty, method), [Ptr(r.inner), buf])
    return h


for _m in ("read", "read_exact", "read_to_end", "read_to_string"):
    simple("<std::io::BufReader<R> as std::io::Read>::" + _m)(br_forward(_m))


@simple("std::io::BufReader::<R>::into_inner")
def _br_into_inner(I, v):
    return v.d[0].inner.v


def read_all(I, inst, p):
    """Ok(list of bytes) or Err: what the reader gives until its end"""
    out = []
    while True:
        r = read_byte(I, inst, p)
        if r.var == 0:
            return OK(out)
        if r.f[0].var == 1:
            return r.f[0]
        out.append(r.f[0].f[0])


def rest_of_slice(I, p):
    v = I.load(p) if type(p) is Ptr else None
    while type(v) is Ptr:
        p, v = v, I.load(v)
    if bytes_val(I, v) is not None or type(v) is SliceRef:
        e = as_slice(I, v)
        I.store(p, SliceRef(e.c, e.p, e.e, e.e))
        return v
    return None


@path("std::io::Read::read_to_end", "std::io::impls::<impl std::io::Read for &[u8]>::read_to_end")
def _read_to_end(I, t):
    ts = targs(t)

    def h(a):
        v = rest_of_slice(I, a[0])
        if v is None:
            r = read_all(I, read_of(I, ts[0]), a[0])
            if r.var == 1:
                return r
            v = Seq(tuple(r.f[0]))
            v = SliceRef(Cell(v), (), 0, len(v.f))
        append(I, a[1], v)
        return OK(blen(I, v))
    return h


@path("std::io::Read::read_to_string", "std::io::impls::<impl std::io::Read for &[u8]>::read_to_string")
def _read_to_string(I, t):
    ts = targs(t)

    def h(a):
        v = rest_of_slice(I, a[0])
        if v is None:
            r = read_all(I, read_of(I, ts[0]), a[0])
            if r.var == 1:
                return r
            v = Seq(tuple(r.f[0]))
            v = SliceRef(Cell(v), (), 0, len(v.f))
        s = from_utf8(I, v)
        if s.var == 1:
            return ERR(io_err("InvalidData"))
        I.store(a[1], s_norm(I.ctx, s_cat(sv(I, a[1]), sv(I, s.f[0]))))
        return OK(blen(I, v))
    return h



def cursor_rest(I, p):
    while type(I.load(p)) is Ptr:
        p = I.load(p)
    c = I.load(p)
    v = as_slice(I, c.f[0] if type(c.f[0]) is not Seq else Ptr(p.c, p.p + (0,)))
    n = v.e - v.s
    k = min(I.conc_int(c.f[1]), n)
    I.store(Ptr(p.c, p.p + (1,)), n)
    return SliceRef(v.c, v.p, v.s + k, v.e)


@simple("std::io::cursor::<impl std::io::Read for std::io::Cursor<T>>::read_to_end")
def _cursor_read_to_end(I, p, buf):
    v = cursor_rest(I, p)
    append(I, buf, v)
    return OK(blen(I, v))


@simple("std::io::cursor::<impl std::io::Read for std::io::Cursor<T>>::read_to_string")
def _cursor_read_to_string(I, p, buf):
    v = cursor_rest(I, p)
    s = from_utf8(I, v)
    if s.var == 1:
        return ERR(io_err("InvalidData"))
    I.store(buf, s_norm(I.ctx, s_cat(sv(I, buf), sv(I, s.f[0]))))
    return OK(blen(I, v))
