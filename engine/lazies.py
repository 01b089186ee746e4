"""Symbolic inputs built on demand, abstract XML elements, and the harness intrinsics."""
from sym import *
from vals import *
import models, rx
import re

ELEM = "xmltree::Element"
LIB = "japanese_law_xml_schema::"
STRING = ("std::string::String", "alloc::string::String")
VEC = ("std::vec::Vec", "alloc::vec::Vec")


def targ(i, n=0):
    return [a["ty"] for a in i["args"] if a["k"] == "ty"][n]


class Stop(Exception):
    """end of the entry on this path (not an error)"""


class Violation(Exception):
    def __init__(self, kind, msg, where, model):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.where, self.model = kind, msg, where, model


# ------------------------------------------------------------------ lazies

def take(ctx, n=1):
    b = ctx.budget
    if b is None:
        return True
    if b[0] < n:
        return False
    b[0] -= n
    return True


def opt_present(ctx, name):
    """present/absent decision for an optional part under the budget"""
    c = ctx.conf
    v = ctx.var("?" + name, ((0, 1),))
    b = ctx.budget
    yes = InDom(v, ((1, 1),))
    if c.get("dense"):
        # everything present except `omit` omissions
        if b[0] <= 0:
            ctx.restrict(v, ((1, 1),))
            return True
        if ctx.branch(yes):
            return True
        b[0] -= 1
        return False
    if b is not None and b[0] <= 0:
        ctx.restrict(v, ((0, 0),))
        return False
    if ctx.branch(yes):
        if b is not None:
            b[0] -= 1
        return True
    return False


def vec_len(ctx, name, depth):
    c = ctx.conf
    K = c.get("K", 2)
    kd = c.get("Kdepth")
    if kd is not None:
        K = kd[depth] if depth < len(kd) else 0
    b = ctx.budget
    lo, hi = 0, K
    if c.get("dense"):
        lo = K if b[0] <= 0 else 0
    elif b is not None:
        hi = min(K, b[0])
    if lo == hi:
        n = lo
    else:
        v = ctx.var("#" + name, ((lo, hi),))
        n = ctx.choose([InDom(v, ((k, k),)) for k in range(lo, hi + 1)]) + lo
    if b is not None:
        if c.get("dense"):
            b[0] -= (K - n)
        else:
            b[0] -= n
    return n


def mk(I, name, ty, depth=0):
    """an arbitrary value: scalars at once (they need no decision), the rest on demand"""
    if I.ty(ty)["k"] in ("uint", "int", "bool", "char"):
        return force_lazy(I, Lazy(name, ty, depth))
    return Lazy(name, ty, depth)


def build(I, v):
    """one layer of the value of a Lazy"""
    ctx = I.ctx
    i = I.ty(v.ty)
    k = i["k"]
    nm = v.name
    if k == "uint":
        return ctx.intvar(nm, 0, (1 << i["bits"]) - 1)
    if k == "int":
        return ctx.intvar(nm, -(1 << (i["bits"] - 1)), (1 << (i["bits"] - 1)) - 1)
    if k == "bool":
        x = ctx.var(nm, ((0, 1),))
        return InDom(x, ((1, 1),))
    if k == "char":
        x = ctx.var(nm, models.SURR_OK)
        return Lin(((x, 1),), 0)
    if k == "tuple":
        return Agg(0, tuple(mk(I, "%s.%d" % (nm, j), e, v.depth) for j, e in enumerate(i["elems"])))
    if k == "array":
        return Seq(tuple(mk(I, "%s[%d]" % (nm, j), i["elem"], v.depth) for j in range(i["len"])))
    if k == "ref":
        e = I.ty(i["elem"])
        if e["k"] == "str":
            return StrV((opq_new(ctx, nm),))
        return Ptr(Cell(mk(I, nm + "*", i["elem"], v.depth)))
    if k != "adt":
        raise Unsupported("arbitrary value of " + i["s"])
    p = i["path"]
    if p in STRING:
        return StrV((opq_new(ctx, nm),))
    if p in VEC:
        n = vec_len(ctx, nm, v.depth)
        return Seq(tuple(mk(I, "%s[%d]" % (nm, j), targ(i), v.depth + 1) for j in range(n)))
    if p == "std::boxed::Box":
        return Ptr(Cell(mk(I, nm + "*", targ(i), v.depth)))
    if p == "std::option::Option":
        return SOME(mk(I, nm + ".some", targ(i), v.depth)) if opt_present(ctx, nm) else NONE
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        raise Unsupported("iteration over an arbitrary map")
    if models.is_std(p) or p.startswith(("xml::", "regex::")):
        raise Unsupported("arbitrary value of " + i["s"])
    if i["adt_kind"] == "Enum":
        vs = i["variants"]
        x = ctx.var("@" + nm, ((0, len(vs) - 1),))
        only = ctx.conf.get("nodes")            # kinds of nodes an arbitrary element holds
        if only and p == "xmltree::XMLNode":
            js = [j for j in range(len(vs)) if vs[j]["name"] in only]
            ctx.restrict(x, rs_norm([(j, j) for j in js]))
            j = js[ctx.choose([InDom(x, ((j, j),)) for j in js])] if len(js) > 1 else js[0]
            return Agg(j, tuple(mk(I, "%s.%s%d" % (nm, vs[j]["name"], m), f["ty"], v.depth) for m, f in enumerate(vs[j]["fields"])))
        if all(not w["fields"] for w in vs):
            if len(vs) == 1:
                return Agg(0, ())
            return FD(x, {j: Agg(j, ()) for j in range(len(vs))})
        j = ctx.choose([InDom(x, ((j, j),)) for j in range(len(vs))]) if len(vs) > 1 else 0
        return Agg(j, tuple(mk(I, "%s.%s%d" % (nm, vs[j]["name"], m), f["ty"], v.depth) for m, f in enumerate(vs[j]["fields"])))
    if i["adt_kind"] == "Struct":
        return Agg(0, tuple(mk(I, "%s.%s" % (nm, f["name"]), f["ty"], v.depth) for f in i["variants"][0]["fields"]))
    raise Unsupported("arbitrary value of " + i["s"])


def force_lazy(I, v):
    ctx = I.ctx
    if type(v) is Tok:
        return materialise(I, v)
    key = v.name
    r = ctx.lazies.get(key)
    if r is None:
        if ctx.spec and not simple_lazy(I, v):
            raise NoMerge()
        r = build(I, v)
        ctx.lazies[key] = r
    return r


def simple_lazy(I, v):
    return False


# ------------------------------------------------------------------ tokens
# Tok("elem", name, d): d = (kind, U, value pointer, tag StrV or None, self inst)
# kind "trait": <U as ToXmlElement>::to_xml_element; "named": ..WithName; "spec"/"specn": the harness encoders
# Tok("chl", name, d): children of the element token d

def tok_new(ctx, kind, name, d):
    return Tok(kind, ctx.fresh(name), d)


def materialise(I, t):
    ctx = I.ctx
    key = ("tok", t.name)
    r = ctx.lazies.get(key)
    if r is not None:
        return r
    if t.kind == "chl":
        e = force_lazy(I, t.d)
        fi = elem_fields(I)
        r = I.force(e.f[fi["children"]])
    else:
        kind, U, vp, tag, inst = t.d
        if ctx.spec:
            raise NoMerge()
        ctx.mat = getattr(ctx, "mat", 0) + 1
        args = [vp] if kind in ("trait", "spec") else [vp, tag]
        sub = I.tok_suspend
        r = I.force(I.call_raw(inst, args))
    ctx.lazies[key] = r
    return r


def elem_fields(I):
    m = I.__dict__.get("_elemf")
    if m is None:
        i = I.ty(I.elem_ty)
        m = I._elemf = {f["name"]: n for n, f in enumerate(i["variants"][0]["fields"])}
    return m


def lazy_field(I, v, p):
    if type(v) is not Tok or v.kind != "elem":
        return None
    key = ("tok", v.name)
    if key in I.ctx.lazies:
        return None
    fi = elem_fields(I)
    if p == fi["name"]:
        kind, U, vp, tag, inst = v.d
        if tag is None:
            tag = I.tag_of(U, kind, inst)
        return tag
    if p == fi["children"]:
        return Tok("chl", v.name + "/c", v)
    return None


def unlazy(I, v):
    """follow memoised lazies / tokens without forcing anything new"""
    while True:
        t = type(v)
        if t is Lazy and v.name in I.ctx.lazies:
            v = I.ctx.lazies[v.name]
        elif t is Tok and ("tok", v.name) in I.ctx.lazies:
            v = I.ctx.lazies[("tok", v.name)]
        elif t is FD:
            w = I.ctx.norm(v)
            if w is v:
                return v
            v = w
        else:
            return v


def lazy_eq(I, a, b):
    ta, tb = type(a), type(b)
    if ta is Lazy and tb is Lazy:
        return True if a.name == b.name else None
    if ta is Lazy and I.ctx.lazies.get(a.name) is b or tb is Lazy and I.ctx.lazies.get(b.name) is a:
        return True
    if ta is Tok and tb is Tok:
        if a.name == b.name:
            return True
        x, y = (a.d.d, b.d.d) if a.kind == "chl" and b.kind == "chl" else (a.d, b.d) if a.kind == b.kind else (None, None)
        if x is None or x[1] != y[1]:
            return None
        ctx = I.ctx
        r = models.veq(I, x[2], y[2])
        if a.kind == "elem":
            t1, t2 = (z[3] if z[3] is not None else I.tag_of(z[1], z[0], z[4]) for z in (x, y))
            r = ctx.b_and([r, s_eq(ctx, t1, t2)])
        return r
    return None


# ------------------------------------------------------------------ open attribute maps

def lazy_map_get(I, p, k):
    """lookup in an arbitrary map: Option<&V>"""
    v = p
    while type(v) is Ptr:
        v = I.load(v)
    if type(v) is not Lazy:
        return None
    ctx = I.ctx
    i = I.ty(v.ty)
    ks = s_conc(models.sv(I, models.deref_key(I, k)))
    if ks is None:
        raise Unsupported("symbolic key of an arbitrary map")
    key = ("mapget", v.name, ks)
    r = ctx.lazies.get(key)
    if r is None:
        x = ctx.var("?%s[%s]" % (v.name, ks), ((0, 1),))
        left = ctx.conf.get("attrs")            # how many keys an arbitrary map may still hold
        if left is not None and ctx.mapkeys >= left:
            ctx.restrict(x, ((0, 0),))
        if ctx.branch(InDom(x, ((1, 1),))):
            ctx.mapkeys += 1
            r = SOME(Ptr(Cell(mk(I, "%s[%s]" % (v.name, ks), targ(i, 1), v.depth))))
        else:
            r = NONE
        ctx.lazies[key] = r
    return r


# ------------------------------------------------------------------ opaque integers

def is_int(s, lo, hi):
    return re.fullmatch(r"[+-]?[0-9]+", s) is not None and not (s[0] == "-" and lo == 0) and lo <= int(s) <= hi


def is_num(s):
    """the Num form of an article number (sure for numbers of ordinary size)"""
    return re.fullmatch(r"[0-9]+(_[0-9]+)*(:[0-9]+(_[0-9]+)*)?", s) is not None


def opq_parse_int(I, a, bits, sg):
    ctx = I.ctx
    key = ("int", a.name, bits, sg)
    r = ctx.lazies.get(key, 0)
    if r == 0:
        if a.none is not None and a.none[0] == "num":
            raise Unsupported("integer parse of an abstract article number string")
        x = ctx.var("int?" + a.name, ((0, 1),))
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if ctx.branch(InDom(x, ((1, 1),))):
            r = ctx.intvar("int:" + a.name, lo, hi)
            opq_fact(ctx, a, lambda s: is_int(s, lo, hi))
        else:
            r = None
            opq_fact(ctx, a, lambda s: not is_int(s, lo, hi))
        ctx.lazies[key] = r
    return r


# ------------------------------------------------------------------ interception

def path_matches(p, *suffix):
    return p in suffix or any(p.endswith("::" + s) for s in suffix)


def find_elem_ty(I, t):
    """index of xmltree::Element as an argument/return type of an instance"""
    sg = I.mir.sig(t["inst"]["inst"])
    for x in [sg["ret"]] + list(sg["args"]):
        i = I.ty(x)
        while i["k"] in ("ref", "ptr"):
            x = i["elem"]
            i = I.ty(x)
        if i["k"] == "adt" and i["path"].endswith("Element"):
            return x
    return None


def install(I):
    I.force_lazy = lambda v: force_lazy(I, v)
    I.lazy_field = lambda v, p: lazy_field(I, v, p)
    I.lazy_eq = lambda a, b: lazy_eq(I, a, b)
    I.lazy_map_get = lambda p, k: lazy_map_get(I, p, k)
    I.opq_parse_int = lambda a, b, s: opq_parse_int(I, a, b, s)
    I.elem_ty = None
    I.tok_suspend = None
    I.tags = {}
    I.tag_of = lambda U, kind, inst: tag_of(I, U, kind, inst)
    I.nest_ok = set()          # type names whose round trip is verified (shortcuts allowed)
    I.intercepts.append(intercept)


def tag_of(I, U, kind, inst):
    key = (U, kind)
    if key not in I.tags:
        names = set()
        from explore import subrun

        def go():
            v = Lazy("tagprobe", U)
            e = I.call_raw(inst, [Ptr(Cell(v))])
            s = I.get(e, (elem_fields(I)["name"],))
            names.add(s_conc(s_norm(I.ctx, s)))
        if not subrun(I, go, {"budget": 0, "K": 0, "nest": True, "tagprobe": True}, 400):
            names = set()
        I.tags[key] = names
    names = I.tags[key]
    if len(names) != 1 or None in names:
        return None
    return S(next(iter(names)))


def type_name(I, U):
    i = I.ty(U)
    return i.get("path", i["s"]).rsplit("::", 1)[-1]


def intercept(I, t):
    p = t["path"]
    if p.startswith("harness::vx::"):
        return vx_handler(I, p[len("harness::vx::"):], t)
    if p.startswith(LIB + "verif_hooks::"):
        n = p.rsplit("::", 1)[-1]
        if n in ("to_element", "to_element_with_name", "from_element"):
            U = models.targs(t)[0]
            inst = t["inst"]["inst"]
            mode = {"to_element": "to", "to_element_with_name": "named", "from_element": "from"}[n]
            if I.elem_ty is None:
                I.elem_ty = find_elem_ty(I, t)

            def top(a):
                I.ctx.arm = (mode, U)
                return I.call_raw(inst, a)
            return top
        return None
    tr = t.get("trait")
    inst = t["inst"]
    if inst is None:
        return None
    if tr and path_matches(p, "to_xml::ToXmlElement::to_xml_element"):
        return writer_handler(I, t, "to", "trait")
    if tr and path_matches(p, "to_xml::ToXmlElementWithName::to_xml_element_with_name"):
        return writer_handler(I, t, "named", "named")
    if tr and path_matches(p, "parser::Parser::parser"):
        return parser_handler(I, t)
    if tr and path_matches(p, "spec::Spec::enc"):
        return writer_handler(I, t, "spec", "spec")
    if tr and path_matches(p, "spec::SpecNamed::enc_named"):
        return writer_handler(I, t, "specn", "specn")
    if path_matches(inst["path"], "article_number::ArticleNumber::num_str"):
        return num_str_handler(I, t)
    if path_matches(inst["path"], "article_number::ArticleNumber::from_num_str"):
        return from_num_str_handler(I, t)
    if path_matches(inst["path"], "text::Text::from_children"):
        return from_children_handler(I, t)
    return None


def writer_handler(I, t, mode, kind):
    U = models.targs(t)[0]
    inst = t["inst"]["inst"]
    if I.elem_ty is None:
        I.elem_ty = find_elem_ty(I, t)
    nm = type_name(I, U)

    def h(a):
        ctx = I.ctx
        if ctx.arm == (mode, U):
            ctx.arm = None
            return I.call_raw(inst, a)
        if not ctx.conf.get("nest"):
            return I.call_raw(inst, a)
        m = ctx.stats.models
        m["nested " + t["path"]] = m.get("nested " + t["path"], 0) + 1
        # the value as it is now
        v = I.load(a[0])
        tag = a[1] if kind in ("named", "specn") else None
        if tag is not None:
            tag = models.sv(I, tag)
        elif not ctx.conf.get("tagprobe") and I.tag_of(U, kind, inst) is None:
            return I.call_raw(inst, a)
        return tok_new(ctx, "elem", "<%s>" % nm, (kind, U, Ptr(Cell(v)), tag, inst))
    return h


def as_lazy_elem(I, p):
    v = p
    while type(v) is Ptr:
        v = I.load(v)
    return v


NO_NAME_CHECK = ("Text", "Caption", "Contents", "TextWithWritingMode", "Fig", "Style", "Note", "Format", "ArithFormula", "QuoteStruct")


def parser_handler(I, t):
    U = models.targs(t)[0]
    inst = t["inst"]["inst"]
    if I.elem_ty is None:
        I.elem_ty = find_elem_ty(I, t)
    nm = type_name(I, U)

    def h(a):
        ctx = I.ctx
        if ctx.arm == ("from", U):
            ctx.arm = None
            return I.call_raw(inst, a)
        e = as_lazy_elem(I, a[0])
        if type(e) is Tok and e.kind == "elem" and e.d[1] == U and nm != "Text" and ("tok", e.name) not in ctx.lazies \
                and e.d[0] in ("trait", "spec"):
            return OK(I.load(e.d[2]))
        if type(e) is Lazy and ctx.conf.get("absread") and nm != "Struct" and e.name not in ctx.inputs:
            key = ("read", e.name, U)
            r = ctx.lazies.get(key)
            if r is None:
                x = ctx.var("ok?%s:%s" % (e.name, nm), ((0, 1),))
                if ctx.branch(InDom(x, ((1, 1),))):
                    if nm not in NO_NAME_CHECK:
                        # by P05 (induction): a reader accepts its own tag only
                        tag = I.get(e, (elem_fields(I)["name"],))
                        if not ctx.branch_assume(s_eq(ctx, models.sv(I, tag), StrV((nm,)))):
                            raise PathEnd("tag")
                    r = OK(Lazy("%s:%s" % (e.name, nm), U))
                else:
                    rt = I.ty(I.mir.sig(inst)["ret"])
                    r = ERR(Lazy("%s:%s!" % (e.name, nm), targ(rt, 1)))
                ctx.lazies[key] = r
            return r
        return I.call_raw(inst, a)
    return h


def num_str_handler(I, t):
    inst = t["inst"]["inst"]

    def h(a):
        ctx = I.ctx
        v = as_lazy_elem(I, a[0])
        if type(v) is Lazy and ctx.conf.get("nest") and v.name not in ctx.lazies:
            key = ("numstr", v.name)
            r = ctx.lazies.get(key)
            if r is None:
                r = ctx.lazies[key] = StrV((opq_new(ctx, "num_str(%s)" % v.name, ("num", v)),))
            return r
        return I.call_raw(inst, a)
    return h


def from_num_str_handler(I, t):
    inst = t["inst"]["inst"]

    def h(a):
        ctx = I.ctx
        if not ctx.conf.get("nest"):
            return I.call_raw(inst, a)
        s = models.sv(I, a[0])
        if len(s.a) == 1 and type(s.a[0]) is Opq:
            o = s.a[0]
            if o.none is not None and o.none[0] == "num":
                return OK(o.none[1])
            rt = I.ty(I.mir.sig(inst)["ret"])
            key = ("artnum", o.name)
            r = ctx.lazies.get(key)
            if r is None:
                x = ctx.var("num?" + o.name, ((0, 1),))
                if ctx.branch(InDom(x, ((1, 1),))):
                    r = OK(Lazy("num:" + o.name, targ(rt, 0)))
                    opq_fact(ctx, o, lambda s: any(c.isdigit() for c in s))
                else:
                    opq_fact(ctx, o, lambda s: not is_num(s))
                    r = ERR(Lazy("num!" + o.name, targ(rt, 1)))
                ctx.lazies[key] = r
            return r
        return I.call_raw(inst, a)
    return h


def from_children_handler(I, t):
    inst = t["inst"]["inst"]

    def h(a):
        ctx = I.ctx
        if ctx.arm == ("from_children", 0):
            ctx.arm = None
            return I.call_raw(inst, a)
        if ctx.conf.get("nest"):
            v = a[0]
            if type(v) is SliceRef:
                w = I.get(v.c.v, v.p)
            else:
                w = as_lazy_elem(I, v)
            if type(w) is Tok and w.kind == "chl" and type_name(I, w.d.d[1]) == "Text" and w.d.d[0] in ("named", "specn") \
                    and ("tok", w.name) not in ctx.lazies and ("tok", w.d.name) not in ctx.lazies:
                return I.load(w.d.d[2])
            if type(w) is Lazy and ctx.conf.get("absread"):
                return Lazy("text(%s)" % w.name, I.mir.sig(inst)["ret"])
        return I.call_raw(inst, a)
    return h


# ------------------------------------------------------------------ harness intrinsics

CLASSES = {
    "any": models.SURR_OK,
    "digit": ((48, 57),),
    "space": rx.WS,
    # not white space, not brackets, not the start of 附則 or 削除
    "word": rs_sub(models.SURR_OK, rs_norm(list(rx.WS) + [(c, c) for c in map(ord, "（）附削")])),
    # anything that can stand inside a line, at its ends, or between its words
    "line": rs_sub(models.SURR_OK, ((10, 10),)),
    "ink": rs_sub(models.SURR_OK, rx.WS),
    "gap": rs_sub(rx.WS, ((10, 10),)),
    "law": rs_sub(models.SURR_OK, rs_norm(list(rx.WS) + [(c, c) for c in map(ord, "（）")])),
    # not white space, brackets or 附, and no digit, kanji number, kana, letter or 第 an enumeration starts with
    "prose": rs_sub(models.SURR_OK, rs_norm(
        list(rx.WS) + [(c, c) for c in map(ord, "（）附第〇零一二三四五六七八九十百千万億兆京壱弐参")] +
        [(48, 57), (65, 90), (97, 122), (0x2160, 0x217f), (0x3041, 0x309f), (0x30a0, 0x30ff), (0xff10, 0xff19), (0xff21, 0xff3a),
         (0xff41, 0xff5a)])),
}


NAMED = ("any", "any_element", "int", "choose", "digits", "ch", "text", "param", "explicit")


def vx_handler(I, n, t):
    def h(a):
        ctx = I.ctx
        name = s_conc(models.sv(I, a[0])) if a and n in NAMED else None
        if n in ("int", "choose", "ch", "text", "digits") and name in ctx.inputs:
            return ctx.norm(ctx.inputs[name][0])
        if n == "any":
            T = models.targs(t)[0]
            i = I.ty(T)
            v = Lazy(name, T)
            ctx.inputs[name] = (v, T)
            return force_lazy(I, v) if i["k"] in ("uint", "int", "bool", "char") else v
        if n == "any_element":
            if I.elem_ty is None:
                I.elem_ty = find_elem_ty(I, t)
            v = Lazy(name, I.elem_ty)
            ctx.inputs[name] = (v, I.elem_ty)
            return v
        if n == "int":
            lo, hi = I.conc_int(a[1]), I.conc_int(a[2])
            v = ctx.intvar(name, lo, hi) if lo < hi else lo
            ctx.inputs[name] = (v, "int")
            return v
        if n == "choose":
            k = I.conc_int(a[1])
            if k <= 0:
                raise PathEnd("choice of nothing")
            x = ctx.var(name, ((0, k - 1),))
            r = ctx.choose([InDom(x, ((j, j),)) for j in range(k)]) if k > 1 else 0
            ctx.inputs[name] = (r, "int")
            return r
        if n == "digits":
            k = I.conc_int(a[1])
            x = ctx.var("len:" + name, ((1, k),))
            d = ctx.choose([InDom(x, ((j, j),)) for j in range(1, k + 1)]) + 1
            tot = 0
            for j in range(d):
                y = ctx.intvar("%s.d%d" % (name, j), 1 if j == 0 and d > 1 else 0, 9)
                tot = ctx.add(ctx.mul(tot, 10), y)
            ctx.inputs[name] = (tot, "int")
            return tot
        if n == "ch":
            c = s_conc(models.sv(I, a[1]))
            x = ctx.var(name, I.char_class(c))
            v = Lin(((x, 1),), 0)
            ctx.inputs[name] = (v, "char")
            return v
        if n == "text":
            s = StrV((opq_new(ctx, name),))
            ctx.inputs[name] = (s, "str")
            return s
        if n in ("spec", "spec_named"):
            ctx.arm = ("spec" if n == "spec" else "specn", models.targs(t)[0])
            return I.call_raw(t["inst"]["inst"], a)
        if n == "text_of":
            ctx.arm = ("from_children", 0)
            return I.call_raw(t["inst"]["inst"], a)
        if n == "explicit":
            if not ctx.conf.get("explicit"):
                return False
            x = ctx.var("explicit:" + name, ((0, 1),))
            r = InDom(x, ((1, 1),))
            ctx.inputs["explicit:" + name] = (r, "bool")
            return r
        if n == "private_field":
            f = s_conc(models.sv(I, a[1]))
            S_, T_ = models.targs(t)[:2]
            fi = [x["name"] for x in I.ty(S_)["variants"][0]["fields"]]
            return I.load(Ptr(a[0].c, a[0].p + (fi.index(f),)))
        if n == "param":
            v = ctx.conf["params"][name]
            ctx.inputs["param:" + name] = (v, "int")
            return v
        if n == "file":
            k = "/vx/%d" % len(ctx.__dict__.setdefault("files", {}))
            ctx.files[k] = (a[0], I.conc_int(a[1]))
            return StrV((k,))
        if n == "remove":
            return UNIT
        if n == "assume":
            if not ctx.branch_assume(a[0]):
                raise PathEnd("assumption")
            return UNIT
        if n == "check":
            return do_check(I, I.ctx.i2b(a[0]) if type(a[0]) is not bool else a[0], models.sv(I, a[1]))
        if n in ("check_eq", "check_eq_element"):
            c = models.veq(I, a[0], a[1])
            return do_check(I, c, models.sv(I, a[2]))
        raise Unsupported("harness intrinsic " + n)
    return h


def char_class(I, c):
    if c in CLASSES:
        return CLASSES[c]
    return rs_norm([(ord(x), ord(x)) for x in c])       # the characters themselves


def do_check(I, c, msg):
    ctx = I.ctx
    m = s_conc(msg)
    ctx.stats.checks += 1
    ctx.stats.reach[m] = ctx.stats.reach.get(m, 0) + 1
    c = ctx.norm(c)
    nc = ctx.b_not(c) if type(c) is not bool else (not c)
    # the solver decides: path condition and not the assertion
    vs = set(ctx.vs(nc)) if type(nc) is not bool else set()
    r = ctx.extract([ctx.zb(nc)], vs)
    if r is not None:
        raise Violation("check", m, None, r)
    ctx.assume_term(c)
    return UNIT


def branch_assume(self, c):
    c = self.norm(c)
    if type(c) is bool:
        return c
    if type(c) is InDom:
        self.restrict(c.v, c.rs)
        return True
    if not self.feasible(c):
        return False
    self.assume_term(c)
    return True


Ctx.branch_assume = branch_assume


# ------------------------------------------------------------------ concrete values of a model

class Conc:
    """JSON of input values under a model (var -> int)"""

    def __init__(self, I, model):
        self.I, self.ctx = I, I.ctx
        self.m, self.zm = model
        self.n = 0

    def num(self, x):
        ctx = self.ctx
        t = type(x)
        if t in (int, bool):
            return x
        if t is Lin:
            return x.k + sum(c * self.var(v) for v, c in x.t)
        if t is FD:
            return x.tab[self.var(x.v)]
        if t is InDom:
            return rs_has(x.rs, self.var(x.v))
        if t in (ZI, ZB, BAnd):
            e = ctx.zi(x) if t is ZI else ctx.zb(x)
            e = z3.substitute(e, [(v.z, z3.IntVal(self.var(v))) for v in ctx.vs(x)])
            e = z3.simplify(e)
            return e.as_long() if t is ZI else z3.is_true(e)
        raise Unsupported("concrete value of %r" % (x,))

    def var(self, v):
        if v not in self.m:
            self.m[v] = pick(self.ctx.dom[v])
        return self.m[v]

    def str(self, s):
        out = []
        for a in s.a:
            t = type(a)
            if t is str:
                out.append(a)
            elif t is Ch:
                out.append(chr(self.num(a.v)))
            elif t is FS:
                out.append(a.tab[self.var(a.v)])
            elif t is Dec:
                out.append("".join(a.dm[int(c)] for c in str(self.num(a.n))))
            elif t is Opq:
                out.append(self.opq(a))
            else:
                raise Unsupported("concrete string of %r" % (a,))
        return "".join(out)

    def opq(self, a):
        ctx = self.ctx
        if a.none is not None and a.none[0] == "num":
            v = self.val(a.none[1], a.none[1].ty)
            s = "_".join([str(v["base_number"])] + [str(x) for x in v["eda_numbers"]])
            if v["range_end_numbers"]:
                s += ":" + "_".join(str(x) for x in v["range_end_numbers"])
            return s
        i = self.var(a.v)
        if i < len(ctx.idstrs):
            return ctx.idstrs[i]
        for (key, r) in list(ctx.lazies.items()):
            if type(key) is tuple and key[0] == "int" and key[1] == a.name and r is not None:
                return str(self.num(r))
            if type(key) is tuple and key[0] == "artnum" and key[1] == a.name and r.var == 0:
                return self.opq(Opq("x", a.v, ("num", r.f[0])))
        if self.zm is not None:
            try:
                x = self.zm.eval(a.z)
                if z3.is_string_value(x) and x.as_string():
                    w = x.as_string()
                    import re
                    w = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda g: chr(int(g.group(1), 16)), w)
                    return w
            except z3.Z3Exception:
                pass
        # any other string; distinct identities get distinct strings
        return "あ%d" % i

    def val(self, v, ty):
        """JSON of a value (serde's external tagging)"""
        I, ctx = self.I, self.ctx
        if type(v) is FD:
            v = v.tab[self.var(v.v)]
        if type(v) is Tok:
            raise Unsupported("concrete value of a token")
        i = I.ty(ty)
        k = i["k"]
        if type(v) is Lazy:
            if k == "adt" and i["path"] == ELEM:
                return self.elem(v)
            w = ctx.lazies.get(v.name)
            if w is None:
                return self.default(v, i)
            return self.val(w, ty)
        if k in ("uint", "int"):
            return int(self.num(v))
        if k == "bool":
            return bool(self.num(v))
        if k == "char":
            return chr(self.num(v))
        if k == "tuple":
            return [self.val(x, e) for x, e in zip(v.f, i["elems"])]
        p = i.get("path")
        if p in STRING or k == "str":
            return self.str(v)
        if p in VEC:
            return [self.val(x, targ(i)) for x in v.f]
        if p == "std::boxed::Box":
            return self.val(I.load(v), targ(i))
        if k == "ref":
            return self.val(I.load(v) if type(v) is Ptr else v, i["elem"])
        if p == "std::option::Option":
            return None if v.var == 0 else self.val(v.f[0], targ(i))
        if p in ("std::collections::HashMap",):
            return {self.str(a): self.val(b, targ(i, 1)) for a, b in v.e}
        if k != "adt":
            raise Unsupported("JSON of " + i["s"])
        if p == ELEM:
            return self.elem(v)
        w = i["variants"][v.var]
        if i["adt_kind"] == "Struct":
            return {f["name"]: self.val(x, f["ty"]) for f, x in zip(w["fields"], v.f)}
        if not w["fields"]:
            return w["name"]
        if w["fields"][0]["name"] == "0":
            l = [self.val(x, f["ty"]) for f, x in zip(w["fields"], v.f)]
            return {w["name"]: l[0] if len(l) == 1 else l}
        return {w["name"]: {f["name"]: self.val(x, f["ty"]) for f, x in zip(w["fields"], v.f)}}

    def default(self, v, i):
        """smallest value of a lazy nobody looked at"""
        self.n += 1
        k = i["k"]
        if k in ("uint", "int"):
            return 1
        if k == "bool":
            return False
        if k == "char":
            return "あ"
        p = i.get("path")
        if p in STRING:
            # opaque and never inspected: any text, distinct per place
            return "い%d" % self.n
        if p in VEC:
            return []
        if p == "std::option::Option":
            return None
        if p in ("std::collections::HashMap",):
            return {}
        if p == "std::boxed::Box":
            return self.val(Lazy(v.name + "*", targ(i)), targ(i))
        if k == "tuple":
            return [self.val(Lazy("%s.%d" % (v.name, j), e), e) for j, e in enumerate(i["elems"])]
        if k == "adt" and i["adt_kind"] == "Struct":
            r = {f["name"]: self.val(Lazy("%s.%s" % (v.name, f["name"]), f["ty"]), f["ty"])
                 for f in i["variants"][0]["fields"]}
            if p.endswith("::SupplProvision") and r.get("label") == {"contents": []}:
                r["label"] = {"contents": [{"Text": "い%d" % self.n}]}        # well-formed: see harness/src/spec.rs
            return r
        if k == "adt" and p.endswith("::SentenceOrColumnOrTable"):
            t = targ(self.I.ty(i["variants"][0]["fields"][0]["ty"]))
            return {i["variants"][0]["name"]: [self.val(Lazy(v.name + ".S0[0]", t), t)]}
        if k == "adt" and i["adt_kind"] == "Enum":
            # prefer a variant without payload, then the last (usually a leaf) one
            vs = i["variants"]
            best = next((w for w in vs if not w["fields"]), None)
            if best is not None:
                return best["name"]
            best = min(vs, key=lambda w: (self.weight(w), vs.index(w)))
            j = vs.index(best)
            l = [self.val(Lazy("%s.%s%d" % (v.name, best["name"], m), f["ty"]), f["ty"]) for m, f in enumerate(best["fields"])]
            if best["fields"][0]["name"] == "0":
                return {best["name"]: l[0] if len(l) == 1 else l}
            return {best["name"]: {f["name"]: x for f, x in zip(best["fields"], l)}}
        raise Unsupported("default of " + i["s"])

    def weight(self, w, depth=0):
        n = 0
        for f in w["fields"]:
            i = self.I.ty(f["ty"])
            if i["k"] == "adt" and i["path"] not in STRING + VEC + ("std::option::Option",):
                if depth > 4:
                    n += 100
                elif i["path"] == "std::boxed::Box":
                    n += 50
                else:
                    n += 1 + min(self.weight(x, depth + 1) for x in i["variants"])
        return n

    def elem(self, v):
        I, ctx = self.I, self.ctx
        fi = elem_fields(I)
        e = v
        nm = None
        if type(v) is Lazy:
            nm = v.name
            for key, r in list(ctx.lazies.items()):
                if type(key) is tuple and key[0] == "read" and key[1] == v.name:
                    U = key[2]
                    val = self.val(r.f[0], U) if r.var == 0 else None
                    e0 = ctx.lazies.get(v.name)
                    n0 = self.field_str(e0, fi["name"]) if e0 is not None else type_name(I, U)
                    return {"$nested": {"ty": type_name(I, U), "value": val, "ok": r.var == 0, "name": n0}}
            e = ctx.lazies.get(v.name)
            if e is None:
                return {"name": "x%d" % self.n, "attributes": {}, "children": []}
        at = e.f[fi["attributes"]]
        attrs = {}
        if type(at) is Lazy:
            for key, r in list(ctx.lazies.items()):
                if type(key) is tuple and key[0] == "mapget" and key[1] == at.name and r.var == 1:
                    attrs[key[2]] = self.val(I.load(r.f[0]), targ(I.ty(at.ty), 1))
        else:
            attrs = {self.str(a): self.str(I.force(b)) for a, b in at.e}
        ch = e.f[fi["children"]]
        if type(ch) is Lazy:
            ch = ctx.lazies.get(ch.name, Seq(()))
        out = []
        for c in ch.f:
            if type(c) is Lazy:
                c = ctx.lazies.get(c.name)
                if c is None:
                    out.append({"Comment": "c"})
                    continue
            et = I.ty(I.elem_ty)
            cty = I.ty(targ(I.ty(et["variants"][0]["fields"][fi["children"]]["ty"])))
            w = cty["variants"][c.var]
            if w["name"] == "Element":
                out.append({"Element": self.elem(c.f[0])})
            elif w["name"] == "ProcessingInstruction":
                out.append({"ProcessingInstruction": [self.val(c.f[0], w["fields"][0]["ty"]), None]})
            else:
                out.append({w["name"]: self.val(c.f[0], w["fields"][0]["ty"])})
        return {"name": self.field_str(e, fi["name"]), "attributes": attrs, "children": out}

    def field_str(self, e, n):
        x = e.f[n]
        if type(x) is Lazy:
            x = self.ctx.lazies.get(x.name)
            if x is None:
                return "x"
        return self.str(x)

    def inputs(self):
        out = {}
        for name, (v, ty) in self.ctx.inputs.items():
            if ty == "bool":
                out[name] = bool(self.num(v))
            elif ty == "int":
                out[name] = int(self.num(v))
            elif ty == "char":
                out[name] = chr(self.num(v))
            elif ty == "str":
                out[name] = self.str(v)
            else:
                out[name] = self.val(v, ty)
        return out
