"""Symbolic interpreter of monomorphic MIR."""
import sys
from sym import *
from vals import *

sys.setrecursionlimit(60000)

RET = -1
M64 = (1 << 64) - 1


class Body:
    __slots__ = ("inst", "name", "nloc", "argc", "celled", "blocks", "terms", "tys", "uses", "succ", "_ipdom", "_pd", "_joins", "_live",
                 "raw", "spread", "cost")


I_DROP = "BufWriter"


class Interp:
    def __init__(self, mir):
        self.mir = mir
        self.bodies = {}
        self.ctx = None
        self.const_cache = {}
        self.alloc_cells = {}
        self.handlers = {}      # inst -> handler(args) or None
        self.find_model = None  # set by models
        self.intercepts = []    # list of fn(info) -> handler or None
        self.fn_handler_cache = {}
        self.callee_cache = {}
        self.depth = 0
        self.tyc = {}

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.mir.ty(t)

    def is_unsized_ptr(self, t):
        i = self.ty(t)
        return i["k"] in ("ref", "ptr") and self.ty(i["elem"])["k"] in ("str", "slice", "dyn")

    # ------------------------------------------------------------ memory
    def wr(self, cell, v):
        j = self.ctx.journal
        if j is not None and cell not in j:
            j[cell] = cell.v
        cell.v = v

    def force(self, v):
        t = type(v)
        if t is Lazy or t is Tok:
            return self.force_lazy(v)
        if t is FD:
            return self.ctx.norm(v)
        return v

    def force_lazy(self, v):
        raise Unsupported("lazy value")     # replaced by lazies module

    def get(self, v, path):
        for p in path:
            t = type(v)
            if t is Lazy or t is Tok:
                r = self.lazy_field(v, p)
                if r is not None:
                    v = r
                    continue
                v = self.force_lazy(v)
                t = type(v)
            if t is FD:
                v = self.ctx.norm(v)
                if type(v) is FD:
                    v = self.ctx.mk_fd(v.v, {k: v.tab[k].f[p] if p < len(v.tab[k].f) else UNINIT
                                             for k in rs_vals(self.ctx.dom[v.v])})
                    continue
            try:
                v = v.f[p]
            except AttributeError:
                if type(v) is MapV:
                    v = v.e[p][1]
                    continue
                if type(v) is Ptr or type(v) is SliceRef:   # Box/Unique/NonNull wrappers
                    continue
                raise Unsupported("field %r of %r" % (p, v))
            except IndexError:
                raise Unsupported("field %r of %r" % (p, v))
        return v

    def lazy_field(self, v, p):
        return None

    def put(self, v, path, x):
        if not path:
            return x
        p = path[0]
        t = type(v)
        if t is Lazy or t is Tok:
            v = self.force_lazy(v)
        elif t is FD:
            v = self.ctx.norm(v)
        if v is UNINIT:
            v = Agg(0, ())
        if type(v) is MapV:
            k, x0 = v.e[p]
            return MapV(v.e[:p] + ((k, self.put(x0, path[1:], x)),) + v.e[p + 1:], v.o)
        f = v.f
        if p >= len(f):
            f = f + (UNINIT,) * (p + 1 - len(f))
        nf = f[:p] + (self.put(f[p], path[1:], x),) + f[p + 1:]
        if type(v) is Seq:
            return Seq(nf)
        return Agg(v.var, nf)

    def load(self, p):
        t = type(p)
        if t is Ptr:
            v = p.c.v
            if p.p:
                v = self.get(v, p.p)
            return v
        if t is StrV or t is SliceRef:
            return p
        if t is FD:
            p = self.ctx.norm(p)
            if type(p) is not FD:
                return self.load(p)
            return self.ctx.mk_fd(p.v, {k: self.load(p.tab[k]) for k in rs_vals(self.ctx.dom[p.v])})
        raise Unsupported("load through %r" % (p,))

    def store(self, p, x):
        if type(p) is not Ptr:
            raise Unsupported("store through %r" % (p,))
        if p.p:
            self.wr(p.c, self.put(p.c.v, p.p, x))
        else:
            self.wr(p.c, x)

    # ------------------------------------------------------------ constants
    def const(self, c):
        t = c["ty"]
        kind = c["kind"]
        if kind == "ZeroSized":
            return self.zst(t)
        if isinstance(kind, dict) and "Allocated" in kind:
            key = ("c", c["id"], t)
            if key in self.const_cache:
                return self.const_cache[key]
            a = kind["Allocated"]
            v = self.decode(t, a["bytes"], dict((o, i) for o, i in a["provenance"]["ptrs"]), 0)
            self.const_cache[key] = v
            return v
        raise Unsupported("constant %r" % (c,))

    def zst(self, t):
        i = self.ty(t)
        k = i["k"]
        if k == "fndef":
            return FnV(t)
        if k == "closure":
            return Agg(0, ())
        if k == "tuple":
            return Agg(0, tuple(self.zst(x) for x in i["elems"]))
        if k == "adt":
            if i["path"].endswith("string::String"):
                return EMPTY
            if not i["variants"]:
                return UNIT
            return Agg(0, tuple(self.zst(f["ty"]) for f in i["variants"][0]["fields"]))
        if k == "array":
            return Seq(())
        raise Unsupported("zero-sized constant of " + i["s"])

    def alloc_cell(self, aid, t):
        """cell holding the decoded memory of an allocation, seen as type t"""
        key = (aid, t)
        if key in self.alloc_cells:
            return self.alloc_cells[key]
        al = self.mir.alloc(aid)
        if al["k"] == "mem":
            a = al["alloc"]
        elif al["k"] == "static":
            a = al["alloc"]
            if a is None:
                raise Unsupported("static without initializer")
        else:
            raise Unsupported("allocation " + al["k"])
        v = self.decode(t, a["bytes"], dict((o, i) for o, i in a["provenance"]["ptrs"]), 0)
        c = Cell(v)
        self.alloc_cells[key] = c
        return c

    def alloc_bytes(self, aid):
        al = self.mir.alloc(aid)
        return al["alloc"]["bytes"]

    def decode(self, t, by, ptrs, off):
        i = self.ty(t)
        k = i["k"]
        if k in ("uint", "int"):
            n = i["bits"] // 8
            return int.from_bytes(bytes(x or 0 for x in by[off:off + n]), "little", signed=(k == "int"))
        if k == "bool":
            return bool(by[off])
        if k == "char":
            return int.from_bytes(bytes(by[off:off + 4]), "little")
        if k in ("ref", "ptr"):
            e = self.ty(i["elem"])
            if off not in ptrs:
                if e["k"] in ("str",):
                    return EMPTY
                if e["k"] == "slice":
                    return SliceRef(Cell(Seq(())), (), 0, 0)
                return Ptr(Cell(UNINIT))       # dangling
            aid = ptrs[off]
            base = int.from_bytes(bytes(by[off:off + 8]), "little")
            if e["k"] == "str":
                n = int.from_bytes(bytes(by[off + 8:off + 16]), "little")
                return S(bytes(self.alloc_bytes(aid)[base:base + n]).decode("utf-8"))
            if e["k"] == "slice":
                n = int.from_bytes(bytes(by[off + 8:off + 16]), "little")
                return SliceRef(self.alloc_slice(aid, base, e["elem"], n), (), 0, n)
            al = self.mir.alloc(aid)
            if al["k"] == "fn":
                return FnPtr(al["inst"])
            if base:
                a = al["alloc"]
                return Ptr(Cell(self.decode(i["elem"], a["bytes"], dict((o, x) for o, x in a["provenance"]["ptrs"]), base)))
            return Ptr(self.alloc_cell(aid, i["elem"]))
        if k == "fnptr":
            al = self.mir.alloc(ptrs[off])
            return FnPtr(al["inst"])
        if k == "array":
            n = i["len"]
            sz = self.size(i["elem"])
            return Seq(tuple(self.decode(i["elem"], by, ptrs, off + j * sz) for j in range(n)))
        if k == "tuple":
            if not i["elems"]:
                return UNIT
            offs = self.offsets(t)
            return Agg(0, tuple(self.decode(e, by, ptrs, off + o) for e, o in zip(i["elems"], offs)))
        if k == "adt":
            p = i["path"]
            if p in ("std::string::String", "alloc::string::String"):
                return EMPTY       # a constant String can only be empty
            if p in ("std::vec::Vec", "alloc::vec::Vec"):
                return Seq(())
            if i["adt_kind"] == "Enum":
                return self.decode_enum(t, i, by, ptrs, off)
            if i["adt_kind"] == "Union":
                f = i["variants"][0]["fields"]
                return Agg(0, tuple(self.decode(f[-1]["ty"], by, ptrs, off) if j == len(f) - 1 else UNINIT for j in range(len(f))))
            offs = self.offsets(t)
            return Agg(0, tuple(self.decode(f["ty"], by, ptrs, off + o) for f, o in zip(i["variants"][0]["fields"], offs)))
        if k == "fndef":
            return FnV(t)
        if k == "closure":
            if i.get("upvars") is not None:
                ups = self.ty(i["upvars"])["elems"]
                offs = self.offsets(t)
                return Agg(0, tuple(self.decode(e, by, ptrs, off + o) for e, o in zip(ups, offs)))
            return UNIT
        if k == "float":
            return UNINIT
        raise Unsupported("decode " + i["s"])

    def alloc_slice(self, aid, base, elem, n):
        key = (aid, base, elem, n)
        if key in self.alloc_cells:
            return self.alloc_cells[key]
        a = self.mir.alloc(aid)["alloc"]
        pt = dict((o, x) for o, x in a["provenance"]["ptrs"])
        sz = self.size(elem)
        c = Cell(Seq(tuple(self.decode(elem, a["bytes"], pt, base + j * sz) for j in range(n))))
        self.alloc_cells[key] = c
        return c

    def size(self, t):
        l = self.mir.layout(t)
        return l["size"]["num_bits"] // 8

    def offsets(self, t):
        l = self.mir.layout(t)
        f = l["fields"]
        if isinstance(f, dict) and "Arbitrary" in f:
            return [o["num_bits"] // 8 for o in f["Arbitrary"]["offsets"]]
        return [0] * 16

    def decode_enum(self, t, i, by, ptrs, off):
        l = self.mir.layout(t)
        v = l["variants"]
        if isinstance(v, dict) and "Single" in v:
            idx = v["Single"]["index"]
            offs = self.offsets(t)
            return Agg(idx, tuple(self.decode(f["ty"], by, ptrs, off + o) for f, o in zip(i["variants"][idx]["fields"], offs)))
        if v == "Empty":
            return UNIT
        mu = v["Multiple"]
        toff = self.offsets(t)[mu["tag_field"]]
        val = mu["tag"].get("Initialized") or mu["tag"].get("Union")
        pv = val["value"]
        if isinstance(pv, dict) and "Int" in pv:
            n = int(pv["Int"]["length"][1:]) // 8
        else:
            n = 8
        tag = int.from_bytes(bytes(x or 0 for x in by[off + toff:off + toff + n]), "little")
        isptr = (off + toff) in ptrs
        enc = mu["tag_encoding"]
        mask = (1 << (8 * n)) - 1
        if enc == "Direct":
            idx = None
            for j, vv in enumerate(i["variants"]):
                if int(vv["discr"]) & mask == tag:
                    idx = j
            if idx is None:
                raise Unsupported("bad tag in constant of " + i["s"])
        else:
            ni = enc["Niche"]
            s, e = ni["niche_variants"]["start"], ni["niche_variants"]["end"]
            rel = (tag - ni["niche_start"]) & mask
            if not isptr and rel <= e - s:
                idx = s + rel
            else:
                idx = ni["untagged_variant"]
        offs = [o["num_bits"] // 8 for o in mu["variants"][idx]["offsets"]]
        return Agg(idx, tuple(self.decode(f["ty"], by, ptrs, off + o) for f, o in zip(i["variants"][idx]["fields"], offs)))

    # ------------------------------------------------------------ compile
    def body(self, inst):
        b = self.bodies.get(inst)
        if b is None:
            raw = self.mir.body(inst)
            if raw is None:
                raise Unsupported("no MIR for " + self.mir.inst(inst)["name"])
            b = self.bodies[inst] = self.compile(inst, raw)
        return b

    def compile(self, inst, raw):
        b = Body()
        b.inst = inst
        b.name = self.mir.inst(inst)["path"]
        b.raw = None
        b.nloc = len(raw["locals"])
        b.argc = raw["arg_count"]
        b.tys = [l["ty"] for l in raw["locals"]]
        b.spread = raw.get("spread_arg")
        cel = set()
        for bb in raw["blocks"]:
            for s in bb["statements"]:
                k = s["kind"]
                if isinstance(k, dict) and "Assign" in k:
                    rv = k["Assign"][1]
                    if isinstance(rv, dict):
                        pl = rv["Ref"][2] if "Ref" in rv else rv["AddressOf"][1] if "AddressOf" in rv else None
                        if pl is not None and "Deref" not in pl["projection"]:
                            cel.add(pl["local"])
        b.celled = frozenset(cel)
        b.blocks, b.terms, b.uses, b.succ = [], [], [], []
        b._ipdom = None
        b._joins = {}
        b._live = None
        b.cost = []
        for n, bb in enumerate(raw["blocks"]):
            st = []
            uses = []      # list of (use set, def set) in order
            for s in bb["statements"]:
                f, u, d = self.c_stmt(b, s["kind"])
                if f is not None:
                    st.append(f)
                uses.append((u, d))
            f, u, d, succ = self.c_term(b, bb["terminator"]["kind"], n)
            uses.append((u, d))
            b.blocks.append(tuple(st))
            b.terms.append(f)
            b.uses.append(uses)
            b.succ.append(succ)
            b.cost.append(len(st) + 1)
        return b

    # --- static types of places
    def place_ty(self, b, pl):
        t = b.tys[pl["local"]]
        for e in pl["projection"]:
            if e == "Deref":
                i = self.ty(t)
                if i["k"] in ("ref", "ptr"):
                    t = i["elem"]
                elif i["k"] == "adt":      # Box
                    t = i["args"][0]["ty"]
                else:
                    return None
            elif "Field" in e:
                t = e["Field"][1]
            elif "Index" in e or "ConstantIndex" in e:
                t = self.ty(t)["elem"]
            elif "Subslice" in e or "Downcast" in e:
                pass
            else:
                return None
        return t

    def op_ty(self, b, o):
        if "Constant" in o:
            return o["Constant"]["const_"]["ty"]
        k = "Copy" if "Copy" in o else "Move"
        if k not in o:
            return None
        return self.place_ty(b, o[k])

    def p_uses(self, pl, u):
        u.add(pl["local"])
        for e in pl["projection"]:
            if isinstance(e, dict) and "Index" in e:
                u.add(e["Index"])

    def c_proj(self, b, proj):
        """projection list -> list of ('d',) / int / ('i', local) / ('ci', off, from_end) / ('sub', from, to, from_end)"""
        out = []
        for e in proj:
            if e == "Deref":
                out.append("d")
            elif "Field" in e:
                out.append(e["Field"][0])
            elif "Downcast" in e:
                continue
            elif "Index" in e:
                out.append(("i", e["Index"]))
            elif "ConstantIndex" in e:
                c = e["ConstantIndex"]
                out.append(("ci", c["offset"], c["from_end"]))
            elif "Subslice" in e:
                c = e["Subslice"]
                out.append(("sub", c["from"], c["to"], c["from_end"]))
            elif "OpaqueCast" in e or "Subtype" in e:
                continue
            else:
                raise Unsupported("projection %r" % (e,))
        return out

    def idx_val(self, fr, b, l):
        v = fr[l]
        if l in b.celled:
            v = v.v
        return self.conc_int(v)

    def conc_int(self, v):
        """concretise an integer by forking over its values"""
        ctx = self.ctx
        v = ctx.norm(v)
        if type(v) is int:
            return v
        if type(v) is ZI and v.lo is not None and v.hi is not None and v.hi - v.lo < 64:
            return v.lo + ctx.choose([ctx.cmp("eq", v, k) for k in range(v.lo, v.hi + 1)])
        x = ctx.single(v)
        if x is None or not ctx.small(x):
            raise Unsupported("index with large domain")
        t = ctx.fd_table(v, x)
        by = {}
        for k, y in t.items():
            by.setdefault(y, []).append(k)
        ys = sorted(by)
        return ys[ctx.choose([InDom(x, rs_of(by[y])) for y in ys])]

    def addr(self, b, pl):
        """compile place -> fn(fr) giving Ptr / SliceRef / StrV (for unsized places)"""
        local = pl["local"]
        proj = self.c_proj(b, pl["projection"])
        cel = local in b.celled
        I = self

        def f(fr):
            cur = None          # current location: (cell, path) as Ptr, or value for raw local
            if cel:
                cur = Ptr(fr[local], ())
                raw = None
            else:
                raw = fr[local]
            path = ()
            for e in proj:
                if e == "d":
                    if cur is None:
                        v = raw if not path else I.get(raw, path)
                        raw = None
                    else:
                        v = I.load(cur) if type(cur) is Ptr else cur
                    if type(v) is FD:
                        v = I.conc_fd(v)
                    if type(v) is Agg and len(v.f) >= 1:    # Box/Unique/NonNull as a struct
                        v = I.unwrap_ptr(v)
                    if type(v) not in (Ptr, SliceRef, StrV, Obj):
                        raise Unsupported("deref of %r" % (v,))
                    cur = v
                    path = ()
                elif type(e) is int:
                    if cur is None:
                        path += (e,)
                    else:
                        if type(cur) is not Ptr:
                            raise Unsupported("field of %r" % (cur,))
                        cur = Ptr(cur.c, cur.p + (e,))
                else:
                    if cur is None:
                        raise Unsupported("index into raw local address")
                    cur = I.index(cur, e, fr, b)
            if cur is None:
                raise Unsupported("address of raw local")
            return cur
        return f

    def unwrap_ptr(self, v):
        while type(v) is Agg and len(v.f) >= 1:
            v = v.f[0]
        return v

    def conc_fd(self, v):
        """concretise an FD of arbitrary values by forking over distinct values"""
        ctx = self.ctx
        v = ctx.norm(v)
        if type(v) is not FD:
            return v
        groups = []
        for k in rs_vals(ctx.dom[v.v]):
            x = v.tab[k]
            for g in groups:
                if g[0] == x or g[0] is x:
                    g[1].append(k)
                    break
            else:
                groups.append((x, [k]))
        i = ctx.choose([InDom(v.v, rs_of(g[1])) for g in groups])
        return groups[i][0]

    def seq_len(self, cur):
        if type(cur) is SliceRef:
            if cur.e is not None:
                return cur.e - cur.s
            return len(self.force(self.get(cur.c.v, cur.p)).f) - cur.s
        if type(cur) is Ptr:
            return len(self.force(self.load(cur)).f)
        if type(cur) is Obj and cur.k == "bytes":
            from models import bytes_slice
            return self.seq_len(bytes_slice(self, cur))
        raise Unsupported("length of %r" % (cur,))

    def index(self, cur, e, fr, b):
        if type(cur) is Obj and cur.k == "bytes":
            from models import bytes_slice
            cur = bytes_slice(self, cur)
        if e[0] == "i":
            n = self.idx_val(fr, b, e[1])
        elif e[0] == "ci":
            n = e[1]
            if e[2]:
                n = self.seq_len(cur) - n
        else:
            L = self.seq_len(cur)
            s, t = e[1], e[2]
            end = L - t if e[3] else t
            if type(cur) is SliceRef:
                return SliceRef(cur.c, cur.p, cur.s + s, cur.s + end)
            return SliceRef(cur.c, cur.p, s, end)
        if type(cur) is SliceRef:
            return Ptr(cur.c, cur.p + (cur.s + n,))
        return Ptr(cur.c, cur.p + (n,))

    def c_read(self, b, pl):
        local = pl["local"]
        proj = self.c_proj(b, pl["projection"])
        cel = local in b.celled
        I = self
        if not proj:
            if cel:
                return lambda fr: fr[local].v
            return lambda fr: fr[local]
        if all(type(e) is int for e in proj):
            path = tuple(proj)
            if cel:
                return lambda fr: I.get(fr[local].v, path)
            return lambda fr: I.get(fr[local], path)
        if proj[0] == "d" and all(type(e) is int for e in proj[1:]) and not cel:
            path = tuple(proj[1:])

            def f0(fr):
                p = fr[local]
                if type(p) is Ptr:
                    v = p.c.v
                    if p.p:
                        v = I.get(v, p.p)
                    return I.get(v, path) if path else v
                if type(p) is Agg:
                    p = I.unwrap_ptr(p)
                v = I.load(p)
                return I.get(v, path) if path else v
            return f0
        # general: leading fields (no deref) with index on raw local
        if "d" not in proj and not cel:
            def f1(fr):
                v = fr[local]
                for e in proj:
                    if type(e) is int:
                        v = I.get(v, (e,))
                    elif e[0] == "i":
                        v = I.get(v, (I.idx_val(fr, b, e[1]),))
                    elif e[0] == "ci":
                        v = I.force(v)
                        v = v.f[len(v.f) - e[1] if e[2] else e[1]]
                    else:
                        v = I.force(v)
                        s, t = e[1], e[2]
                        v = Seq(v.f[s:len(v.f) - t if e[3] else t])
                return v
            return f1
        # values reached through FD pointers etc.
        ad = self.addr(b, pl)

        def f2(fr):
            p = ad(fr)
            return I.load(p)
        return f2

    def c_write(self, b, pl):
        local = pl["local"]
        proj = self.c_proj(b, pl["projection"])
        cel = local in b.celled
        I = self
        if not proj:
            if cel:
                def w0(fr, v):
                    I.wr(fr[local], v)
                return w0

            def w1(fr, v):
                fr[local] = v
            return w1
        if "d" not in proj and not cel:
            def w2(fr, v):
                path = []
                for e in proj:
                    if type(e) is int:
                        path.append(e)
                    elif e[0] == "i":
                        path.append(I.idx_val(fr, b, e[1]))
                    elif e[0] == "ci":
                        path.append(e[1])
                fr[local] = I.put(fr[local], tuple(path), v)
            return w2
        ad = self.addr(b, pl)

        def w3(fr, v):
            I.store(ad(fr), v)
        return w3

    def c_op(self, b, o, u):
        if "Constant" in o:
            c = o["Constant"]["const_"]
            I = self
            box = []

            def k(fr):
                if not box:
                    box.append(I.const(c))
                return box[0]
            return k
        if "Copy" in o:
            self.p_uses(o["Copy"], u)
            return self.c_read(b, o["Copy"])
        if "Move" in o:
            self.p_uses(o["Move"], u)
            return self.c_read(b, o["Move"])
        if "RuntimeChecks" in o:
            v = o["RuntimeChecks"]
            r = (v == "OverflowChecks")
            return lambda fr: r
        raise Unsupported("operand %r" % (o,))

    def c_stmt(self, b, k):
        u, d = set(), set()
        I = self
        if isinstance(k, str):
            return None, u, d
        if "Assign" in k:
            pl, rv = k["Assign"]
            if pl["projection"]:
                self.p_uses(pl, u)
            else:
                d.add(pl["local"])
            rd = self.c_rvalue(b, rv, u, pl)
            if not pl["projection"] and pl["local"] not in b.celled:
                l = pl["local"]

                def a0(fr):
                    fr[l] = rd(fr)
                return a0, u, d
            w = self.c_write(b, pl)

            def a1(fr):
                w(fr, rd(fr))
            return a1, u, d
        if "StorageDead" in k:
            l = k["StorageDead"]
            d.add(l)
            if l in b.celled:
                def sd(fr):
                    I.wr(fr[l], UNINIT)
                return sd, u, d
            return None, u, d
        if "StorageLive" in k:
            d.add(k["StorageLive"])
            return None, u, d
        if "SetDiscriminant" in k:
            x = k["SetDiscriminant"]
            pl, vi = x["place"], x["variant_index"]
            self.p_uses(pl, u)
            r, w = self.c_read(b, pl), self.c_write(b, pl)

            def sdi(fr):
                v = r(fr)
                f = v.f if type(v) is Agg else ()
                w(fr, Agg(vi, f))
            return sdi, u, d
        if "Intrinsic" in k:
            if "Assume" in k["Intrinsic"]:
                return None, u, d
            raise Unsupported("intrinsic statement %r" % (k,))
        for x in ("FakeRead", "Retag", "PlaceMention", "AscribeUserType", "Coverage", "ConstEvalCounter", "Nop", "Deinit",
                  "BackwardIncompatibleDropHint"):
            if x in k:
                return None, u, d
        raise Unsupported("statement %r" % (list(k),))

    def bits(self, t):
        i = self.ty(t)
        k = i["k"]
        if k == "uint":
            return i["bits"], False
        if k == "int":
            return i["bits"], True
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        if k in ("ptr", "ref", "fnptr"):
            return 64, False
        return None, None

    def c_rvalue(self, b, rv, u, dest):
        I = self
        if isinstance(rv, str):
            raise Unsupported("rvalue " + rv)
        if "Use" in rv:
            x = rv["Use"]
            o = x[0] if isinstance(x, list) else x
            return self.c_op(b, o, u)
        if "Ref" in rv or "AddressOf" in rv:
            pl = rv["Ref"][2] if "Ref" in rv else rv["AddressOf"][1]
            self.p_uses(pl, u)
            # reborrow of a plain pointer: &*p
            if pl["projection"] == ["Deref"] and pl["local"] not in b.celled:
                l = pl["local"]
                t = self.ty(b.tys[l])
                if t["k"] in ("ref", "ptr"):
                    return lambda fr: fr[l]
            return self.addr(b, pl)
        if "CopyForDeref" in rv:
            pl = rv["CopyForDeref"]
            self.p_uses(pl, u)
            return self.c_read(b, pl)
        if "Discriminant" in rv:
            pl = rv["Discriminant"]
            self.p_uses(pl, u)
            r = self.c_read(b, pl)
            t = self.place_ty(b, pl)
            return lambda fr: I.discr(r(fr), t)
        if "Aggregate" in rv:
            kind, ops = rv["Aggregate"]
            fs = [self.c_op(b, o, u) for o in ops]
            if kind == "Tuple" or (isinstance(kind, dict) and "Closure" in kind):
                return lambda fr: Agg(0, tuple([f(fr) for f in fs]))
            if isinstance(kind, dict) and "Array" in kind:
                return lambda fr: Seq(tuple([f(fr) for f in fs]))
            if isinstance(kind, dict) and "RawPtr" in kind:
                def rp(fr):
                    p, m = fs[0](fr), fs[1](fr)
                    if m == UNIT or (type(m) is Agg and not m.f):
                        return p
                    n = I.conc_int(m)
                    if type(p) is Ptr:
                        if p.p and type(p.p[-1]) is int and type(I.force(I.get(p.c.v, p.p[:-1]))) is Seq:
                            return SliceRef(p.c, p.p[:-1], p.p[-1], p.p[-1] + n)
                        return SliceRef(p.c, p.p, 0, n)
                    if type(p) is SliceRef:
                        return SliceRef(p.c, p.p, p.s, p.s + n)
                    if type(p) is StrV:
                        return p
                    raise Unsupported("raw pointer aggregate")
                return rp
            if isinstance(kind, dict) and "Adt" in kind:
                ad = kind["Adt"]
                vi = ad[1]
                act = ad[4]
                if act is not None:     # union
                    def un(fr):
                        f = [UNINIT] * (act + 1)
                        f[act] = fs[0](fr)
                        return Agg(0, tuple(f))
                    return un
                return lambda fr: Agg(vi, tuple([f(fr) for f in fs]))
            raise Unsupported("aggregate %r" % (kind,))
        if "BinaryOp" in rv or "CheckedBinaryOp" in rv:
            ck = "CheckedBinaryOp" in rv
            op, x, y = rv["CheckedBinaryOp"] if ck else rv["BinaryOp"]
            fx, fy = self.c_op(b, x, u), self.c_op(b, y, u)
            t = self.op_ty(b, x)
            bits, sg = self.bits(t) if t is not None else (None, None)
            return self.c_binop(op, fx, fy, bits, sg, ck, t)
        if "UnaryOp" in rv:
            op, x = rv["UnaryOp"]
            fx = self.c_op(b, x, u)
            t = self.op_ty(b, x)
            bits, sg = self.bits(t)
            if op == "Not":
                if bits == 1:
                    return lambda fr: I.ctx.b_not(I.ctx.norm(fx(fr)))

                def nt(fr):
                    v = I.ctx.norm(fx(fr))
                    if type(v) is not int:
                        if sg:
                            return I.ctx.add(I.ctx.mul(v, -1), -1)
                        return I.ctx.add(I.ctx.mul(v, -1), (1 << bits) - 1)
                    return ~v if sg else v ^ ((1 << bits) - 1)
                return nt
            if op == "Neg":
                return lambda fr: I.ctx.mul(fx(fr), -1)
            if op == "PtrMetadata":
                def pm(fr):
                    v = fx(fr)
                    if type(v) is SliceRef or type(v) is Obj and v.k == "bytes":
                        return I.seq_len(v)
                    if type(v) is StrV:
                        from models import str_len
                        return str_len(I, v)
                    if type(v) is Ptr:
                        x = I.load(v)
                        if type(x) is Seq:
                            return len(x.f)
                    return UNIT
                return pm
            raise Unsupported("unary " + op)
        if "Len" in rv:
            pl = rv["Len"]
            self.p_uses(pl, u)
            t = self.ty(self.place_ty(b, pl))
            if t["k"] == "array":
                n = t["len"]
                return lambda fr: n
            ad = self.addr(b, pl)
            return lambda fr: I.seq_len(ad(fr))
        if "Cast" in rv:
            kind, x, t = rv["Cast"]
            fx = self.c_op(b, x, u)
            return self.c_cast(kind, fx, self.op_ty(b, x), t)
        if "Repeat" in rv:
            x, n = rv["Repeat"]
            fx = self.c_op(b, x, u)
            cnt = self.const_usize(n)
            return lambda fr: Seq((fx(fr),) * cnt)
        if "ShallowInitBox" in rv:
            x = rv["ShallowInitBox"][0]
            return self.c_op(b, x, u)
        if "NullaryOp" in rv:
            op, t = rv["NullaryOp"]
            if op == "SizeOf":
                n = self.size(t)
                return lambda fr: n
            if op == "AlignOf":
                n = self.mir.layout(t)["abi_align"]
                return lambda fr: n
            return lambda fr: False
        raise Unsupported("rvalue %r" % (list(rv),))

    def const_usize(self, n):
        k = n["kind"]
        if "Value" in k:
            a = k["Value"][1]
            return int.from_bytes(bytes(a["bytes"]), "little")
        raise Unsupported("const %r" % (n,))

    def wrap(self, v, bits, sg):
        """bring an int term into the type's range (wrapping)"""
        ctx = self.ctx
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        v = ctx.norm(v)
        if type(v) is int:
            if lo <= v <= hi:
                return v
            v &= (1 << bits) - 1
            if sg and v > hi:
                v -= 1 << bits
            return v
        a, z = ctx.interval(v)
        if a is not None and z is not None and a >= lo and z <= hi:
            return v
        x = ctx.single(v)
        if x is not None and ctx.small(x):
            return ctx.mk_fd(x, {k: self.wrap(y, bits, sg) for k, y in ctx.fd_table(v, x).items()})
        e = ctx.zi(v)
        m = e % (1 << bits)
        if sg:
            m = z3.If(m > hi, m - (1 << bits), m)
        return ZI(m, ctx.vs(v), lo, hi)

    def c_binop(self, op, fx, fy, bits, sg, ck, t):
        I = self
        if bits is not None and not (op in ("Eq", "Ne", "Offset") and bits is None):
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            o = op.lower()

            def cm(fr):
                x, y = fx(fr), fy(fr)
                if type(x) is int and type(y) is int:
                    pass
                elif type(x) in (Ptr, SliceRef, StrV, FnPtr) or type(y) in (Ptr, SliceRef, StrV, FnPtr):
                    if o in ("eq", "ne"):
                        if type(x) is Ptr and type(y) is Ptr:
                            return (x == y) == (o == "eq")
                        if type(x) is Ptr and type(y) is int and y == 0 or type(y) is Ptr and type(x) is int and x == 0:
                            return o == "ne"        # null check of a valid reference
                    raise Unsupported("pointer comparison")
                elif x is UNIT or (type(x) is Agg and not x.f):
                    return o in ("eq", "le", "ge")
                return I.ctx.cmp(o, x, y)
            return cm
        if op == "Cmp":
            def cp(fr):
                x, y = fx(fr), fy(fr)
                return I.ordering(x, y)
            return cp
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            base = op[:3]

            def ar(fr):
                ctx = I.ctx
                x, y = fx(fr), fy(fr)
                if base == "Add":
                    r = ctx.add(x, y)
                elif base == "Sub":
                    r = ctx.add(x, ctx.mul(y, -1))
                else:
                    r = ctx.mul(x, y)
                if not ck:
                    return I.wrap(r, bits, sg)
                r = ctx.norm(r)
                if type(r) is int:
                    if lo <= r <= hi:
                        return Agg(0, (r, False))
                    return Agg(0, (I.wrap(r, bits, sg), True))
                a, z = ctx.interval(r)
                if a is not None and z is not None and a >= lo and z <= hi:
                    return Agg(0, (r, False))
                ov = ctx.b_not(ctx.int_in(r, ((lo, hi),)))
                # the sum is only used when the overflow assertion holds
                if ctx.branch(ov):
                    return Agg(0, (I.wrap(r, bits, sg), True))
                return Agg(0, (r, False))
            return ar
        if op in ("Div", "Rem"):
            w = "div" if op == "Div" else "rem"
            return lambda fr: I.ctx.divmod(fx(fr), fy(fr), w)
        if op in ("BitAnd", "BitOr", "BitXor"):
            def bo(fr):
                ctx = I.ctx
                x, y = ctx.norm(fx(fr)), ctx.norm(fy(fr))
                if type(x) in (bool,) + SYMB or type(y) in (bool,) + SYMB:
                    if op == "BitAnd":
                        return ctx.b_and([x, y])
                    if op == "BitOr":
                        return ctx.b_or([x, y])
                    return ctx.b_not(ctx.bool_eq(x, y))
                if type(x) is int and type(y) is int:
                    return x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
                f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op]
                r = ctx._fd2(f, x, y)
                if r is not None:
                    return r
                if op == "BitAnd":
                    if type(x) is int:
                        x, y = y, x
                    if type(x) is Ptr and type(y) is int and y <= 15:
                        return 0        # alignment check of a valid reference
                    if type(y) is int and (y & (y + 1)) == 0:
                        return ctx.divmod(x, y + 1, "rem")
                if op == "BitXor" and type(y) is int and type(x) is Lin:
                    lo2, hi2 = ctx.interval(x)
                    # x ^ y == x + y when the bits never meet; otherwise split on blocks
                    if y & ((1 << hi2.bit_length()) - 1) == 0:
                        return ctx.add(x, y)
                    low = y & -y
                    bk = sorted({v // low for v in (lo2, hi2)})
                    if len(bk) == 1:
                        return ctx.add(x, ((bk[0] * low) ^ y) - bk[0] * low)
                    return ZI(z3.BV2Int(z3.Int2BV(ctx.zi(x), bits) ^ z3.BitVecVal(y, bits)), ctx.vs(x), 0, (1 << bits) - 1)
                raise Unsupported("%s of symbolic integers" % op)
            return bo
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            def sh(fr):
                x, y = fx(fr), I.conc_int(fy(fr))
                y %= bits
                if op.startswith("Shl"):
                    return I.wrap(I.ctx.mul(x, 1 << y), bits, sg)
                return I.ctx.divmod(x, 1 << y, "div")
            return sh
        if op == "Offset":
            def of(fr):
                p, n = fx(fr), I.conc_int(fy(fr))
                return I.ptr_offset(p, n)
            return of
        raise Unsupported("binary op " + op)

    def ptr_offset(self, p, n):
        if type(p) is Ptr:
            if n == 0:
                return p
            if p.p and type(p.p[-1]) is int:
                return Ptr(p.c, p.p[:-1] + (p.p[-1] + n,))
        raise Unsupported("pointer offset")

    def ordering(self, x, y):
        ctx = self.ctx
        x, y = ctx.norm(x), ctx.norm(y)
        if type(x) is bool:
            x = int(x)
        if type(y) is bool:
            y = int(y)
        i = ctx.choose((ctx.cmp("lt", x, y), ctx.cmp("eq", x, y), ctx.cmp("gt", x, y)))
        return Agg(i, ())

    def c_cast(self, kind, fx, st, t):
        I = self
        if kind == "IntToInt":
            bits, sg = self.bits(t)
            si = self.ty(st)
            if si["k"] == "bool":
                return lambda fr: I.ctx.b2i(I.ctx.norm(fx(fr)))
            if si["k"] == "adt":     # enum as integer
                return lambda fr: I.discr(fx(fr), st)
            return lambda fr: I.wrap(fx(fr), bits, sg)
        if kind in ("PtrToPtr", "BoxDerefTransmute", "FnPtrToPtr"):
            return fx
        if isinstance(kind, dict) and "PointerCoercion" in kind:
            pc = kind["PointerCoercion"]
            if pc == "Unsize":
                return lambda fr: I.unsize(fx(fr), st, t)
            if pc in ("MutToConstPointer", "ArrayToPointer", "UnsafeFnPointer"):
                return fx
            if (isinstance(pc, dict) and ("ReifyFnPointer" in pc)) or pc == "ReifyFnPointer":
                return fx
            if (isinstance(pc, dict) and ("ClosureFnPointer" in pc)):
                return lambda fr: Obj("closure_fn", (st, fx(fr)))
            raise Unsupported("coercion %r" % (pc,))
        if kind == "Transmute":
            return lambda fr: I.transmute(fx(fr), st, t)
        raise Unsupported("cast %r" % (kind,))

    def transmute(self, v, st, t):
        if type(v) in (Ptr, SliceRef, StrV):
            ti = self.ty(t)
            if ti["k"] in ("ref", "ptr"):
                e = self.ty(ti["elem"])
                return v
            return v
        if type(v) is Agg and len(v.f) == 1 and self.ty(t)["k"] in ("ptr", "ref"):
            return self.unwrap_ptr(v)
        si, ti = self.ty(st), self.ty(t)
        if si["k"] in ("uint", "int", "char", "bool") and ti["k"] in ("uint", "int", "char"):
            bits, sg = self.bits(t)
            return self.wrap(self.ctx.b2i(v), bits, sg)
        if si["k"] in ("uint", "int", "char") and ti["k"] == "adt" and ti["adt_kind"] == "Enum":
            return self.from_discr(v, ti)
        if st == t:
            return v
        if si["k"] == "adt" and ti["k"] == "adt":
            return v
        if si["k"] == "adt" and ti["k"] in ("uint", "int", "char") and type(v) is Agg and len(v.f) == 1:
            return self.transmute(v.f[0], si["variants"][0]["fields"][0]["ty"], t)
        if ti["k"] == "adt" and len(ti["variants"]) == 1 and len(ti["variants"][0]["fields"]) == 1:
            return Agg(0, (self.transmute(v, st, ti["variants"][0]["fields"][0]["ty"]),))
        raise Unsupported("transmute %s -> %s" % (si["s"], ti["s"]))

    def from_discr(self, v, ti):
        ctx = self.ctx
        opts = [(j, int(x["discr"])) for j, x in enumerate(ti["variants"])]
        i = ctx.choose([ctx.cmp("eq", v, d) for _, d in opts])
        return Agg(opts[i][0], ())

    def unsize(self, v, st, t):
        ti = self.ty(t)
        if ti["k"] in ("ref", "ptr"):
            e = self.ty(ti["elem"])
            if e["k"] == "slice":
                se = self.ty(self.ty(st)["elem"])
                return SliceRef(v.c, v.p, 0, se["len"])
            if e["k"] == "dyn":
                return Obj("dyn", (v, self.ty(st)["elem"]))
            if e["k"] == "str":
                return v
        si = self.ty(st)
        if ti["k"] == "adt" and si["k"] == "adt" and ti["path"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
            e, se = self.ty(ti["args"][0]["ty"]), self.ty(si["args"][0]["ty"])
            if e["k"] == "dyn" and se["k"] != "dyn":
                return Obj("dyn", (v, si["args"][0]["ty"]))
            if e["k"] == "slice" and se["k"] == "array":
                return v
        # Box<[T;N]> -> Box<[T]>
        if ti["k"] == "adt" and type(v) is Ptr:
            return v
        raise Unsupported("unsize to " + ti["s"])

    def discr_map(self, t):
        m = self.tyc.get(t)
        if m is None:
            i = self.ty(t)
            if i["k"] == "adt" and i["adt_kind"] == "Enum":
                m = [int(v["discr"]) for v in i["variants"]]
                if m == list(range(len(m))):
                    m = True
            else:
                m = True
            self.tyc[t] = m
        return m

    def discr(self, v, t):
        tv = type(v)
        if tv is Agg:
            m = self.discr_map(t)
            return v.var if m is True else m[v.var]
        if tv is Lazy or tv is Tok:
            r = self.lazy_discr(v, t)
            if r is not None:
                return r
            return self.discr(self.force_lazy(v), t)
        if tv is FD:
            v = self.ctx.norm(v)
            if type(v) is not FD:
                return self.discr(v, t)
            return self.ctx.mk_fd(v.v, {k: self.discr(v.tab[k], t) for k in rs_vals(self.ctx.dom[v.v])})
        if v is UNINIT and self.ty(t)["s"].endswith(("Option<std::convert::Infallible>", "Option<!>")):
            return 0                # no bytes at all: always None
        raise Unsupported("discriminant of %r" % (v,))

    def lazy_discr(self, v, t):
        return None

    # --- terminators
    def c_term(self, b, k, n):
        I = self
        u, d = set(), set()
        if isinstance(k, str):
            if k == "Return":
                u.add(0)
                return (lambda fr: RET), u, d, (RET,)
            if k == "Unreachable":
                def un(fr):
                    raise Unsupported("reached unreachable code in " + b.name)
                return un, u, d, ()

            def rs(fr):
                raise Unsupported("unwinding reached")
            return rs, u, d, ()
        if "Goto" in k:
            t = k["Goto"]["target"]
            return (lambda fr: t), u, d, (t,)
        if "Drop" in k:
            t = k["Drop"]["target"]
            # the place is not read: drops have no observable effect, but those of buffered writers
            if I_DROP in self.ty(self.place_ty(b, k["Drop"]["place"]))["s"]:
                rd = self.c_op(b, {"Move": k["Drop"]["place"]}, u)

                def dr(fr):
                    import models_io
                    models_io.drop_writers(self, rd(fr))
                    return t
                return dr, u, d, (t,)
            return (lambda fr: t), u, d, (t,)
        if "Assert" in k:
            a = k["Assert"]
            c = self.c_op(b, a["cond"], u)
            ex, t = a["expected"], a["target"]
            msg = a["msg"]
            ms = msg if isinstance(msg, str) else list(msg)[0] + (":" + str(msg["Overflow"][0]) if "Overflow" in msg else "")

            def asr(fr):
                v = c(fr)
                if v is ex:
                    return t
                if I.ctx.branch(v) == ex:
                    return t
                raise Panic("assertion failed: " + ms, b.name)
            return asr, u, d, (t,)
        if "SwitchInt" in k:
            o = k["SwitchInt"]["discr"]
            x = self.c_op(b, o, u)
            br = [(int(v), t) for v, t in k["SwitchInt"]["targets"]["branches"]]
            oth = k["SwitchInt"]["targets"]["otherwise"]
            ot = self.op_ty(b, o)
            bits, sg = self.bits(ot) if ot is not None else (1, False)
            tab = {}
            for v, t in br:
                if sg and v >= 1 << (bits - 1):
                    v -= 1 << bits
                tab[v] = t

            def sw(fr):
                v = x(fr)
                if type(v) is bool:
                    v = 1 if v else 0
                if type(v) is int:
                    return tab.get(v, oth)
                return I.sym_switch(b, n, fr, v, tab, oth)
            succ = tuple(dict.fromkeys([t for _, t in br] + [oth]))
            return sw, u, d, succ
        if "Call" in k:
            c = k["Call"]
            fs = [self.c_op(b, o, u) for o in c["args"]]
            dst = c["destination"]
            if dst["projection"]:
                self.p_uses(dst, u)
            else:
                d.add(dst["local"])
            w = self.c_write(b, dst)
            t = c["target"]
            fo = c["func"]
            succ = (t,) if t is not None else ()
            if "Constant" in fo:
                ft = fo["Constant"]["const_"]["ty"]

                def call(fr):
                    r = I.call_ty(ft, [f(fr) for f in fs])
                    if t is None:
                        raise Unsupported("diverging call returned")
                    w(fr, r)
                    return t
                return call, u, d, succ
            ff = self.c_op(b, fo, u)

            def callp(fr):
                r = I.call_value(ff(fr), None, [f(fr) for f in fs])
                w(fr, r)
                return t
            return callp, u, d, succ
        raise Unsupported("terminator %r" % (list(k),))

    # ------------------------------------------------------------ switch on symbolic values
    def sym_switch(self, b, n, fr, v, tab, oth):
        ctx = self.ctx
        v = ctx.norm(v)
        if type(v) is bool:
            v = int(v)
        if type(v) is int:
            return tab.get(v, oth)
        if type(v) in SYMB:
            # boolean
            t1 = tab.get(1, oth)
            t0 = tab.get(0, oth)
            if t1 == t0:
                return t1
            if type(v) is BAnd:
                return t1 if ctx.branch(v) else t0
            opts = [(t1, v), (t0, ctx.b_not(v))]
        else:
            groups = {}
            order = []
            rest = []
            BIG = 1 << 200
            rs_all = []
            for val, t in tab.items():
                if t not in groups:
                    groups[t] = []
                    order.append(t)
                groups[t].append((val, val))
                rs_all.append((val, val))
            opts = [(t, ctx.int_in(v, rs_norm(groups[t]))) for t in order if t != oth]
            others = rs_norm([x for t in order if t != oth for x in groups[t]])
            orest = rs_sub(((-BIG, BIG),), others)
            opts.append((oth, ctx.int_in(v, orest)))
        opts = [(t, ctx.norm(c)) for t, c in opts]
        for t, c in opts:
            if c is True:
                return t
        opts = [(t, c) for t, c in opts if c is not False]
        if len(opts) == 1:
            ctx.assume_term(opts[0][1])
            return opts[0][0]
        var = None
        if all(type(c) is InDom for _, c in opts) and ctx.small(opts[0][1].v) and len({c.v for _, c in opts}) == 1:
            var = opts[0][1].v
        if var is not None and not self.ctx.conf.get("nomerge"):
            r = self.try_merge(b, n, fr, var, opts)
            if r is not None:
                return r
        return opts[ctx.choose([c for _, c in opts])][0]

    def try_merge(self, b, n, fr, var, opts):
        ctx = self.ctx
        idx = len(ctx.decisions)
        if not ctx.spec:
            if idx < len(ctx.prefix):
                if ctx.prefix[idx] == 1:
                    ctx.decisions.append(1)
                    return None
        stop = self.join_of(b, n, [t for t, _ in opts])
        r = None
        if stop is not None and self.merge_fail.get((b.inst, n, stop), 0) < 8 or (idx < len(ctx.prefix) and not ctx.spec):
            if stop is not None:
                r = self.do_merge(b, n, fr, var, opts, stop)
        if r is None:
            self.merge_fail[(b.inst, n, stop)] = self.merge_fail.get((b.inst, n, stop), 0) + 1
        if not ctx.spec:
            ctx.note_decision(0 if r is not None else 1)
        if r is not None:
            ctx.stats.merges += 1
        return r

    merge_fail = {}

    def do_merge(self, b, n, fr, var, opts, stop):
        ctx = self.ctx
        dom0 = dict(ctx.dom)
        outer = ctx.journal
        saved = list(fr)
        steps0, lim0 = ctx.steps, ctx.max_steps
        lz0 = dict(ctx.lazies)
        names0 = dict(ctx.names)
        vars0, inp0 = dict(ctx.vars), dict(ctx.inputs)
        res = []
        ctx.spec += 1
        ctx.max_steps = min(lim0, ctx.steps + 6000)
        okay = True
        try:
            for t, c in opts:
                j = ctx.journal = {}
                ctx.dom = dict(dom0)
                fr[:] = saved
                try:
                    ctx.restrict_nosolver(var, c.rs)
                    e = self.run_from(b, fr, t, stop)
                    cells = {cl: cl.v for cl in j}
                    if any(x is not var and ctx.dom[x] != d for x, d in dom0.items()):
                        raise NoMerge()          # something about another variable was assumed on this branch only
                    res.append((ctx.dom[var], list(fr), cells))
                except (NoMerge, Panic, PathEnd, Diverge, Unsupported):
                    okay = False
                finally:
                    for cl, old in j.items():
                        cl.v = old
                if not okay:
                    break
        finally:
            ctx.spec -= 1
            ctx.dom = dom0
            ctx.journal = outer
            fr[:] = saved
            ctx.max_steps = lim0
            ctx.lazies = lz0
            ctx.names = names0
            if len(ctx.vars) != len(vars0):         # a variable born in one branch only
                okay = False
            ctx.vars, ctx.inputs = vars0, inp0
        if not okay:
            ctx.steps = steps0
            return None
        # merge
        try:
            live = self.live_in(b, stop)
            new = {}
            for l in range(b.nloc):
                if l in b.celled:
                    continue
                vs = [x[1][l] for x in res]
                if all(v is vs[0] for v in vs):
                    if vs[0] is not saved[l]:
                        new[l] = vs[0]
                    continue
                if not live >> l & 1:
                    new[l] = UNINIT
                    continue
                new[l] = self.merge_vals(var, [(r[0], r[1][l]) for r in res])
            cells = {}
            for r in res:
                for cl in r[2]:
                    cells[cl] = None
            for cl in cells:
                try:
                    cells[cl] = self.merge_vals(var, [(r[0], r[2].get(cl, cl.v)) for r in res])
                except KeyError:
                    # the cell was made on one branch and holds a value only meaningful there
                    w = [r[2][cl] for r in res if cl in r[2]]
                    if len(w) != 1:
                        raise NoMerge()
                    cells[cl] = w[0]
        except NoMerge:
            ctx.steps = steps0
            return None
        for l, v in new.items():
            fr[l] = v
        for cl, v in cells.items():
            self.wr(cl, v)
        left = rs_norm([x for r in res for x in r[0]])
        if left != ctx.dom[var]:
            ctx.restrict_nosolver(var, left)     # values assumed away on a branch
        return stop if stop != RET else RET

    def at(self, v, var, k):
        """value of v when var == k; must be ground"""
        t = type(v)
        if t is int or t is bool:
            return v
        if t is Lin:
            if len(v.t) == 1 and v.t[0][0] is var:
                return v.t[0][1] * k + v.k
            raise NoMerge()
        if t is FD and v.v is var:
            return v.tab[k]
        if t is InDom and v.v is var:
            return rs_has(v.rs, k)
        if t is Agg:
            if not v.f:
                return v
            return Agg(v.var, tuple([self.at(x, var, k) for x in v.f]))
        if t is Seq:
            return Seq(tuple([self.at(x, var, k) for x in v.f]))
        if t is StrV:
            out = []
            for a in v.a:
                ta = type(a)
                if ta is str:
                    out.append(a)
                elif ta is Ch:
                    out.append(chr(self.at(a.v, var, k)))
                elif ta is FS and a.v is var:
                    out.append(a.tab[k])
                else:
                    raise NoMerge()
            return s_make(out)
        if v is UNINIT or t in (FnV,):
            return v
        raise NoMerge()

    def same(self, a, b):
        if a is b:
            return True
        t = type(a)
        if t is not type(b):
            return False
        if t is int or t is bool:
            return a == b
        if t is Agg:
            return a.var == b.var and len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if t is Seq:
            return len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if t is StrV:
            return len(a.a) == len(b.a) and all(_atom_same(self.ctx, x, y) for x, y in zip(a.a, b.a))
        if t is Ptr:
            return a == b
        if t is SliceRef:
            return a.c is b.c and a.p == b.p and a.s == b.s and a.e == b.e
        if t is Lin:
            return a.t == b.t and a.k == b.k
        if t is FD:
            return a.v is b.v and a.tab == b.tab
        if t is InDom:
            return a.v is b.v and a.rs == b.rs
        if t is FnV:
            return a.ty == b.ty
        if t is Lazy:
            return a.name == b.name
        if t is Obj:
            return a.k == b.k and self.same_d(a.d, b.d)
        return False

    def same_d(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_d(x, y) for x, y in zip(a, b))
        if a is b:
            return True
        if isinstance(a, (int, str)) or isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        return self.same(a, b)

    def merge_vals(self, var, l):
        v0 = l[0][1]
        if all(self.same(v0, v) for _, v in l[1:]):
            return v0
        ts = {type(v) for _, v in l}
        if ts <= {Agg}:
            if all(v.var == v0.var and len(v.f) == len(v0.f) for _, v in l):
                return Agg(v0.var, tuple(self.merge_vals(var, [(r, v.f[i]) for r, v in l]) for i in range(len(v0.f))))
        if ts == {Seq}:
            if all(len(v.f) == len(v0.f) for _, v in l):
                return Seq(tuple(self.merge_vals(var, [(r, v.f[i]) for r, v in l]) for i in range(len(v0.f))))
            raise NoMerge()
        if ts == {StrV}:
            return self.merge_strs(var, l)
        if ts == {Obj}:
            if all(v.k == v0.k for _, v in l):
                return Obj(v0.k, self.merge_d(var, [(r, v.d) for r, v in l]))
            raise NoMerge()
        # ground table
        tab = {}
        for r, v in l:
            for k in rs_vals(r):
                tab[k] = self.at(v, var, k)
        kinds = {type(x) for x in tab.values()}
        if len(kinds) > 1 and not kinds <= {Agg}:
            raise NoMerge()
        if kinds <= {Agg}:
            for x in tab.values():
                self.ground_small(x)
        if kinds == {StrV}:
            raise NoMerge()
        return self.ctx.mk_fd2(var, tab, self)

    def ground_small(self, x):
        if type(x) is Agg:
            for y in x.f:
                self.ground_small(y)
        elif type(x) is Seq:
            raise NoMerge()

    def merge_d(self, var, l):
        d0 = l[0][1]
        if all(self.same_d(d0, d) for _, d in l[1:]):
            return d0
        if all(isinstance(d, tuple) and len(d) == len(d0) for _, d in l):
            return tuple(self.merge_d(var, [(r, d[i]) for r, d in l]) for i in range(len(d0)))
        if all(isinstance(d, (int, bool) + (Lin, FD, InDom, Agg, StrV)) for _, d in l) and not all(isinstance(d, int) for _, d in l):
            return self.merge_vals(var, l)
        raise NoMerge()

    def merge_strs(self, var, l):
        atoms = [list(v.a) for _, v in l]
        pre = []
        while all(atoms_i for atoms_i in atoms):
            a0 = atoms[0][0]
            if all(_atom_same(self.ctx, a0, x[0]) for x in atoms[1:]):
                pre.append(a0)
                for x in atoms:
                    x.pop(0)
            elif all(type(x[0]) is str for x in atoms):
                n = 0
                m = min(len(x[0]) for x in atoms)
                while n < m and all(x[0][n] == a0[n] for x in atoms):
                    n += 1
                if n == 0:
                    break
                pre.append(a0[:n])
                for x in atoms:
                    x[0] = x[0][n:]
                    if not x[0]:
                        x.pop(0)
                # continue: one of them was exhausted or differs
            else:
                break
        tab = {}
        for (r, _), x in zip(l, atoms):
            rest = s_make(x)
            for k in rs_vals(r):
                tab[k] = s_conc(self.at(rest, var, k))
        return s_make(pre + [FS(var, tab)])

    # --- CFG analyses
    def ipdom(self, b, n):
        if b._ipdom is None:
            N = len(b.blocks)
            # blocks that can reach Return
            preds = [[] for _ in range(N + 1)]
            for i, ss in enumerate(b.succ):
                for s in ss:
                    preds[N if s == RET else s].append(i)
            reach = {N}
            st = [N]
            while st:
                x = st.pop()
                for p in preds[x]:
                    if p not in reach:
                        reach.add(p)
                        st.append(p)
            full = (1 << (N + 1)) - 1
            pd = [full] * (N + 1)
            pd[N] = 1 << N
            ch = True
            order = sorted((x for x in reach if x != N), reverse=True)
            while ch:
                ch = False
                for i in order:
                    m = full
                    for s in b.succ[i]:
                        s = N if s == RET else s
                        if s in reach:
                            m &= pd[s]
                    m |= 1 << i
                    if m != pd[i]:
                        pd[i] = m
                        ch = True
            ip = [None] * N
            for i in order:
                c = pd[i] & ~(1 << i)
                # immediate: the one whose pd set is all of c
                for j in range(N + 1):
                    if c >> j & 1 and pd[j] == c:
                        ip[i] = RET if j == N else j
                        break
            b._ipdom = ip
            b._pd = pd
        return b._ipdom[n]

    def join_of(self, b, n, targets):
        """the block where the feasible targets of a switch meet again"""
        self.ipdom(b, n)
        N = len(b.blocks)
        m = (1 << (N + 1)) - 1
        for t in targets:
            m &= b._pd[N if t == RET else t]
        key = ("join", m)
        j = b._joins.get(key, 0)
        if j == 0:
            j = None
            for i in range(N + 1):
                if m >> i & 1 and b._pd[i] == m:
                    j = RET if i == N else i
                    break
            b._joins[key] = j
        return j

    def live_in(self, b, n):
        if n == RET:
            return 1
        if b._live is None:
            N = len(b.blocks)
            gen, kill = [0] * N, [0] * N
            for i in range(N):
                g = k = 0
                for u, d in reversed(b.uses[i]):
                    for x in d:
                        k |= 1 << x
                        g &= ~(1 << x)
                    for x in u:
                        g |= 1 << x
                gen[i], kill[i] = g, k
            live = [0] * N
            ch = True
            while ch:
                ch = False
                for i in range(N - 1, -1, -1):
                    o = 0
                    for s in b.succ[i]:
                        if s != RET:
                            o |= live[s]
                    v = gen[i] | (o & ~kill[i])
                    if v != live[i]:
                        live[i] = v
                        ch = True
            b._live = live
        return b._live[n]

    # ------------------------------------------------------------ running
    def run_from(self, b, fr, bb, stop):
        ctx = self.ctx
        blocks, terms, cost = b.blocks, b.terms, b.cost
        while bb != stop:
            if bb == RET:
                raise NoMerge()
            ctx.steps += cost[bb]
            if ctx.steps > ctx.max_steps:
                raise Diverge("step budget exhausted in " + b.name)
            for st in blocks[bb]:
                st(fr)
            bb = terms[bb](fr)
        return bb

    def run_body(self, b, args):
        ctx = self.ctx
        fr = [UNINIT] * b.nloc
        for l in b.celled:
            fr[l] = Cell(UNINIT)
        if len(args) != b.argc:
            raise Unsupported("arity of %s: %d args, %d expected" % (b.name, len(args), b.argc))
        for i, a in enumerate(args):
            if i + 1 in b.celled:
                fr[i + 1].v = a
            else:
                fr[i + 1] = a
        fns = ctx.stats.fns
        fns[b.name] = fns.get(b.name, 0) + 1
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise Diverge("call depth in " + b.name)
        ctx.stack.append(b.name)
        try:
            blocks, terms, cost = b.blocks, b.terms, b.cost
            bb = 0
            while bb != RET:
                ctx.steps += cost[bb]
                if ctx.steps > ctx.max_steps:
                    raise Diverge("step budget exhausted in " + b.name)
                for st in blocks[bb]:
                    st(fr)
                bb = terms[bb](fr)
        finally:
            self.depth -= 1
            ctx.stack.pop()
        r = fr[0]
        return r.v if 0 in b.celled else r

    # ------------------------------------------------------------ calls
    def call_ty(self, ft, args):
        """call a function item type"""
        h = self.fn_handler_cache.get(ft)
        if h is None:
            h = self.fn_handler_cache[ft] = self.make_handler(ft)
        return h(args)

    def make_handler(self, ft):
        t = self.ty(ft)
        if t["k"] != "fndef":
            raise Unsupported("call of " + t["s"])
        return self.find_model(self, t)

    def call_inst(self, inst, args):
        """call a resolved instance (through models)"""
        h = self.callee_cache.get(inst)
        if h is None:
            h = self.callee_cache[inst] = self.find_inst_model(self, self.mir.inst(inst))
        return h(args)

    def call_raw(self, inst, args):
        return self.run_body(self.body(inst), args)

    def call_value(self, f, fty, args):
        """call a callable value (function item, closure, fn pointer) with argument list"""
        t = type(f)
        if t is FnV:
            return self.call_ty(f.ty, args)
        if t is FnPtr:
            return self.call_inst(f.inst["inst"], args)
        if t is Obj and f.k == "closure_fn":
            return self.call_value(f.d[1], f.d[0], args)
        if fty is None:
            raise Unsupported("call of %r" % (f,))
        i = self.ty(fty)
        while type(f) is Ptr and i["k"] in ("dyn", "adt"):
            f = self.load(f)
        if type(f) is FnV:
            return self.call_ty(f.ty, args)
        if type(f) is Obj and f.k == "dyn":
            return self.call_closure_ptr(f.d[0], f.d[1], args)
        if i["k"] == "fndef":
            return self.call_ty(fty, args)
        if i["k"] in ("ref",):
            return self.call_value(self.load(f) if type(f) is Ptr else f, i["elem"], args)
        if i["k"] == "closure":
            inst = i["inst"]["inst"]
            b = self.body(inst)
            a1 = self.ty(b.tys[1])
            if a1["k"] in ("ref", "ptr"):
                env = f if type(f) is Ptr else Ptr(Cell(f))
            else:
                env = self.load(f) if type(f) is Ptr else f
            return self.run_body(b, [env] + list(args))
        if i["k"] == "fnptr":
            return self.call_value(f, None, args)
        raise Unsupported("call of value of type " + i["s"])

    def call_closure_ptr(self, p, fty, args):
        """call through a place holding the closure (FnMut state kept in the place)"""
        i = self.ty(fty)
        if type(p) is Obj and p.k == "dyn":
            return self.call_closure_ptr(p.d[0], p.d[1], args)
        if i["k"] == "ref":
            return self.call_closure_ptr(self.load(p), i["elem"], args)
        if i["k"] == "closure":
            b = self.body(i["inst"]["inst"])
            a1 = self.ty(b.tys[1])
            env = p if a1["k"] in ("ref", "ptr") else self.load(p)
            return self.run_body(b, [env] + list(args))
        return self.call_value(self.load(p) if type(p) is Ptr else p, fty, args)


from vals import _atom_same  # noqa: E402


def _restrict_nosolver(self, var, rs):
    d = rs_and(self.dom[var], rs)
    if not d:
        raise PathEnd("empty domain")
    self.dom[var] = d


Ctx.restrict_nosolver = _restrict_nosolver


def _mk_fd2(self, var, tab, I):
    vals = list(tab.values())
    v0 = vals[0]
    if all(I.same(v0, v) for v in vals[1:]):
        return v0
    if all(type(v) in (bool, int) for v in vals):
        return self.mk_fd(var, tab)
    return FD(var, tab)


Ctx.mk_fd2 = _mk_fd2
