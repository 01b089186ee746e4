"""Regular expressions (the `regex` crate's leftmost-first semantics) over lists of
possibly symbolic characters."""
import re
import warnings

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:        # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

from sym import *

MAXCP = 0x10FFFF
WS = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
      (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
ALL = ((0, MAXCP),)

_cache = {}


def _digits():
    import unicodedata
    return rs_of([c for c in range(MAXCP + 1) if unicodedata.category(chr(c)) == "Nd"])


_nd = []


def category(c):
    s = str(c)
    if s == "CATEGORY_SPACE":
        return WS
    if s == "CATEGORY_NOT_SPACE":
        return rs_sub(ALL, WS)
    if s in ("CATEGORY_DIGIT", "CATEGORY_NOT_DIGIT"):
        if not _nd:
            _nd.append(_digits())
        return _nd[0] if s == "CATEGORY_DIGIT" else rs_sub(ALL, _nd[0])
    raise Unsupported("regex category " + s)


def conv(items):
    """sre parse tree -> nested tuples"""
    out = []
    for op, av in items:
        o = str(op)
        if o == "LITERAL":
            out.append(("cls", ((av, av),)))
        elif o == "NOT_LITERAL":
            out.append(("cls", rs_sub(ALL, ((av, av),))))
        elif o == "ANY":
            out.append(("cls", rs_sub(ALL, ((10, 10),))))
        elif o == "IN":
            neg = False
            rs = []
            for k, v in av:
                ks = str(k)
                if ks == "NEGATE":
                    neg = True
                elif ks == "LITERAL":
                    rs.append((v, v))
                elif ks == "RANGE":
                    rs.append((v[0], v[1]))
                elif ks == "CATEGORY":
                    rs.extend(category(v))
                else:
                    raise Unsupported("regex class " + ks)
            rs = rs_norm(rs)
            out.append(("cls", rs_sub(ALL, rs) if neg else rs))
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            hi = None if str(hi) == "MAXREPEAT" else int(hi)
            out.append(("rep", int(lo), hi, o == "MAX_REPEAT", conv(sub)))
        elif o == "SUBPATTERN":
            g, af, df, sub = av
            if af or df:
                raise Unsupported("regex flags")
            out.append(("grp", g, conv(sub)))
        elif o == "BRANCH":
            out.append(("alt", tuple(conv(x) for x in av[1])))
        elif o == "AT":
            s = str(av)
            if s in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                out.append(("bos",))
            elif s in ("AT_END", "AT_END_STRING"):
                out.append(("eos",))
            else:
                raise Unsupported("regex anchor " + s)
        else:
            raise Unsupported("regex operator " + o)
    return tuple(out)


class Rx:
    def __init__(self, pat):
        self.pat = pat
        p = re.sub(r"\(\?<(?![=!])", "(?P<", pat)
        p = p.replace(r"\z", r"\Z")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = sp.parse(p, 0)
        if t.state.flags & ~sc.SRE_FLAG_UNICODE:
            raise Unsupported("regex flags")
        self.names = dict(t.state.groupdict)
        self.ngroups = t.state.groups
        self.prog = conv(t)

    def match_at(self, ctx, cs, i):
        """spans dict or None"""
        n = len(cs)

        def test(c, rs):
            if type(c) is int:
                return rs_has(rs, c)
            return ctx.branch(ctx.int_in(c, rs))

        def m(prog, k, pos, caps, cont):
            if k == len(prog):
                return cont(pos, caps)
            x = prog[k]
            t = x[0]
            if t == "cls":
                if pos < n and test(cs[pos], x[1]):
                    return m(prog, k + 1, pos + 1, caps, cont)
                return None
            if t == "bos":
                return m(prog, k + 1, pos, caps, cont) if pos == 0 else None
            if t == "eos":
                return m(prog, k + 1, pos, caps, cont) if pos == n else None
            if t == "grp":
                g = x[1]

                def done(p2, c2):
                    if g is not None:
                        c2 = dict(c2)
                        c2[g] = (pos, p2)
                    return m(prog, k + 1, p2, c2, cont)
                return m(x[2], 0, pos, caps, done)
            if t == "alt":
                for y in x[1]:
                    r = m(y, 0, pos, caps, lambda p2, c2: m(prog, k + 1, p2, c2, cont))
                    if r is not None:
                        return r
                return None
            if t == "rep":
                lo, hi, greedy, sub = x[1:]

                def rep(cnt, p, c):
                    def more():
                        if hi is not None and cnt >= hi:
                            return None

                        def again(p2, c2):
                            if p2 == p:
                                return None     # empty iteration
                            return rep(cnt + 1, p2, c2)
                        return m(sub, 0, p, c, again)

                    def stop():
                        if cnt < lo:
                            return None
                        return m(prog, k + 1, p, c, cont)
                    if greedy:
                        r = more()
                        return r if r is not None else stop()
                    r = stop()
                    return r if r is not None else more()
                return rep(0, pos, caps)
            raise Unsupported("regex node " + t)

        return m(self.prog, 0, i, {}, lambda p, c: dict(c, **{"": (i, p)}))

    def search(self, ctx, cs):
        anch = bool(self.prog) and self.prog[0] == ("bos",)
        for i in range(len(cs) + 1):
            r = self.match_at(ctx, cs, i)
            if r is not None:
                return r
            if anch:
                return None
        return None


def compile_rx(pat):
    r = _cache.get(pat)
    if r is None:
        try:
            r = Rx(pat)
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported("regex %r: %s" % (pat, e))
        _cache[pat] = r
    return r
