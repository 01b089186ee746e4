"""Symbolic scalars, path context (decisions, domains, constraints, solver)."""
import z3

FDMAX = 128     # largest domain a variable may have to be tabulated


class Unsupported(Exception):
    """the engine cannot encode something: never silently ignored"""


class PathEnd(Exception):
    """this path is over (infeasible / assumption false)"""


class Panic(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.msg, self.where = msg, where


class Diverge(Exception):
    pass


class NoMerge(Exception):
    pass


class MergeConflict(Exception):
    def __init__(self, idx):
        self.idx = idx


# ---------------------------------------------------------------- range sets
# a range set is a tuple of disjoint, sorted, non-adjacent inclusive (lo, hi)

def rs_norm(l):
    l = sorted(x for x in l if x[0] <= x[1])
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def rs_of(vals):
    return rs_norm([(v, v) for v in vals])


def rs_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def rs_sub(a, b):
    out = []
    j = 0
    for lo, hi in a:
        while j < len(b) and b[j][1] < lo:
            j += 1
        k = j
        cur = lo
        while k < len(b) and b[k][0] <= hi:
            if b[k][0] > cur:
                out.append((cur, b[k][0] - 1))
            cur = max(cur, b[k][1] + 1)
            k += 1
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def rs_or(a, b):
    return rs_norm(list(a) + list(b))


def rs_size(a):
    return sum(h - l + 1 for l, h in a)


def rs_has(a, v):
    for l, h in a:
        if l <= v <= h:
            return True
    return False


def rs_vals(a):
    for l, h in a:
        for v in range(l, h + 1):
            yield v


# ------------------------------------------------------------------ symbols

class Var:
    __slots__ = ("name", "z", "init")

    def __init__(self, name, init):
        self.name = name
        self.z = z3.Int(name)
        self.init = init

    def __repr__(self):
        return "<%s>" % self.name


class Lin:
    """sum(coeff * var) + k, at least one term"""
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __repr__(self):
        return "Lin(%s+%d)" % ("+".join("%d*%s" % (c, v.name) for v, c in self.t), self.k)


class FD:
    """value that is a function of one finite-domain variable"""
    __slots__ = ("v", "tab")

    def __init__(self, v, tab):
        self.v, self.tab = v, tab

    def __repr__(self):
        return "FD(%s,%r)" % (self.v.name, self.tab)


class ZI:
    """arbitrary integer term"""
    __slots__ = ("e", "vs", "lo", "hi")

    def __init__(self, e, vs, lo=None, hi=None):
        self.e, self.vs, self.lo, self.hi = e, vs, lo, hi

    def __repr__(self):
        return "ZI(%s)" % self.e


class InDom:
    """boolean: variable is in a set"""
    __slots__ = ("v", "rs")

    def __init__(self, v, rs):
        self.v, self.rs = v, rs

    def __repr__(self):
        return "InDom(%s,%r)" % (self.v.name, self.rs[:6])


class ZB:
    """arbitrary boolean term; vs: the Vars in it"""
    __slots__ = ("e", "vs")

    def __init__(self, e, vs):
        self.e, self.vs = e, vs

    def __repr__(self):
        return "ZB(%s)" % self.e


class BAnd:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return "BAnd(%r)" % (self.l,)


SYMI = (Lin, FD, ZI)
SYMB = (InDom, ZB, BAnd)


def lin_make(terms, k):
    t = tuple(sorted(((v, c) for v, c in terms.items() if c != 0), key=lambda x: x[0].name))
    if not t:
        return k
    return Lin(t, k)


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.steps = 0
        self.fns = {}
        self.models = {}
        self.merges = 0
        self.reach = {}

    def as_dict(self):
        return dict(paths=self.paths, queries=self.queries, checks=self.checks, solver_s=self.solver_s,
                    steps=self.steps, fns=self.fns, models=self.models, merges=self.merges, reach=self.reach)


import time as _time


class Ctx:
    def __init__(self, prefix, stats, max_steps=2000000):
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []          # alternative prefixes to explore
        self.dom = {}
        self.pcs = []           # z3 terms
        self.coupled = set()
        self.solver = None
        self.stats = stats
        self.steps = 0
        self.max_steps = max_steps
        self.lazies = {}
        self.journal = None     # cell -> old value, when speculating
        self.spec = 0
        self.names = {}
        self.vars = {}
        self.inputs = {}        # name -> (value, ty): inputs made by the harness
        self.notes = []
        self.budget = None
        self.mapkeys = 0
        self.conf = {}
        self.stack = []
        self.strids = {}
        self.idstrs = []
        self.strfacts = {}
        self.arm = None

    # -- naming
    def fresh(self, hint):
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        return "%s~%d" % (hint, n) if n else hint

    def var(self, name, rs):
        v = Var(self.fresh(name), rs)
        self.dom[v] = rs
        self.vars[v.name] = v
        return v

    def intvar(self, name, lo, hi):
        v = self.var(name, ((lo, hi),))
        return Lin(((v, 1),), 0)

    # -- domains
    def single(self, x):
        """(var, fn) when x is a function of exactly one variable"""
        if type(x) is Lin and len(x.t) == 1:
            return x.t[0][0]
        if type(x) is FD:
            return x.v
        if type(x) is InDom:
            return x.v
        return None

    def norm(self, x):
        """concretise x if its variable is decided"""
        t = type(x)
        if t is Lin:
            ch = False
            for v, c in x.t:
                d = self.dom[v]
                if len(d) == 1 and d[0][0] == d[0][1]:
                    ch = True
                    break
            if ch:
                k = x.k
                tt = []
                for v, c in x.t:
                    d = self.dom[v]
                    if len(d) == 1 and d[0][0] == d[0][1]:
                        k += c * d[0][0]
                    else:
                        tt.append((v, c))
                if not tt:
                    return k
                return Lin(tuple(tt), k)
            return x
        if t is FD:
            d = self.dom[x.v]
            if len(d) == 1 and d[0][0] == d[0][1]:
                return x.tab[d[0][0]]
            return x
        if t is InDom:
            d = self.dom[x.v]
            i = rs_and(d, x.rs)
            if not i:
                return False
            if i == d:
                return True
            return x
        if t is BAnd:
            l = []
            for y in x.l:
                y = self.norm(y)
                if y is False:
                    return False
                if y is not True:
                    l.append(y)
            if not l:
                return True
            if len(l) == 1:
                return l[0]
            return BAnd(tuple(l))
        return x

    def interval(self, x):
        t = type(x)
        if t is int:
            return x, x
        if t is Lin:
            lo = hi = x.k
            for v, c in x.t:
                d = self.dom[v]
                a, b = d[0][0] * c, d[-1][1] * c
                if a > b:
                    a, b = b, a
                lo += a
                hi += b
            return lo, hi
        if t is FD:
            vals = [x.tab[k] for k in rs_vals(self.dom[x.v])]
            return min(vals), max(vals)
        if t is ZI:
            return x.lo, x.hi
        raise Unsupported("interval of %r" % (x,))

    def fd_table(self, x, var):
        """table of x over var's current domain (x depends on var only)"""
        d = self.dom[var]
        if type(x) is FD:
            return {k: x.tab[k] for k in rs_vals(d)}
        if type(x) is Lin:
            c = x.t[0][1]
            return {k: c * k + x.k for k in rs_vals(d)}
        if type(x) is InDom:
            return {k: rs_has(x.rs, k) for k in rs_vals(d)}
        return {k: x for k in rs_vals(d)}

    def small(self, var):
        return rs_size(self.dom[var]) <= FDMAX

    def mk_fd(self, var, tab):
        vals = list(tab.values())
        v0 = vals[0]
        if all(type(v) is type(v0) and v == v0 for v in vals):
            return v0
        if all(type(v) is bool for v in vals):
            return InDom(var, rs_of([k for k, v in tab.items() if v]))
        if all(type(v) is int for v in vals):
            ks = sorted(tab)
            a = (tab[ks[1]] - tab[ks[0]])
            q, r = divmod(a, ks[1] - ks[0])
            if r == 0:
                b = tab[ks[0]] - q * ks[0]
                if q != 0 and all(tab[k] == q * k + b for k in ks):
                    return Lin(((var, q),), b)
        return FD(var, tab)

    # -- z3 terms
    def zi(self, x):
        t = type(x)
        if t is int:
            return z3.IntVal(x)
        if t is bool:
            return z3.IntVal(1 if x else 0)
        if t is Lin:
            e = None
            for v, c in x.t:
                m = v.z if c == 1 else c * v.z
                e = m if e is None else e + m
            return e + x.k if x.k else e
        if t is FD:
            ks = list(rs_vals(self.dom[x.v]))
            e = z3.IntVal(int(x.tab[ks[-1]]))
            for k in ks[:-1]:
                e = z3.If(x.v.z == k, z3.IntVal(int(x.tab[k])), e)
            return e
        if t is ZI:
            return x.e
        if t in (InDom, ZB, BAnd):
            return z3.If(self.zb(x), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("z3 int of %r" % (x,))

    def vs(self, x):
        t = type(x)
        if t is Lin:
            return frozenset(v for v, _ in x.t)
        if t is FD or t is InDom:
            return frozenset((x.v,))
        if t is ZI or t is ZB:
            return x.vs
        if t is BAnd:
            r = frozenset()
            for y in x.l:
                r |= self.vs(y)
            return r
        return frozenset()

    def zrange(self, z, rs):
        l = []
        for a, b in rs:
            l.append(z == a if a == b else z3.And(z >= a, z <= b))
        if not l:
            return z3.BoolVal(False)
        return l[0] if len(l) == 1 else z3.Or(l)

    def zb(self, x):
        t = type(x)
        if t is bool:
            return z3.BoolVal(x)
        if t is InDom:
            return self.zrange(x.v.z, x.rs)
        if t is ZB:
            return x.e
        if t is BAnd:
            return z3.And([self.zb(y) for y in x.l]) if x.l else z3.BoolVal(True)
        if t is FD:
            return self.zrange(x.v.z, rs_of([k for k in rs_vals(self.dom[x.v]) if x.tab[k]]))
        raise Unsupported("z3 bool of %r" % (x,))

    # -- solver
    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.conf.get("z3_timeout_ms", 60000))
            for v in self.coupled:
                self.solver.add(self.zrange(v.z, self.dom[v]))
            for p in self.pcs:
                self.solver.add(p)
        return self.solver

    def couple(self, vs):
        for v in vs:
            if v not in self.coupled:
                self.coupled.add(v)
                if self.solver is not None:
                    self.solver.add(self.zrange(v.z, self.dom[v]))

    def add_pc(self, e, vs):
        self.couple(vs)
        self.pcs.append(e)
        if self.solver is not None:
            self.solver.add(e)

    def restrict(self, var, rs):
        d = rs_and(self.dom[var], rs)
        if not d:
            raise PathEnd("empty domain")
        self.dom[var] = d
        if var in self.coupled and self.solver is not None:
            self.solver.add(self.zrange(var.z, d))

    def query(self, es, vs):
        """satisfiability of path condition and es"""
        s = self._solver()
        s.push()
        for v in vs:
            if v not in self.coupled:
                s.add(self.zrange(v.z, self.dom[v]))
        for e in es:
            s.add(e)
        t = _time.time()
        r = s.check()
        self.stats.solver_s += _time.time() - t
        self.stats.queries += 1
        m = None
        if r == z3.sat:
            m = s.model()
        s.pop()
        if r == z3.unknown:
            raise Unsupported("solver returned unknown: %s" % s.reason_unknown())
        return m

    def feasible(self, c):
        t = type(c)
        if t is bool:
            return c
        if t is InDom:
            if not rs_and(self.dom[c.v], c.rs):
                return False
            if c.v not in self.coupled:
                return True
            return self.query([self.zb(c)], ()) is not None
        return self.query([self.zb(c)], self.vs(c)) is not None

    def assume_term(self, c):
        t = type(c)
        if t is bool:
            if not c:
                raise PathEnd("false")
            return
        if t is InDom:
            self.restrict(c.v, c.rs)
            return
        if t is BAnd:
            for y in c.l:
                self.assume_term(y)
            return
        self.add_pc(self.zb(c), self.vs(c))

    # -- decisions
    def choose(self, conds):
        """conds: mutually exclusive, exhaustive boolean terms; returns an index"""
        cand = []
        z = False
        for i, c in enumerate(conds):
            c = self.norm(c)
            if c is True:
                return i
            if c is False:
                continue
            cand.append((i, c))
            if type(c) is not InDom or c.v in self.coupled:
                z = True
        if not cand:
            if self.query([], set(self.dom)) is None:
                raise PathEnd("infeasible")
            raise Unsupported("no option of a decision holds")
        if len(cand) == 1:
            self.assume_term(cand[0][1])
            return cand[0][0]
        if self.spec:
            raise NoMerge()
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.decisions.append(d)
            self.assume_term(conds[d] if type(conds[d]) is not bool else True)
            return d
        if z:
            cand = [(i, c) for i, c in cand if self.feasible(c)]
            if not cand:
                if self.query([], set(self.dom)) is not None:
                    raise Unsupported("no option of a decision holds")
                raise PathEnd("infeasible")
        for i, c in cand[1:]:
            self.alts.append(self.decisions + [i])
        i, c = cand[0]
        self.decisions.append(i)
        self.assume_term(c)
        return i

    def note_decision(self, fresh_value):
        """a recorded, non-forking decision (merge outcome); returns recorded or fresh value"""
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            d = fresh_value
        self.decisions.append(d)
        return d

    def b_not(self, c):
        t = type(c)
        if t is bool:
            return not c
        if t is InDom:
            return InDom(c.v, rs_sub(self.dom[c.v], c.rs))
        if t is ZB:
            return ZB(z3.Not(c.e), c.vs)
        return ZB(z3.Not(self.zb(c)), self.vs(c))

    def b_and(self, l):
        out = []
        by = {}
        for c in l:
            c = self.norm(c)
            if c is False:
                return False
            if c is True:
                continue
            if type(c) is BAnd:
                sub = c.l
            else:
                sub = (c,)
            for s in sub:
                if type(s) is InDom:
                    if s.v in by:
                        r = rs_and(by[s.v].rs, s.rs)
                        if not rs_and(r, self.dom[s.v]):
                            return False
                        by[s.v] = InDom(s.v, r)
                    else:
                        by[s.v] = s
                else:
                    out.append(s)
        out = list(by.values()) + out
        if not out:
            return True
        if len(out) == 1:
            return out[0]
        return BAnd(tuple(out))

    def b_or(self, l):
        return self.b_not(self.b_and([self.b_not(c) for c in l]))

    def branch(self, c):
        c = self.norm(c)
        t = type(c)
        if t is bool:
            return c
        if t is BAnd:
            for y in c.l:
                if not self.branch(y):
                    return False
            return True
        return self.choose((c, self.b_not(c))) == 0

    # -- integers
    def int_in(self, x, rs):
        """boolean term: integer x is in range set rs"""
        x = self.norm(x)
        t = type(x)
        if t is int:
            return rs_has(rs, x)
        if t is Lin and len(x.t) == 1:
            v, c = x.t[0]
            if c == 1:
                return self.norm(InDom(v, tuple((a - x.k, b - x.k) for a, b in rs)))
            if c == -1:
                return self.norm(InDom(v, rs_norm([(x.k - b, x.k - a) for a, b in rs])))
            out = []
            for a, b in rs:
                a2, b2 = a - x.k, b - x.k
                if c > 0:
                    lo, hi = -((-a2) // c), b2 // c
                else:
                    lo, hi = -((b2) // -c), (-a2) // -c
                out.append((lo, hi))
            return self.norm(InDom(v, rs_norm(out)))
        if t is FD:
            return self.norm(InDom(x.v, rs_of([k for k in rs_vals(self.dom[x.v]) if rs_has(rs, x.tab[k])])))
        lo, hi = self.interval(x)
        if lo is not None and hi is not None:
            i = rs_and(((lo, hi),), rs)
            if not i:
                return False
            if i == ((lo, hi),):
                return True
        return ZB(self.zrange(self.zi(x), rs), self.vs(x))

    def cmp(self, op, a, b):
        """op in eq ne lt le gt ge"""
        a, b = self.norm(a), self.norm(b)
        ta, tb = type(a), type(b)
        if ta is bool:
            a = int(a)
            ta = int
        if tb is bool:
            b = int(b)
            tb = int
        if ta is int and tb is int:
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        if ta in SYMB or tb in SYMB:
            if op in ("eq", "ne"):
                r = self.bool_eq(a, b)
                return r if op == "eq" else self.b_not(r)
            a, b = self.b2i(a), self.b2i(b)
            ta, tb = type(a), type(b)
        if ta is int:
            return self.cmp({"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op], b, a)
        if tb is int:
            BIG = 1 << 200
            rs = {"eq": ((b, b),), "ne": ((-BIG, b - 1), (b + 1, BIG)), "lt": ((-BIG, b - 1),), "le": ((-BIG, b),),
                  "gt": ((b + 1, BIG),), "ge": ((b, BIG),)}[op]
            return self.int_in(a, rs)
        va, vb = self.single(a), self.single(b)
        if va is not None and va is vb and self.small(va):
            t1, t2 = self.fd_table(a, va), self.fd_table(b, va)
            f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y,
                 "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[op]
            return self.norm(InDom(va, rs_of([k for k in t1 if f(t1[k], t2[k])])))
        if ta is Lin and tb is Lin:
            d = self.add(a, self.mul(b, -1))
            if type(d) is int:
                return self.cmp(op, d, 0)
            if type(d) is Lin:
                if len(d.t) == 1:
                    return self.cmp(op, d, 0)
                lo, hi = self.interval(d)
                if op == "eq" and (lo > 0 or hi < 0):
                    return False
                if op == "ne" and (lo > 0 or hi < 0):
                    return True
                if op in ("lt", "le", "gt", "ge"):
                    if op == "lt":
                        if hi < 0:
                            return True
                        if lo >= 0:
                            return False
                    if op == "le":
                        if hi <= 0:
                            return True
                        if lo > 0:
                            return False
                    if op == "gt":
                        if lo > 0:
                            return True
                        if hi <= 0:
                            return False
                    if op == "ge":
                        if lo >= 0:
                            return True
                        if hi < 0:
                            return False
        x, y = self.zi(a), self.zi(b)
        e = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        return ZB(e, self.vs(a) | self.vs(b))

    def b2i(self, x):
        t = type(x)
        if t is bool:
            return int(x)
        if t is InDom:
            if self.small(x.v):
                return self.mk_fd(x.v, {k: int(rs_has(x.rs, k)) for k in rs_vals(self.dom[x.v])})
            return int(self.branch(x))
        if t in SYMB:
            return ZI(z3.If(self.zb(x), z3.IntVal(1), z3.IntVal(0)), self.vs(x), 0, 1)
        return x

    def i2b(self, x):
        """0/1 integer to boolean term"""
        x = self.norm(x)
        t = type(x)
        if t is bool or t in SYMB:
            return x
        return self.cmp("ne", x, 0)

    def bool_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if type(a) is int:
            a = bool(a)
        if type(b) is int:
            b = bool(b)
        if type(b) is bool:
            a, b = b, a
        if type(a) is bool:
            return b if a else self.b_not(b)
        if type(a) is InDom and type(b) is InDom and a.v is b.v:
            d = self.dom[a.v]
            both = rs_and(a.rs, b.rs)
            neither = rs_sub(rs_sub(d, a.rs), b.rs)
            return self.norm(InDom(a.v, rs_or(both, neither)))
        return ZB(self.zb(a) == self.zb(b), self.vs(a) | self.vs(b))

    def add(self, a, b):
        a, b = self.norm(a), self.norm(b)
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return a + b
        if ta in (int, Lin) and tb in (int, Lin):
            t = {}
            k = 0
            for x in (a, b):
                if type(x) is int:
                    k += x
                else:
                    k += x.k
                    for v, c in x.t:
                        t[v] = t.get(v, 0) + c
            return lin_make(t, k)
        r = self._fd2(lambda x, y: x + y, a, b)
        if r is not None:
            return r
        la, ha = self.interval(a)
        lb, hb = self.interval(b)
        return ZI(self.zi(a) + self.zi(b), self.vs(a) | self.vs(b), None if la is None or lb is None else la + lb,
                  None if ha is None or hb is None else ha + hb)

    def _fd2(self, f, a, b):
        va, vb = self.single(a), self.single(b)
        if type(a) is int:
            va = vb
        if type(b) is int:
            vb = va
        if va is None or va is not vb or not self.small(va):
            return None
        t1, t2 = self.fd_table(a, va), self.fd_table(b, va)
        return self.mk_fd(va, {k: f(t1[k], t2[k]) for k in t1})

    def mul(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if type(a) is int:
            a, b = b, a
        if type(a) is int:
            return a * b
        if type(b) is int:
            if b == 0:
                return 0
            if type(a) is Lin:
                return Lin(tuple((v, c * b) for v, c in a.t), a.k * b)
            if type(a) is FD:
                return self.mk_fd(a.v, {k: a.tab[k] * b for k in rs_vals(self.dom[a.v])})
            lo, hi = self.interval(a)
            if b < 0:
                lo, hi = hi, lo
            return ZI(self.zi(a) * b, self.vs(a), None if lo is None else lo * b, None if hi is None else hi * b)
        r = self._fd2(lambda x, y: x * y, a, b)
        if r is not None:
            return r
        return ZI(self.zi(a) * self.zi(b), self.vs(a) | self.vs(b))

    def divmod(self, a, m, want):
        """truncating division by a positive constant of a non-negative value; want 'div'/'rem'"""
        a, m = self.norm(a), self.norm(m)
        if type(a) is int and type(m) is int:
            q, r = abs(a) // abs(m), abs(a) % abs(m)
            if (a < 0) != (m < 0):
                q = -q
            if a < 0:
                r = -r
            return q if want == "div" else r
        if type(m) is not int:
            r = self._fd2((lambda x, y: x // y) if want == "div" else (lambda x, y: x % y), a, m)
            lo, _ = self.interval(a)
            if r is not None and lo >= 0:
                return r
            raise Unsupported("division by a symbolic value")
        lo, hi = self.interval(a)
        if lo is None or lo < 0 or m <= 0:
            raise Unsupported("division of a possibly negative symbolic value")
        if type(a) is Lin:
            hiT, loT, loK = {}, {}, a.k % m
            for v, c in a.t:
                if c % m == 0:
                    hiT[v] = c
                else:
                    loT[v] = c
            l = lin_make(loT, loK)
            ll, lh = self.interval(l)
            if ll >= 0 and lh < m:
                if want == "rem":
                    return l
                return lin_make({v: c // m for v, c in hiT.items()}, a.k // m)
        v = self.single(a)
        if v is not None and self.small(v):
            t = self.fd_table(a, v)
            return self.mk_fd(v, {k: (x // m if want == "div" else x % m) for k, x in t.items()})
        e = self.zi(a)
        if want == "div":
            return ZI(e / m, self.vs(a), lo // m, None if hi is None else hi // m)
        return ZI(e % m, self.vs(a), 0, m - 1)

    # -- models of a path
    def extract(self, extra=(), vs=()):
        """concrete values for all variables satisfying pc and extra"""
        allv = set(vs) | self.coupled
        m = self.query(list(extra), set(vs))
        if m is None:
            return None
        out = {}
        for v in self.vars.values():
            d = self.dom[v]
            if v in allv:
                x = m.eval(v.z, model_completion=True)
                out[v] = x.as_long()
                if not rs_has(d, out[v]):
                    out[v] = d[0][0]
            else:
                out[v] = pick(d)
        return out, m


def pick(d):
    """some value of a domain (a letter for characters, a small number otherwise)"""
    if d[-1][1] == 0x10FFFF and rs_has(d, 0x3042):
        return 0x3042
    for c in (2, 1):
        if rs_has(d, c):
            return c
    return d[0][0]
