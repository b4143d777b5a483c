"""Integer decisions (z3, linear arithmetic with product lemmas) and the sum/exponential/ring normal form."""
import time, itertools, re, collections
from fractions import Fraction
import z3
from terms import *
import terms as T

STATS = dict(slice_hits=0, z3_calls=0, z3_time=0.0, nf_time=0.0, splits=0)


class Unknown(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


LIVE = collections.OrderedDict()      # contexts that hold a z3 solver, least recently used first
MAXLIVE = 800


SLICES = {}


class Ctx:
    """a set of assumed conditions"""

    def __init__(self, facts=(), parent=None):
        self.facts = tuple(facts)
        self.set = frozenset(self.facts)
        self.memo = {}
        self.kids = {}
        self._solver = None
        self._smemo = {}
        self._rel = {}

    def add(self, *bs):
        new = []
        for b in bs:
            for x in (b.a if b.op == "and" else (b,)):
                if x is not TRUE and x not in self.set and x not in new:
                    new.append(x)
        if not new:
            return self
        key = tuple(new)
        c = self.kids.get(key)
        if c is None:
            c = Ctx(self.facts + key)
            self.kids[key] = c
        return c

    def solver(self):
        if self._solver is None:
            self._enc = Enc(self)
            s = z3.Solver()
            s.set("timeout", 4000)
            for f in self.facts:
                s.add(self._enc.b(f))
            # integer facts that hold for every index, instantiated at the index symbols of this context
            for v, lo, hi, body in self.universals():
                if intonly(body):
                    for nm in sorted({n for f in self.facts if f.op == "le0" for n in f.fv if n[0] in "ibvu" and "!" in n}):
                        x = isym(nm)
                        s.add(z3.Implies(self._enc.b(inrange(x, lo, hi)), z3.Not(self._enc.b(subst(body, {v: x})))))
            self._base = list(self._enc.side)
            for x in self._base:
                s.add(x)
            self._solver = s
            LIVE[self] = True
            if len(LIVE) > MAXLIVE:
                old = next(iter(LIVE))
                del LIVE[old]
                old._solver = old._enc = None
        elif len(LIVE) > MAXLIVE // 2:
            LIVE.move_to_end(self)
        return self._solver

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.set:
            return True
        if bnot(c) in self.set:
            return False
        if c in self.memo:
            return self.memo[c]
        r = None
        if c.op == "and":
            rs = [self.decide(x) for x in c.a]
            if any(x is False for x in rs):
                r = False
            elif all(x is True for x in rs):
                r = True
        if r is None and c.op in ("req", "rlt"):
            a, b = c.a
            if a.op == "c" and a.a[0] <= 0 and posterm(b):
                r = c.op == "rlt"
            elif b.op == "c" and b.a[0] <= 0 and posterm(a):
                r = False
        if r is None and c.op in ("rlt", "req", "not", "uf"):
            r = self.instance(c)
        if r is None and c.op in ("le0", "eq0"):
            xs = self.nonempty(c)
            if xs:
                r = self.add(*xs).decide(c)
        if r is None:
            key = None
            if c.op in ("le0", "eq0"):
                # only the facts connected to the condition through shared names matter
                key = (c, self.relevant(c.fv))
                r = SLICES.get(key, 0)
                if r != 0 or r is None:
                    STATS["slice_hits"] += 1
                    self.memo[c] = r
                    return r
                r = None
            if self.entails(c):
                r = True
            elif self.entails(bnot(c)):
                r = False
            if key is not None:
                if len(SLICES) > 200000:
                    SLICES.clear()
                SLICES[key] = r
        self.memo[c] = r
        return r

    def relevant(self, names):
        names = frozenset(names)
        r = self._rel.get(names)
        if r is None:
            left, have, got = list(self.facts), set(names), []
            go = True
            while go:
                go, rest = False, []
                for f in left:
                    if not f.fv or f.op == "not" and f.a[0].op == "ex" or not have.isdisjoint(f.fv):
                        got.append(f)
                        if not f.fv <= have:
                            have |= f.fv
                            go = True
                    else:
                        rest.append(f)
                left = rest
            r = self._rel[names] = frozenset(got)
        return r

    def universals(self):
        """the facts `no x in [lo, hi) with body(x)`: list of (v, lo, hi, body)"""
        if getattr(self, "_univ", None) is None:
            out = []
            for f in self.facts:
                if f.op == "not" and f.a[0].op == "ex":
                    out.append(f.a[0].a)
                elif f.op == "le0" and len(f.a[0].t) == 1 and f.a[0].t[0][1] == 1 and len(f.a[0].t[0][0]) == 1:
                    x = f.a[0].t[0][0][0]
                    if x.op == "sym" and x.a[0].startswith("len:") and x.a[0][4:] in LENS:
                        lo, hi, cond = LENS[x.a[0][4:]]
                        v = fresh("u")
                        out.append((symname(v), lo, hi, cond(v)))
            self._univ = out
        return self._univ

    def instance(self, c):
        for v, lo, hi, body in self.universals():
            for lit in literals(body):
                pat, val = (lit.a[0], True) if lit.op == "not" else (lit, False)
                goal, flip = (c.a[0], True) if c.op == "not" else (c, False)
                try:
                    m = match(pat, goal, {}, {v})
                except Exception:
                    m = None
                if m is None:
                    continue
                if v in m and self.decide(inrange(m[v], lo, hi)) is True or v not in m and v not in pat.fv and self.decide(lt(lo, hi)) is True:
                    return val != flip
        return None

    def nonempty(self, c):
        """facts about the index lists of the condition: len(L) >= 1 if a member is known, 0 <= rank(L, x) < len(L) for a member x"""
        out = []
        for m, _ in c.a[0].t:
            for x in m:
                if x.op == "sym" and x.a[0] in ASKED:
                    L, asked = ASKED[x.a[0]]
                    g = le(1, I.of(x))
                    if g not in self.set and self.member(x, L, asked):
                        out.append(g)
                    for C in L.tails:
                        g = le(1, C.length)
                        if g not in self.set and self.member(("tail", C.name), C, C.asked + asked):
                            out.append(g)
                elif x.op == "uf" and x.a[0][:5] == "rank:" and "len:" + x.a[0][5:] in ASKED:
                    L = ASKED["len:" + x.a[0][5:]][0]
                    y = x.a[1][0]
                    g1, g2 = le(0, I.of(x)), lt(I.of(x), L.length)
                    if not (g1 in self.set and g2 in self.set) and self.member(x, L, (y,)):
                        out += [g1, g2]
                    for C in L.tails:
                        g = le(C.shift, I.of(x))
                        if g not in self.set and self.member((x, C.name), C, (y,)):
                            out.append(g)
                        g = lt(I.of(x), C.shift)
                        if g not in self.set and self.member((x, C.name, "head"), C.head, (y,)):
                            out.append(g)
        return out

    def member(self, key, L, xs):
        key = ("member", key)
        if key not in self.memo:
            self.memo[key] = False
            for y in list(xs):
                if any(n in self.names() for n in y.fv):
                    try:
                        if self.decide(simp_b(L.mem(y), self)) is True:
                            self.memo[key] = True
                            break
                    except (NeedSplit, Unknown):
                        pass
        return self.memo[key]

    def names(self):
        if getattr(self, "_names", None) is None:
            self._names = frozenset(n for f in self.facts for n in f.fv)
        return self._names

    def entails(self, c):
        if c.op in ("rlt", "req", "ex", "uf") and not self._mentions(c):
            return False
        t0 = time.time()
        s = self.solver()
        s.push()
        enc = self._enc
        n0 = len(enc.side)
        s.add(z3.Not(enc.b(c)))
        for x in enc.side[n0:]:
            s.add(x)
        r = s.check()
        if r != z3.unsat:
            ps = enc.products(c)
            if ps:
                s.add(*ps)
                r = s.check()
        s.pop()
        # side conditions about new atoms stay valid: keep them
        for x in enc.side[n0:]:
            s.add(x)
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        return r == z3.unsat

    def _mentions(self, c):
        return any(f.op not in ("le0", "eq0") for f in self.facts)

    def feasible(self):
        t0 = time.time()
        if self.universals():
            for f in self.facts:
                if f.op in ("rlt", "req") or f.op == "not" and f.a[0].op in ("rlt", "req"):
                    if self.instance(f) is False:
                        return False
        s = self.solver()
        s.push()
        for x in self._enc.products(None):
            s.add(x)
        r = s.check()
        s.pop()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        return r != z3.unsat


def intonly(c):
    if c.op in ("le0", "eq0"):
        return True
    return c.op in ("and", "not") and all(intonly(x) for x in c.a)


def posterm(x):
    if x.op == "c":
        return x.a[0] > 0
    if x.op in ("add", "mul"):
        return all(posterm(y) for y in x.a)
    if x.op == "exp":
        return True
    if x.op == "pow":
        return posterm(x.a[0])
    if x.op == "rmax":
        return any(posterm(y) for y in x.a)
    return x.op in ("uf", "s") and x.a[0] in POS


ASKED = {}       # "len:name" -> (list, the terms whose membership was asked)
LENS = {}        # name of a conditional index list -> (lo, hi, condition)


def literals(body):
    """no x with (a or b) means no x with a and no x with b"""
    if body.op == "not" and body.a[0].op == "and":
        r = []
        for x in body.a[0].a:
            r += literals(bnot(x))
        return r
    return [body] if body.op != "and" else []


class Enc:
    def __init__(self, ctx):
        self.ctx = ctx
        self.side = []
        self.vars = {}
        self.monos = {}
        self.mono_n, self.mono_cache = 0, []
        self.prods, self.prodz = {}, {}
        self.ineqs = []  # polys known <= 0
        for f in ctx.facts:
            if f.op == "le0":
                self.ineqs.append(f.a[0])
            elif f.op == "eq0":
                self.ineqs.append(f.a[0])
                self.ineqs.append(-f.a[0])
        for name, lb in T.LOWER.items():
            self.ineqs.append(I.of(lb) - isym(name))
        self.bools = {}
        self.seen_syms = set()

    def atom(self, x):
        v = self.vars.get(x)
        if v is None:
            v = z3.Int("a%d" % x.id)
            self.vars[x] = v
            if x.op == "sym" and x.a[0] in T.LOWER:
                self.side.append(v >= T.LOWER[x.a[0]])
            if x.op == "div":
                a, b = x.a
                q = I.of(x)
                # b > 0 assumed (checked where the division is created)
                p1 = b * q - a            # <= 0
                p2 = a - b * q - b + 1    # <= 0
                self.side.append(self.i(p1) <= 0)
                self.side.append(self.i(p2) <= 0)
                self.ineqs += [p1, p2]
            elif x.op == "mod":
                a, b = x.a
                r = I.of(x)
                k = z3.Int("k%d" % x.id)
                self.side.append(v >= 0)
                self.side.append(self.i(r - b + 1) <= 0)
                if b.const() is not None:
                    self.side.append(self.i(a) == b.const() * k + v)
                self.ineqs += [-r, r - b + 1]
            elif x.op == "ite":
                self.side.append(v == z3.If(self.b(x.a[0]), self.i(x.a[1]), self.i(x.a[2])))
            elif x.op == "argfirst":
                # index of the first true entry of a non-empty array (0 if none): always a valid index
                lo, hi = [t for t in x.a if isinstance(t, I)][:2]
                self.side.append(v >= self.i(lo))
                self.side.append(v < self.i(hi))
                self.ineqs += [lo - I.of(x), I.of(x) - hi + 1]
            elif x.op == "uf" and x.a[0] in UF_RANGE:
                lo, hi = UF_RANGE[x.a[0]](*x.a[1])
                self.side.append(v >= self.i(I.of(lo)))
                self.side.append(v < self.i(I.of(hi)))
                self.ineqs += [lo - I.of(x), I.of(x) - hi + 1]
        return v

    def i(self, p):
        r = z3.IntVal(0)
        for m, c in p.t:
            if isinstance(c, Fraction):
                raise Unknown("fraction in integer term")
            if not m:
                r = r + c
            elif len(m) == 1:
                r = r + c * self.atom(m[0])
            else:
                v = self.monos.get(m)
                if v is None:
                    for x in m:
                        self.atom(x)
                    v = z3.Int("m" + "_".join(str(x.id) for x in m))
                    self.monos[m] = v
                r = r + c * v
        return r

    def b(self, c):
        op = c.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "le0":
            return self.i(c.a[0]) <= 0
        if op == "eq0":
            return self.i(c.a[0]) == 0
        if op == "and":
            return z3.And(*[self.b(x) for x in c.a])
        if op == "not":
            return z3.Not(self.b(c.a[0]))
        v = self.bools.get(c)
        if v is None:
            v = z3.Bool("b%d" % c.id)
            self.bools[c] = v
        return v

    def products(self, c):
        """p<=0, q<=0 -> p*q >= 0, where the product only mentions monomials already in play"""
        if not self.monos:
            return []
        extra = list(self.ineqs)
        if c is not None:
            for x in (c.a if c.op == "and" else (c,)):
                if x.op == "le0":
                    extra.append(-x.a[0] + 1)
                elif x.op == "not" and x.a[0].op == "le0":
                    extra.append(x.a[0].a[0])
        have = set(self.monos)
        out = []
        seen = set()
        inv = {x for m in have for x in m}
        base = list(dict.fromkeys(p for p in extra if all(len(m) <= 1 and all(x in inv for x in m) for m, _ in p.t)))
        for p, q in itertools.combinations_with_replacement(base, 2):
            e = self.prods.get((p, q), self)
            if e is self:
                r = p * q
                self.prods[p, q] = e = (r, [m for m, _ in r.t if len(m) > 1])
            r, nl = e
            if nl and all(m in have for m in nl):
                z = self.prodz.get(r)
                if z is None:
                    z = self.prodz[r] = self.i(r) >= 0
                out.append(z)
        return out + self.monotone()

    def monotone(self):
        """u >= 1: v - w >= d implies u*v - u*w >= d*u"""
        out = self.mono_cache
        ms = [m for m in self.monos if len(m) == 2]
        if len(ms) == self.mono_n or len(ms) > 10:
            return out
        self.mono_n = len(ms)
        by = {}
        for m in ms:
            for u, v in (m, m[::-1]):
                if u.op == "sym" and T.LOWER.get(u.a[0], 0) >= 1:
                    by.setdefault(u, {})[v] = m
        out = []
        for u, vs in by.items():
            ui = self.atom(u)
            vs = [(self.atom(v), self.i(I({m: 1}))) for v, m in vs.items()] + [(z3.IntVal(0), z3.IntVal(0))]
            for (v, p), (w, q) in itertools.combinations(vs, 2):
                for d in (-2, -1, 0, 1, 2):
                    out += [z3.Implies(v - w >= d, p - q >= d * ui), z3.Implies(v - w <= d, p - q <= d * ui)]
        self.mono_cache = out
        return out


UF_RANGE = {}  # integer function name -> (args -> (lo, hi))


# ------------------------------------------------------------------ integer simplification
def simp_i(p, ctx):
    if not any(x.op != "sym" for m, _ in p.t for x in m):
        return p
    r = ZERO
    for m, c in p.t:
        t = I.of(c)
        for x in m:
            t = t * simp_ia(x, ctx)
        r = r + t
    return r


def simp_ia(x, ctx):
    if x.op == "sym":
        return I.of(x)
    if x.op == "uf":
        return iuf(x.a[0], *[simp_i(a, ctx) for a in x.a[1]])
    if x.op == "ite":
        d = ctx.decide(simp_b(x.a[0], ctx))
        if d is True:
            return simp_i(x.a[1], ctx)
        if d is False:
            return simp_i(x.a[2], ctx)
        raise NeedSplit(atomic(x.a[0], ctx))
    if x.op in ("div", "mod"):
        a, b = simp_i(x.a[0], ctx), simp_i(x.a[1], ctx)
        q = divide(a, b, ctx)
        if q is not None:
            return q if x.op == "div" else a - b * q
        return idiv(a, b) if x.op == "div" else imod(a, b)
    if x.op == "argfirst":
        return pinned(x, ctx)
    return I.of(x)


def pinned(x, ctx):
    """the value of the integer atom x if a bound in the context fixes it"""
    key = ("pin", x)
    if key in ctx.memo:
        return ctx.memo[key]
    ctx.memo[key] = me = I.of(x)
    if (x.a[2] - x.a[1]).const() == 1:
        ctx.memo[key] = x.a[1]
        return x.a[1]
    for f in ctx.facts:
        if f.op not in ("eq0", "le0"):
            continue
        co, rest, bad = 0, {}, False
        for m, k in f.a[0].t:
            if x in m:
                if len(m) == 1 and k in (1, -1):
                    co = k
                else:
                    bad = True
            else:
                rest[m] = k
        if bad or not co:
            continue
        val = I(rest) if co == -1 else -I(rest)
        if any(y.op == "argfirst" for m, _ in val.t for y in m):
            continue
        if f.op == "eq0" or ctx.decide(eq(me, val)) is True:
            ctx.memo[key] = val
            return val
    if any(intonly(u[3]) and list(subatoms(u[3])) for u in ctx.universals()):
        for val in (ZERO, x.a[2] - 1):
            if not any(y.op == "argfirst" for m, _ in val.t for y in m) and ctx.decide(eq(me, val)) is True:
                ctx.memo[key] = val
                return val
    return ctx.memo[key]


def subatoms(c):
    """the argfirst atoms of an integer condition"""
    if c.op in ("le0", "eq0"):
        for m, _ in c.a[0].t:
            for y in m:
                if y.op == "argfirst":
                    yield y
    else:
        for y in c.a:
            yield from subatoms(y)


def divide(a, b, ctx):
    """q with b*q <= a < b*q + b under ctx, if one can be found"""
    q, r = poly_divmod(a, b)
    for k in (0, -1, 1):
        rr = r - b * k
        if ctx.decide(band(le(0, rr), lt(rr, b))) is True:
            return q + k
    return None


def simp_b(c, ctx):
    d = ctx.decide(c)
    if d is not None:
        return TRUE if d else FALSE
    op = c.op
    if op == "le0":
        return le0(simp_i(c.a[0], ctx))
    if op == "eq0":
        return eq0(simp_i(c.a[0], ctx))
    if op == "and":
        return band(*[simp_b(x, ctx) for x in c.a])
    if op == "not":
        return bnot(simp_b(c.a[0], ctx))
    if op in ("rlt", "req"):
        f = rlt if op == "rlt" else req
        a, b = canon(c.a[0], ctx), canon(c.a[1], ctx)
        return f(a, b)
    if op == "ex":
        v, lo, hi, body = c.a
        nv = fresh("b")
        lo, hi = simp_i(lo, ctx), simp_i(hi, ctx)
        c2 = ctx.add(inrange(nv, lo, hi))
        try:
            b2 = simp_b(subst(body, {v: nv}), c2)
        except NeedSplit as e:
            if symname(nv) in e.cond.fv:
                return c
            raise
        if b2 is TRUE:
            return lt(lo, hi)
        return close("ex", nv, lo, hi, b2)
    if op == "uf":
        return B("uf", c.a[0], tuple(simp_i(x, ctx) for x in c.a[1]))
    return c


def canon(r, ctx):
    """canonical real term"""
    return to_r(nf(r, ctx))


def atomic(c, ctx):
    """an undecided atomic condition inside c"""
    c = simp_b(c, ctx)
    while c.op in ("and", "not"):
        if c.op == "not":
            c = c.a[0]
        else:
            for x in c.a:
                if ctx.decide(x) is None:
                    c = x
                    break
            else:
                raise Unknown("no undecided atom")
    return c


# ------------------------------------------------------------------ normal form
# Poly: {Mono: Fraction};  Mono = (binders, factors): binders = tuple of (name, hi), factors = tuple of (R atom, I exponent)
POS = set()      # names of uninterpreted real functions / symbols known to be positive (sqrt, abs)
CUTS = []        # list of (total, at): a sum of length `total` is always split at `at`
ATOMIC = set()   # integer symbols: sums whose length mentions one of them are kept as atoms


def pconst(c):
    return {((), ()): Fraction(c)} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def iadd(r, b, k=1):
    """r += k * b, in place (r must not be shared)"""
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else k * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


_bn = itertools.count()


def fresh_binders(mono):
    """rename the canonical binders of a monomial apart"""
    bs, fs = mono
    if not bs:
        return mono
    ren = {n: isym("b!%d" % next(T._fresh)) for n, _ in bs}
    return (tuple((symname(ren[n]), subst(h, ren)) for n, h in bs),
            tuple((subst(f, ren), subst(e, ren)) for f, e in fs))


def mulfac(fa, fb):
    d = {}
    for f, e in itertools.chain(fa, fb):
        if f in d:
            d[f] = d[f] + e
        else:
            d[f] = e
    return d


_cc = {}


def mkmono(binders, facs):
    """facs: dict atom -> exponent. returns (Mono, extra Poly factor or None)"""
    facs = {f: (ONE if f.op == "ind" and e != 0 else e) for f, e in facs.items() if e != 0}
    used = set()
    if not binders:
        return ((), tuple(sorted(facs.items(), key=lambda fe: (masked(fe[0]), masked(fe[1]), repr(fe[0]), repr(fe[1]))))), None
    key = (tuple(binders), frozenset(facs.items()))
    r = _cc.get(key)
    if r is not None:
        return r
    names = [n for n, _ in binders]
    fvs = set()
    for f, e in facs.items():
        fvs |= f.fv | e.fv
    for n, h in binders:
        fvs |= h.fv
    for n, h in binders:
        if n not in fvs:
            # sum over nothing: multiply by the length
            rest = [(a, b) for a, b in binders if a != n]
            m, ex = mkmono(tuple(rest), facs)
            p = nf(rl(h), Ctx())
            ex = p if ex is None else pmul(ex, p)
            r = (m, ex)
            _cc[key] = r
            return r
    # colours
    col = {names[0]: 0} if len(names) == 1 else {}
    for n, h in binders if len(names) > 1 else ():
        ren = {x: isym("&_") for x in names}
        ren[n] = isym("&*")
        sig = sorted((repr(subst(f, ren)), repr(subst(e, ren))) for f, e in facs.items() if n in f.fv or n in e.fv)
        col[n] = (repr(subst(h, ren)), tuple(sig))
    order = sorted(names, key=lambda n: col[n])
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda n: col[n])]
    best = None
    tot = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            tot *= k
    perms = itertools.product(*[itertools.permutations(g) for g in groups])
    for cnt, pm in enumerate(perms):
        if cnt > 720:
            break
        seq = [x for g in pm for x in g]
        ren = {n: isym("&%d" % k) for k, n in enumerate(seq)}
        hi = dict(binders)
        bs = tuple(("&%d" % k, subst(hi[n], ren)) for k, n in enumerate(seq))
        fs = tuple(sorted(((subst(f, ren), subst(e, ren)) for f, e in facs.items()), key=lambda fe: (repr(fe[0]), repr(fe[1]))))
        kk = (repr(bs), repr(fs))
        if best is None or kk < best[0]:
            best = (kk, (bs, fs))
    r = (best[1], None)
    _cc[key] = r
    return r


def pmono(binders, facs, c):
    if c == 0:
        return {}
    m, ex = mkmono(binders, facs)
    p = {m: Fraction(c)}
    return p if ex is None else pmul(p, ex)


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            x, y = m1, m2
            if x[0]:
                x = fresh_binders(x)
            if y[0]:
                y = fresh_binders(y)
            iadd(r, pmono(x[0] + y[0], mulfac(x[1], y[1]), c1 * c2))
    return r


def to_r(p):
    """canonical R of a Poly"""
    ts = []
    for (bs, fs), c in sorted(p.items(), key=lambda mc: stable_key(mc[0])):
        t = rmul(rc(c), *[_fac_r(f, e) for f, e in fs])
        for n, h in reversed(toposort(bs)):
            nv = fresh("b")
            t = close("sum", nv, ZERO, h, subst(t, {n: nv}))
        ts.append(t)
    return radd(*ts) if ts else R0


def toposort(bs):
    """binders whose bound mentions another binder come after it"""
    if len(bs) < 2 or not any(m in h.fv for m, _ in bs for _, h in bs):
        return list(bs)
    out, left = [], list(bs)
    while left:
        for x in left:
            if not any(m in x[1].fv for m, _ in left):
                out.append(x)
                left.remove(x)
                break
        else:
            raise Unknown("cyclic bounds")
    return out


def _fac_r(f, e):
    if f.op == "ind":
        return rite(f.a[0], R1, R0)
    k = e.const()
    if isinstance(k, Fraction) and f.op == "exp":
        return rfun("exp", rmul(rc(k), f.a[0]))
    return f if k == 1 else R("pow", f, e)


_nfmemo = {}
LAZY = False     # True: denominators are left as they are (equal terms still cancel), much cheaper


def nf(r, ctx):
    key = (r, ctx, LAZY)
    v = _nfmemo.get(key)
    if v is None:
        v = _nf(r, ctx)
        if len(_nfmemo) > 400000:
            _nfmemo.clear()
        _nfmemo[key] = v
    return v


def atom(f, e=ONE):
    return {((), ((f, I.of(e)),)): Fraction(1)}


def _nf(r, ctx):
    op = r.op
    if op == "c":
        return pconst(r.a[0])
    if op == "s":
        return atom(r)
    if op == "uf":
        ia = tuple(simp_i(x, ctx) for x in r.a[1])
        ra = tuple(canon(x, ctx) for x in r.a[2])
        h = UF_SIMP.get(r.a[0])
        if h is not None:
            v = h(ia, ra, ctx)
            if v is not None:
                return nf(v, ctx)
        return atom(R("uf", r.a[0], ia, ra))
    if op == "int":
        p = {}
        for m, c in simp_i(r.a[0], ctx).t:
            f = {}
            for x in m:
                a = R("int", I.of(x))
                f[a] = f.get(a, ZERO) + 1
            iadd(p, pmono((), f, c))
        return p
    if op == "add":
        p = {}
        for x in r.a:
            iadd(p, nf(x, ctx))
        return p
    if op == "mul":
        p = pconst(1)
        ps = sorted((nf(x, ctx) for x in r.a), key=len)
        for q in ps:
            if not q:
                return {}
            p = pmul(p, q)
        return reduce_inv(p)
    if op == "ite":
        c, a, b = r.a
        d = ctx.decide(c)
        if d is None:
            c = simp_b(c, ctx)
            d = ctx.decide(c)
        if d is True:
            return nf(a, ctx)
        if d is False:
            return nf(b, ctx)
        at = atomic(c, ctx)
        if c is at or c is bnot(at):
            v = special_case(at, *((a, b) if c is at else (b, a)), ctx)
            if v is not None:
                return v
        raise NeedSplit(at)
    if op == "ind":
        c = simp_b(r.a[0], ctx)
        d = ctx.decide(c)
        return pconst(1) if d is True else ({} if d is False else atom(R("ind", c)))
    if op == "exp":
        p = nf(r.a[0], ctx)
        f = {}
        for m, c in p.items():
            f[R("exp", to_r({m: Fraction(1)}))] = I.of(c)
        return pmono((), f, 1)
    if op in ("cos", "abs"):
        p = nf(r.a[0], ctx)
        if not p:
            return pconst(1 if op == "cos" else 0)
        k = Fraction(1)
        m0 = min(p, key=stable_key)
        if p[m0] < 0:
            p = pscale(p, -1)
        if op == "abs":
            k = abs(p[m0])
            p = pscale(p, 1 / k)
            if len(p) == 1 and ispos(m0):
                return pscale(p, k)
            sg = known_sign(p, ctx)
            if sg:
                return pscale(p, k * sg)
        return pscale(atom(R(op, to_r(p))), k)
    if op == "sin":
        p = nf(r.a[0], ctx)
        if not p:
            return {}
        m0 = min(p, key=stable_key)
        if p[m0] < 0:
            return pscale(atom(R("sin", to_r(pscale(p, -1)))), -1)
        return atom(R("sin", to_r(p)))
    if op == "sqrt":
        return ppow(nf(r.a[0], ctx), I.of(Fraction(1, 2)), ctx)
    if op == "pow":
        return ppow(nf(r.a[0], ctx), simp_i(r.a[1], ctx), ctx)
    if op == "sum":
        return nf_sum(r, ctx)
    if op in ("max", "min"):
        v, lo, hi, body = r.a
        nv = fresh("b")
        lo, hi = simp_i(lo, ctx), simp_i(hi, ctx)
        if (hi - lo).const() == 1:
            return nf(subst(body, {v: lo}), ctx)
        try:
            b = canon(subst(body, {v: nv}), ctx.add(inrange(nv, lo, hi)))
        except NeedSplit as e:
            if symname(nv) in e.cond.fv:
                return atom(R(op, v, lo, hi, body))
            raise
        return atom(close(op, nv, lo, hi, b))
    if op == "rmax" or op == "rmin":
        xs = []
        for x in r.a:
            c = canon(x, ctx)
            if c not in xs:
                xs.append(c)
        if len(xs) == 1:
            return nf(xs[0], ctx)
        return atom(R(op, *sorted(xs, key=repr)))
    raise Unknown("no normal form for " + op)


UF_SIMP = {}


def special_case(at, x, y, ctx):
    """if(at) x else y, where one arm covers a single point at which the other arm has the same value"""
    for nm in sorted(at.a[0].fv) if at.op in ("eq0", "le0") else ():
        t = thresholds(at, nm)
        if t is None or any("&" in z for z in t[0].fv):
            continue
        v = isym(nm)
        if at.op == "eq0":
            cand = [(x, y, t[0], bnot(at))]
        else:
            cand = []
            for side, p, q in ((at, x, y), (bnot(at), y, x)):
                for e in (t[0], t[0] - 1):
                    if ctx.add(side).decide(eq(v, e)) is True:
                        cand.append((p, q, e, bnot(side)))
                        break
        for p, q, e, away in cand:
            # q may simplify where the condition does not hold; what it becomes there is extended to the single point
            try:
                q2 = nf(q, ctx.add(away))
                if nf(subst(p, {nm: e}), ctx) == nf(subst(to_r(q2), {nm: e}), ctx):
                    return q2
            except (NeedSplit, Unknown):
                pass
    return None


_mk = {}


def known_sign(p, ctx):
    """1 if the context says p >= 0, -1 if it says p <= 0, else 0"""
    sg = ctx._smemo.get(("signs", LAZY))
    if sg is None:
        ctx._smemo[("signs", LAZY)] = sg = {}
        base = Ctx([f for f in ctx.facts if f.op in ("le0", "eq0")])
        for f in ctx.facts:
            g, neg = (f.a[0], True) if f.op == "not" else (f, False)
            if g.op != "rlt":
                continue
            try:
                d = padd(nf(g.a[1], base), nf(g.a[0], base), -1)        # b - a, positive when a < b
            except (NeedSplit, Unknown):
                continue
            if not d:
                continue
            lead = min(d, key=stable_key)
            k = d[lead]
            sg[frozenset(pscale(d, 1 / abs(k) * (1 if k > 0 else -1)).items())] = (-1 if neg else 1) * (1 if k > 0 else -1)
    if not sg:
        return 0
    lead = min(p, key=stable_key)
    k = p[lead]
    return sg.get(frozenset(pscale(p, 1 / k).items()), 0) * (1 if k > 0 else -1)


def subterms(r, ops, seen=None):
    """the subterms of r with an operator in ops"""
    seen = set() if seen is None else seen
    if r in seen:
        return
    seen.add(r)
    if r.op in ops:
        yield r
    for x in r.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, T.R):
                yield from subterms(y, ops, seen)


def abs_args(r):
    for x in subterms(r, ("abs",)):
        yield x.a[0]


def adjacent(p, ctx):
    """pairs of sum ranges of p that differ by a small constant: the longer one is cut at the shorter one"""
    hs = []

    def put(h):
        if not any(x.startswith(("%", "&", "b!")) for x in h.fv) and h.const() is None and h not in hs:
            hs.append(h)
    for (bs, fs), c in p.items():
        for n, h in bs:
            put(h)
        for f, e in fs:
            for x in subterms(f, ("sum",)):
                put(x.a[2] - x.a[1])
    out = []
    for a in hs:
        for b in hs:
            k = (a - b).const()
            if k is not None and 0 < k <= 3 and (a, b) not in CUTS and not any(x == a for x, _ in out) and ctx.decide(le(0, b)) is True:
                out.append((a, b))
    return out


def pointwise(p):
    """sums over the same range: (range, summand as a function of the index, rest), for sums with an absolute value in them"""
    for (bs, fs), c in sorted(p.items(), key=lambda x: stable_key(x[0])):
        names = {n for n, _ in bs}
        for f, e in fs:
            for a in [x.a[0] if x.op == "abs" else x.a[2] for x in subterms(f, ("abs", "sum"))]:
                for n, h in bs:
                    if n in a.fv and not (h.fv & names):
                        return h
    return None


def masked(x):
    """text of a term with the numbers of fresh names left out: the order it gives survives renaming"""
    r = _mk.get(x)
    if r is None:
        r = _mk[x] = re.sub(r"[a-z]!\d+", "!", repr(x))
    return r


def stable_key(m):
    """order of monomials that does not depend on the identity of terms (used to choose signs)"""
    ks = [(masked(f), masked(e)) for f, e in m[1]]
    ks.sort()
    return (repr(m[0]), ks, sorted((repr(f), repr(e)) for f, e in m[1]))


def ispos(mono):
    return all((f.op == "exp") or (f.op in ("uf", "s") and f.a[0] in POS) or f.op == "abs" for f, e in mono[1]) and not mono[0]


def ppow(p, n, ctx):
    k = n.const()
    if k == 0:
        return pconst(1)
    if not p:
        if k is not None and k > 0:
            return {}
        if k is None and ctx.decide(lt(0, n)) is True:
            return {}
        if k is None and ctx.decide(eq(n, 0)) is True:
            return pconst(1)
        if k is None:
            raise NeedSplit(eq(n, 0))
        raise Unknown("division by zero")
    if len(p) == 1:
        (bs, fs), c = next(iter(p.items()))
        if not bs:
            f = {}
            for x, e in fs:
                if x.op == "ind":
                    return atom(R("pow", to_r(p), n)) if k is None or k < 0 else p
                f[x] = f.get(x, ZERO) + e * n
            co = Fraction(1)
            if c != 1:
                if k is not None and (not isinstance(k, Fraction)):
                    co = c ** k
                elif k is not None and k == Fraction(1, 2) and c > 0:
                    import math
                    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if a * a == c.numerator and b * b == c.denominator:
                        co = Fraction(a, b)
                    else:
                        f[rc(c)] = n
                else:
                    if c < 0 and k is None:
                        f[rc(-1)] = n
                        c = -c
                    if c != 1:
                        f[rc(c)] = n
            return pmono((), f, co)
    if k is not None and not isinstance(k, Fraction) and k > 0 and k <= 4:
        r = p
        for _ in range(k - 1):
            r = pmul(r, p)
        return reduce_inv(r)
    # primitive part
    q, content, common = primitive(p)
    if len(q) == 1 and not next(iter(q))[0]:
        return pmul(ppow(q, n, ctx), ppow(pmul(pconst(content), {((), common): Fraction(1)}), n, ctx))
    base = to_r(q)
    res = atom(base if base.op not in ("mul",) else base, n)
    if content != 1 or common:
        res = pmul(res, ppow({((), common): Fraction(content)}, n, ctx))
    return res


def primitive(p):
    """p = content * common * q, q with leading coefficient 1 and no common monomial factor"""
    common = None
    for (bs, fs) in p:
        d = {f: e.const() for f, e in fs if e.const() is not None and not any(n in f.fv for n, _ in bs) and f.op != "ind"}
        if common is None:
            common = d
        else:
            common = {f: min(e, d[f]) for f, e in common.items() if f in d and (e > 0) == (d[f] > 0) or (f in d and False)}
            # for negative exponents the "gcd" is the most negative one
    # include negative exponents present anywhere (to clear inner denominators)
    neg = {}
    for (bs, fs) in p:
        for f, e in fs:
            k = e.const()
            if k is not None and k < 0 and not any(n in f.fv for n, _ in bs) and f.op != "exp" and not isinstance(k, Fraction):
                neg[f] = min(neg.get(f, 0), k)
    com = {f: k for f, k in (common or {}).items() if k > 0 and not isinstance(k, Fraction)}
    for f, k in neg.items():
        com[f] = k
    inv = {f: I.of(-k) for f, k in com.items()}
    q = {}
    for (bs, fs), c in p.items():
        q = padd(q, pmono(bs, mulfac(fs, inv.items()), c))
    lead = min(q, key=stable_key)
    content = q[lead]
    q = pscale(q, 1 / content)
    return q, content, tuple(sorted(((f, I.of(k)) for f, k in com.items()), key=lambda fe: (masked(fe[0]), masked(fe[1]), repr(fe[0]), repr(fe[1]))))


_den = {}
_red = {}


def reducible(mono):
    """(denominator, its normal form, its lead) by which a monomial reduces, or None"""
    r = _red.get(mono, 0)
    if r != 0:
        return r
    bs, fs = mono
    hit = None
    d = dict(fs)
    for f, e in fs:
        k = e.const()
        if f.op == "add" and k is not None and k < 0:
            v = _den.get(f)
            if v is None:
                q = nf(f, Ctx())
                v = _den[f] = (q, max(q, key=leadkey))
            q, lead = v
            lb, lf = lead
            if lb:
                continue
            if all(x in d and d[x].const() is not None and d[x].const() >= y.const() for x, y in lf if y.const() is not None) and all(y.const() is not None and y.const() > 0 for _, y in lf):
                hit = (f, q, lead)
                break
    if len(_red) > 400000:
        _red.clear()
    _red[mono] = hit
    return hit


def reduce_inv(p):
    """lead(q) * q^-1 -> 1 - (q - lead) * q^-1 for denominators q that are sums"""
    if LAZY or not any(reducible(m) for m in p):
        return p
    todo, out, steps = p, {}, 0
    while todo:
        new = {}
        for mono, c in todo.items():
            hit = reducible(mono)
            steps += 1
            if hit is None or steps > 50000:
                iadd(out, {mono: c})
                continue
            bs, fs = mono
            f, q, lead = hit
            lf, lc = lead[1], q[lead]
            base = dict(fs)
            for x, y in lf:
                base[x] = base[x] - y
            # 1 term: exponent of f goes up by one
            b1 = dict(base)
            b1[f] = b1[f] + 1
            iadd(new, pmono(bs, b1, c / lc))
            for m2, c2 in q.items():
                if m2 == lead:
                    continue
                if m2[0]:
                    m2 = fresh_binders(m2)
                iadd(new, pmono(bs + m2[0], mulfac(base.items(), m2[1]), -c * c2 / lc))
        todo = new
    return out


def leadkey(mono):
    bs, fs = mono
    return (sum(1 for f, e in fs if e.const() is not None and e.const() > 0), repr(mono))


def nf_sum(r, ctx):
    v, lo, hi, body = r.a
    lo, hi = simp_i(lo, ctx), simp_i(hi, ctx)
    nv = fresh("b")
    return sum_range(nv, lo, hi, subst(body, {v: nv}), ctx)


def sum_range(nv, lo, hi, body, ctx, depth=0, excl=()):
    """normal form of the sum of body over lo <= nv < hi without the points excl (distinct and in range)"""
    if excl:
        return sum_excl(nv, lo, hi, body, ctx, depth, excl)
    n = hi - lo
    k = n.const()
    if k is not None:
        if k <= 0:
            return {}
        if k <= 6:
            p = {}
            for j in range(k):
                p = padd(p, nf(subst(body, {symname(nv): lo + j}), ctx))
            return p
    else:
        d = ctx.decide(le(n, 0))
        if d is True:
            return {}
    if depth > 40:
        raise Unknown("too many range splits")
    for tot, at in CUTS:
        if n == tot:
            return padd(sum_range(nv, lo, lo + at, body, ctx, depth + 1), sum_range(nv, lo + at, hi, body, ctx, depth + 1))
    if any(a in ATOMIC for a in n.fv):
        w = fresh("b")
        b = subst(body, {symname(nv): w + lo})
        c2 = ctx.add(inrange(w, 0, n))
        p = nf_ind(b, c2, symname(w))
        # pull out factors that do not depend on w, keep one atom per (outer factors)
        groups = {}
        for (bs, fs), c in p.items():
            out = tuple((f, e) for f, e in fs if symname(w) not in f.fv and symname(w) not in e.fv and not any(n2 in f.fv or n2 in e.fv for n2, _ in bs))
            inn = tuple((f, e) for f, e in fs if (f, e) not in out)
            groups.setdefault(out, {})
            groups[out] = padd(groups[out], {(bs, inn): c})
        res = {}
        for out, q in groups.items():
            lead = min(q, key=stable_key)
            co = q[lead]
            s = close("sum", w, ZERO, n, to_r(pscale(q, 1 / co)))
            if s.op != "sum":
                res = padd(res, pmul({((), out): co}, nf(s, ctx)))
            else:
                res = padd(res, pmul({((), out): co}, atom(s)))
        return res
    # ordinary: open, split on conditions about the bound variable
    if lo is not ZERO and lo.const() != 0:
        w = fresh("b")
        return sum_range(w, ZERO, n, subst(body, {symname(nv): w + lo}), ctx, depth + 1)
    c2 = ctx.add(inrange(nv, lo, hi))
    try:
        p = nf(body, c2)
    except NeedSplit as e:
        name = symname(nv)
        if name not in e.cond.fv:
            raise
        if DELTA and e.cond.op == "eq0" and thresholds(e.cond, name):
            return sum_excl(nv, lo, hi, body, ctx, depth + 1, (), e.cond)
        cuts = thresholds(e.cond, name)
        if cuts is None:
            p = nf_ind(body, c2, name)
        else:
            for t in cuts:
                a, b = ctx.decide(le(t, lo)), ctx.decide(le(hi, t))
                if a is True or b is True:
                    continue
                if a is None and ctx.decide(le(lo, t)) is not True:
                    raise NeedSplit(le(t, lo))
                if b is None and ctx.decide(le(t, hi)) is not True:
                    raise NeedSplit(le(hi, t))
                return padd(sum_range(nv, lo, t, body, ctx, depth + 1), sum_range(nv, t, hi, body, ctx, depth + 1))
            raise Unknown("cannot split sum at %r (range %r..%r)" % (e.cond, lo, hi))
    res = {}
    w = fresh("b")
    for (bs, fs), c in p.items():
        ren = {symname(nv): w + lo}
        if bs:
            bs, fs = fresh_binders((bs, fs))
        bs2 = ((symname(w), n),) + tuple((x, subst(h, ren)) for x, h in bs)
        f2 = {}
        for f, e in fs:
            f, e = subst(f, ren), subst(e, ren)
            f2[f] = f2.get(f, ZERO) + e
        res = padd(res, pmono(bs2, f2, c))
    return res


DELTA = True


def sum_excl(nv, lo, hi, body, ctx, depth, excl, cond=None):
    """sum over lo <= nv < hi, nv not in excl. A distinction nv == e is taken out as a single term. The general term found for the
    other points is a total function, so its value at an excluded point may be added to the sum and subtracted again."""
    if depth > 40:
        raise Unknown("too many range splits")
    name = symname(nv)
    base = ctx.add(inrange(nv, lo, hi), *[bnot(eq(nv, x)) for x in excl])
    if cond is None:
        try:
            p = nf(body, base)
        except NeedSplit as e:
            if name not in e.cond.fv:
                raise
            cond = e.cond
    if cond is None:
        w = fresh("b")
        r = to_r(p)
        out = sum_range(w, lo, hi, subst(r, {name: w}), ctx, depth + 1)
        for x in excl:
            out = padd(out, nf(subst(r, {name: x}), ctx), -1)
        return out
    cuts = thresholds(cond, name)
    if not cuts:
        raise Unknown("cannot split sum at %r (range %r..%r)" % (cond, lo, hi))
    if cond.op == "eq0":
        e = cuts[0]
        for x in excl:
            d = ctx.decide(eq(x, e))
            if d is None:
                raise NeedSplit(simp_b(eq(x, e), ctx))
            if d:
                raise Unknown("excluded twice")
        d = [ctx.decide(le(lo, e)), ctx.decide(lt(e, hi))]
        if False in d:
            c2 = base.add(bnot(cond))
            raise Unknown("distinction outside the range")
        for x, c in zip(d, (le(lo, e), lt(e, hi))):
            if x is None:
                raise NeedSplit(simp_b(c, ctx))
        return padd(sum_excl(nv, lo, hi, body, ctx, depth + 1, excl + (e,)), nf(subst(body, {name: e}), ctx))
    t = cuts[0]
    for c in (le(lo, t), le(t, hi)):
        if ctx.decide(c) is not True:
            raise NeedSplit(simp_b(c, ctx))
    left, right = [], []
    for x in excl:
        d = ctx.decide(lt(x, t))
        if d is None:
            raise NeedSplit(simp_b(lt(x, t), ctx))
        (left if d else right).append(x)
    return padd(sum_range(nv, lo, t, body, ctx, depth + 1, tuple(left)), sum_range(nv, t, hi, body, ctx, depth + 1, tuple(right)))



def nf_ind(r, ctx, name):
    """nf, turning undecidable conditions about the bound variable `name` into indicator factors"""
    try:
        return nf(r, ctx)
    except NeedSplit as e:
        if name not in e.cond.fv:
            raise
        c = e.cond
        neg = False
        pa = nf_ind(r, ctx.add(c), name)
        pb = nf_ind(r, ctx.add(bnot(c)), name)
        ind = atom(R("ind", c))
        # c*a + (1-c)*b = b + c*(a-b)
        return padd(pb, pmul(ind, padd(pa, pb, -1)))


def thresholds(c, name):
    """cut points t: the truth of c is constant on v<t and on v>=t"""
    if c.op not in ("le0", "eq0"):
        return None
    p = c.a[0]
    co, rest = 0, {}
    for m, k in p.t:
        names = [x for x in m if x.op == "sym" and x.a[0] == name]
        if any(name in x.fv for x in m):
            if len(m) != 1 or not names:
                return None
            co = k
        else:
            rest[m] = k
    q = I(rest)
    if co not in (1, -1):
        return None
    if c.op == "le0":
        return [(-q + 1) if co == 1 else q]
    e = -q if co == 1 else q
    return [e, e + 1]


# ------------------------------------------------------------------ proving equalities
def prove_eq(lhs, rhs, ctx, rules=(), hints=(), depth=0, log=None, maxdepth=14):
    """lhs == rhs under ctx for all values. Returns (True, None) or (False, residue)"""
    return prove_zero(lhs - rhs, ctx, rules, hints, depth, log, maxdepth)


def nf_lazy(r, ctx):
    global LAZY
    old, LAZY = LAZY, True
    try:
        return nf(r, ctx)
    finally:
        LAZY = old


def prove_zero(r, ctx, rules=(), hints=(), depth=0, log=None, maxdepth=14):
    if not depth_ok(depth, maxdepth):
        return False, "too many case splits"
    try:
        r = pin(r, ctx)
        p = nf_lazy(r, ctx)
        if not p:
            return True, None
        if len(p) == 1 and ((), ()) in p:
            return False, "the two sides differ by %s" % p[((), ())]
        p = nf(r, ctx)
        if p and rules:
            p = rewrite(p, rules, ctx)
        if p:
            p = clear(p)
        if p and rules:
            p = rewrite(p, rules, ctx)
        for h in hints:
            if not p:
                break
            p = apply_hint(p, h, ctx)
        if not p:
            return True, None
        pair = max_pair(p)
        if pair:
            a, b = pair
            nv = fresh("mx")
            lo, hi = a.a[1], a.a[2]
            c2 = ctx.add(inrange(nv, lo, hi))
            return prove_zero(radd(subst(a.a[3], {a.a[0]: nv}), rneg(subst(b.a[3], {b.a[0]: nv}))), c2, rules, hints, depth + 1, log, maxdepth)
        cut = adjacent(p, ctx)
        if cut:
            n0 = len(CUTS)
            CUTS.extend(cut)
            try:
                return prove_zero(to_r(p), Ctx(ctx.facts), rules, hints, depth + 1, log, maxdepth)
            finally:
                del CUTS[n0:]
        for (bs, fs), c in p.items():
            names = {n for n, _ in bs}
            for f, e in fs:
                for a in abs_args(f):
                    if not (a.fv & names) and not any(x.startswith("%") for x in a.fv):
                        raise NeedSplit(rlt(a, 0))
        h = pointwise(p)
        if h is not None:
            one, rest = {}, {}
            nv = fresh("w")
            for (bs, fs), c in p.items():
                hit = [n for n, hh in bs if hh is h or hh == h]
                if hit:
                    ren = {hit[0]: nv}
                    bs, fs = fresh_binders((tuple((n, subst(hh, ren)) for n, hh in bs if n != hit[0]), tuple((subst(f, ren), subst(e, ren)) for f, e in fs)))
                    one = padd(one, pmono(bs, dict_of(fs), c))
                else:
                    rest[(bs, fs)] = c
            ok, res = prove_zero(to_r(one), ctx.add(inrange(nv, ZERO, h)), rules, hints, depth + 1, log, maxdepth)
            if ok and rest:
                return prove_zero(to_r(rest), ctx, rules, hints, depth + 1, log, maxdepth)
            return ok, res
        return False, dict(ctx=[repr(f) for f in ctx.facts[-8:]], residue=repr(to_r(p))[:9000])
    except NeedSplit as e:
        STATS["splits"] += 1
        for c in (e.cond, bnot(e.cond)):
            c2 = ctx.add(c)
            if not c2.feasible():
                continue
            ok, res = prove_zero(r, c2, rules, hints, depth + 1, log, maxdepth)
            if not ok:
                return False, res
        return True, None
    except Unknown as e:
        return False, "unknown: %s" % e


def pin(r, ctx):
    """replace index variables that the context fixes by their value"""
    for _ in range(4):
        todo = [n for n in r.fv if isinstance(n, str) and "!" in n]
        if not todo:
            return r
        sub = {}
        for n in todo:
            v = isym(n)
            for f in ctx.facts:
                if f.op not in ("eq0", "le0") or n not in f.a[0].fv:
                    continue
                co, rest, bad = 0, {}, False
                for m, k in f.a[0].t:
                    if any(n in x.fv for x in m):
                        if len(m) == 1 and m[0].op == "sym" and k in (1, -1):
                            co = k
                        else:
                            bad = True
                    else:
                        rest[m] = k
                if bad or not co:
                    continue
                val = I(rest) if co == -1 else -I(rest)
                if any(isinstance(x, str) and "!" in x and x > n for x in val.fv):
                    continue
                if f.op == "eq0" or ctx.decide(eq(v, val)) is True:
                    sub[n] = val
                    break
            if sub:
                break
        if not sub:
            return r
        r = subst(r, sub)
    return r


def max_pair(p):
    """max(f) - max(g) over the same range: it is enough that f = g at every index"""
    if len(p) != 2:
        return None
    ats = []
    for (bs, fs), c in p.items():
        if bs or len(fs) != 1 or fs[0][0].op not in ("max", "min") or fs[0][1].const() != 1:
            return None
        ats.append((fs[0][0], c))
    (a, ca), (b, cb) = ats
    if ca + cb != 0 or a.op != b.op or a.a[1] is not b.a[1] or a.a[2] is not b.a[2]:
        return None
    return a, b


def dict_of(fs):
    d = {}
    for f, e in fs:
        d[f] = d.get(f, ZERO) + e
    return d


def depth_ok(d, m):
    return d <= m


def clear(p):
    """multiply by the denominators that are sums (free of bound variables)"""
    for _ in range(6):
        den = None
        for (bs, fs) in p:
            for f, e in fs:
                k = e.const()
                if f.op == "add" and k is not None and k < 0 and not any(n in f.fv for n, _ in bs):
                    den = f
        if den is None:
            return p
        kmax = 0
        for (bs, fs) in p:
            for f, e in fs:
                if f is den:
                    kmax = max(kmax, -e.const())
        q = nf(den, Ctx())
        qp = [pconst(1)]
        for _ in range(kmax):
            qp.append(pmul(qp[-1], q))
        r = {}
        for (bs, fs), c in p.items():
            d = dict(fs)
            e = d.pop(den, ZERO).const()
            # mono * den^kmax, with den^(kmax+e) expanded
            r = padd(r, pmul({(bs, tuple(sorted(d.items(), key=lambda fe: (masked(fe[0]), masked(fe[1]), repr(fe[0]), repr(fe[1]))))): c}, _ppown(qp, q, kmax + e)))
        p = r
    return p


def _ppown(qp, q, k):
    while len(qp) <= k:
        qp.append(pmul(qp[-1], q))
    return qp[k]


class Rule:
    """forall vars (integers, subject to cond): lhs == rhs; used left to right on monomials. lhs must be one monomial after nf"""

    def __init__(self, name, vars, lhs, rhs, ctx, cond=TRUE, lead=None):
        self.name = name
        self.vars = [symname(v) for v in vars]
        p = nf(lhs, ctx)
        q = nf(rhs, ctx)
        if len(p) != 1:
            # orient: lead monomial = largest
            full = padd(p, q, -1)
            lm = max(full, key=lambda m: (len(m[0]), len(m[1]), repr(m))) if lead is None else lead(full)
            c = full[lm]
            self.pat = lm
            rest = dict(full)
            del rest[lm]
            self.rhs = pscale(rest, -1 / c)
        else:
            (self.pat, c), = p.items()
            self.rhs = pscale(q, 1 / c)
        self.cond = cond


def rewrite(p, rules, ctx, limit=400):
    for _ in range(limit):
        for mono in sorted(p, key=lambda m: (-len(m[0]), -len(m[1]), repr(m))):
            done = False
            for rule in rules:
                new = rule_apply(rule, mono, ctx)
                if new is not None:
                    c = p[mono]
                    rest = dict(p)
                    del rest[mono]
                    p = reduce_inv(padd(rest, pscale(new, c)))
                    done = True
                    break
            if done:
                break
        else:
            return p
    raise Unknown("rewriting did not end")


def rule_apply(rule, mono, ctx):
    bs, fs = mono
    pb, pf = rule.pat
    if len(pb) > len(bs):
        return None
    hib = dict(bs)
    for binding, used in match_factors(list(pf), list(fs), {}, rule, [n for n, _ in pb], hib):
        # binder conditions
        bmap = {}
        ok = True
        for n, h in pb:
            t = binding.get(n)
            if t is None:
                ok = False
                break
            tn = _symof(t)
            if tn is None or tn not in hib or tn in bmap.values():
                ok = False
                break
            bmap[n] = tn
        if not ok:
            continue
        rest = dict(fs)
        for f, e in used:
            rest[f] = rest[f] - e
        rest = {f: e for f, e in rest.items() if e != 0}
        for tn in bmap.values():
            if any(tn in f.fv or tn in e.fv for f, e in rest.items()) or any(tn in h.fv for n, h in bs if n != tn):
                ok = False
        if not ok:
            continue
        sub = {k: v for k, v in binding.items()}
        for n, h in pb:
            if subst(h, sub) is not hib[bmap[n]]:
                ok = False
        if not ok:
            continue
        if any(v not in binding for v in rule.vars):
            continue
        # bound variables other than the matched ones stay; side condition
        c2 = ctx
        for n, h in bs:
            c2 = c2.add(inrange(isym(n), 0, h))
        if rule.cond is not TRUE and c2.decide(subst(rule.cond, sub)) is not True:
            continue
        keep = tuple((n, h) for n, h in bs if n not in bmap.values())
        # rename kept binders to fresh names, to be able to multiply
        ren = {n: fresh("b") for n, _ in keep}
        res = {}
        rest2 = {}
        for f, e in rest.items():
            rest2[subst(f, ren)] = subst(e, ren)
        for m2, c in rule.rhs.items():
            b2, f2 = fresh_binders(m2) if m2[0] else m2
            s2 = {k: subst(v, ren) for k, v in sub.items() if k not in [x for x, _ in pb]}
            f3 = {}
            for f, e in f2:
                f_, e_ = subst(f, s2), subst(e, s2)
                f3[f_] = f3.get(f_, ZERO) + e_
            fac = mulfac(rest2.items(), f3.items())
            # deltas introduced by the rule are indicator atoms: resolve them against the binders
            res = padd(res, collapse(tuple((symname(ren[n]), subst(h, ren)) for n, h in keep) + tuple((n, subst(h, s2)) for n, h in b2), fac, c, ctx))
        return res
    return None


def collapse(binders, fac, c, ctx):
    """resolve [a == b] indicators: sum over a bound variable a disappears"""
    for f in list(fac):
        if f.op == "ind" and f.a[0].op in ("eq0", "true", "false"):
            cond = f.a[0]
            c2 = ctx
            for n, h in binders:
                c2 = c2.add(inrange(isym(n), 0, h))
            d = c2.decide(cond)
            if d is True:
                g = {k: e for k, e in fac.items() if k is not f}
                return collapse(binders, g, c, ctx)
            if d is False:
                return {}
            for n, h in binders:
                if n in cond.fv:
                    t = thresholds(cond, n)
                    if t is None:
                        continue
                    e0 = t[0]
                    rb = tuple((x, y) for x, y in binders if x != n)
                    c3 = ctx
                    for n2, h2 in rb:
                        c3 = c3.add(inrange(isym(n2), 0, h2))
                    ins = c3.decide(inrange(e0, 0, h))
                    if ins is True:
                        g = {}
                        for k, e in fac.items():
                            if k is f:
                                continue
                            k2, e2 = subst(k, {n: e0}), subst(e, {n: e0})
                            g[k2] = g.get(k2, ZERO) + e2
                        rb = tuple((x, subst(y, {n: e0})) for x, y in rb)
                        return collapse(rb, g, c, ctx)
                    if ins is False:
                        return {}
            if not any(n in cond.fv for n, _ in binders):
                raise NeedSplit(cond)
    return pmono(binders, fac, c)


def _symof(t):
    if isinstance(t, I) and len(t.t) == 1 and t.t[0][1] == 1 and len(t.t[0][0]) == 1 and t.t[0][0][0].op == "sym":
        return t.t[0][0][0].a[0]
    return None


def match_factors(pats, facs, binding, rule, pbinders, hib):
    """all ways to match every (pattern factor, exponent) to a factor with at least that exponent"""
    if not pats:
        yield binding, []
        return
    # most constrained pattern first: uf with the most constants is fine as given
    (pf, pe), rest = pats[0], pats[1:]
    vs = set(rule.vars) | set(pbinders)
    for idx, (f, e) in enumerate(facs):
        k, pk = e.const(), pe.const()
        if pk is not None:
            if k is None or isinstance(k, Fraction) != isinstance(pk, Fraction):
                continue
            if not ((pk > 0 and k >= pk) or (pk < 0 and k <= pk)):
                continue
        b2 = match(pf, f, binding, vs)
        if b2 is None:
            continue
        if pk is None:
            b2 = match_i(pe, e, b2, vs)
            if b2 is None:
                continue
        left = list(facs)
        pe2 = pe if pk is not None else e
        ne = e - pe2
        if ne == 0:
            left.pop(idx)
        else:
            left[idx] = (f, ne)
        for b3, used in match_factors(rest, left, b2, rule, pbinders, hib):
            yield b3, [(f, pe2)] + used


def match(p, t, b, vs):
    if p is t and not (p.fv & vs):
        return b
    if isinstance(p, I):
        return match_i(p, t, b, vs) if isinstance(t, I) else None
    if type(p) is not type(t) or p.op != t.op or len(p.a) != len(t.a):
        return None
    if p.op in BINDERS:
        return _match_tuple((p.a[1], p.a[2], p.a[3]), (t.a[1], t.a[2], t.a[3]), b, vs) if p.a[0] == t.a[0] else None
    return _match_tuple(p.a, t.a, b, vs)


def _match_tuple(ps, ts, b, vs):
    if len(ps) != len(ts):
        return None
    for x, y in zip(ps, ts):
        if isinstance(x, tuple):
            if not isinstance(y, tuple):
                return None
            b = _match_tuple(x, y, b, vs)
        elif isinstance(x, (Node, I)):
            b = match(x, y, b, vs)
        elif x != y:
            return None
        if b is None:
            return None
    return b


def match_i(p, t, b, vs):
    free = p.fv & vs
    if not free:
        return b if p is t else None
    un = [v for v in free if v not in b]
    if not un:
        return b if subst(p, b) is t else None
    if len(un) == 1:
        v = un[0]
        # p = c*v + rest, c = +-1
        co, rest = None, {}
        for m, k in p.t:
            if any(v in x.fv for x in m):
                if len(m) == 1 and m[0].op == "sym" and co is None and k in (1, -1):
                    co = k
                else:
                    co = "bad"
            else:
                rest[m] = k
        if co == "bad" or co is None:
            # maybe a single uf atom
            if len(p.t) == 1 and len(t.t) == 1 and p.t[0][1] == t.t[0][1] and len(p.t[0][0]) == 1 == len(t.t[0][0]):
                return match(p.t[0][0][0], t.t[0][0][0], b, vs)
            return None
        val = (t - subst(I(rest), b))
        if co == -1:
            val = -val
        b2 = dict(b)
        b2[v] = val
        return b2
    return None


def apply_hint(p, h, ctx):
    return p
