"""Terms: integer polynomials (I), real terms (R) and conditions (B), all hash-consed and immutable.

Bound variables of sums/quantifiers are named by the height of the body ("%1", "%2", ...), so alpha-equivalent terms are
the same object.
"""
from fractions import Fraction
import itertools

_ids = itertools.count()


class Node:
    __slots__ = ("op", "a", "id", "fv", "h", "_s")
    _tab = {}

    def __new__(cls, op, *a):
        key = (cls, op) + a
        n = Node._tab.get(key)
        if n is None:
            n = object.__new__(cls)
            n.op, n.a, n.id = op, a, next(_ids)
            n._s = None
            fv, h = frozenset(), 0
            for x in a:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Node, I)):
                            fv, h = fv | y.fv, max(h, y.h)
                elif isinstance(x, (Node, I)):
                    fv, h = fv | x.fv, max(h, x.h)
            if op in BINDERS:
                fv = (n.a[-1].fv - {n.a[0]}) | n.a[1].fv | n.a[2].fv
                h = max(h, int(n.a[0][1:]) if n.a[0][0] == "%" else 0)
            elif op == "sym":
                fv = frozenset([a[0]])
            n.fv, n.h = fv, h
            Node._tab[key] = n
        return n

    def __repr__(self):
        if self._s is None:
            self._s = show(self)
        return self._s

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


BINDERS = {"sum", "max", "min", "ex", "all", "argfirst", "prod"}


class IA(Node):
    """integer atom: sym(name) | uf(name, args) | div(a, b) | mod(a, b) | ite(B, I, I)"""
    __slots__ = ()


def _monokey(mc):
    return [x.id for x in mc[0]]


class I:
    """polynomial over integer atoms with rational coefficients (integers except inside exponents)"""
    __slots__ = ("t", "hash", "fv", "h", "s")
    _tab = {}
    _of = {}

    def __new__(cls, t):
        if len(t) == 1:
            t = tuple(mc for mc in t.items() if mc[1] != 0)
        else:
            t = tuple(sorted([mc for mc in t.items() if mc[1] != 0], key=_monokey))
        n = I._tab.get(t)
        if n is None:
            n = object.__new__(cls)
            n.t = t
            n.hash = hash(t)
            fv, h = frozenset(), 0
            for m, _ in t:
                for x in m:
                    fv, h = fv | x.fv, max(h, x.h)
            n.fv, n.h = fv, h
            n.s = None
            I._tab[t] = n
        return n

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        if isinstance(o, int):
            o = I.of(o)
        return self is o

    @staticmethod
    def of(x):
        if isinstance(x, I):
            return x
        r = I._of.get(x) if not isinstance(x, float) else None
        if r is not None:
            return r
        r = I._of_(x)
        if len(I._of) < 2000000:
            I._of[x] = r
        return r

    @staticmethod
    def _of_(x):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fraction)):
            if isinstance(x, Fraction) and x.denominator == 1:
                x = x.numerator
            return I({(): x})
        if isinstance(x, IA):
            return I({(x,): 1})
        raise TypeError("not an integer term: %r" % (x,))

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def __add__(self, o):
        o = I.of(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return I(d)

    __radd__ = __add__

    def __neg__(self):
        return I({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-I.of(o))

    def __rsub__(self, o):
        return I.of(o) - self

    def __mul__(self, o):
        o = I.of(o)
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                k = tuple(sorted(m + m2, key=lambda x: x.id))
                d[k] = d.get(k, 0) + c * c2
        return I(d)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return idiv(self, I.of(o))

    def __rfloordiv__(self, o):
        return idiv(I.of(o), self)

    def __mod__(self, o):
        return imod(self, I.of(o))

    def __rmod__(self, o):
        return imod(I.of(o), self)

    def scale(self, f):
        d = {}
        for m, c in self.t:
            v = Fraction(c) * f
            d[m] = v.numerator if v.denominator == 1 else v
        return I(d)

    def __repr__(self):
        if self.s is None:
            self.s = self._repr()
        return self.s

    def _repr(self):
        if not self.t:
            return "0"
        s = []
        for m, c in self.t:
            mm = "*".join(map(repr, m))
            s.append(str(c) if not m else (mm if c == 1 else ("-" + mm if c == -1 else "%s*%s" % (c, mm))))
        return "+".join(s).replace("+-", "-")

    def atoms(self):
        return {x for m, _ in self.t for x in m}


ZERO = I({})
ONE = I({(): 1})


def isym(name):
    return I({(IA("sym", name),): 1})


def iuf(name, *args):
    args = tuple(I.of(x) for x in args)
    # elem(rank(x)) = x for index lists
    if name.startswith("elem:") and len(args) == 1:
        t = args[0].t
        if len(t) == 1 and t[0][1] == 1 and len(t[0][0]) == 1:
            x = t[0][0][0]
            if x.op == "uf" and x.a[0] == "rank:" + name[5:]:
                return x.a[1][0]
    if name.startswith("rank:") and len(args) == 1:
        t = args[0].t
        if len(t) == 1 and t[0][1] == 1 and len(t[0][0]) == 1:
            x = t[0][0][0]
            if x.op == "uf" and x.a[0] == "elem:" + name[5:]:
                return x.a[1][0]
    return I({(IA("uf", name, args),): 1})


def poly_divmod(a, b):
    """a = q*b + r by dividing by the leading monomial of b (largest degree); exact rational-free steps only"""
    lead = max(b.t, key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    lm, lc = lead
    q, r = ZERO, ZERO
    work = a
    for _ in range(50):
        if not work.t:
            break
        found = None
        for m, c in sorted(work.t, key=lambda mc: -len(mc[0])):
            rest = list(m)
            ok = True
            for x in lm:
                if x in rest:
                    rest.remove(x)
                else:
                    ok = False
                    break
            if ok and lm and c % lc == 0:
                found = (tuple(rest), c // lc)
                break
            if ok and not lm and abs(c) >= abs(lc) and (m or c % lc == 0) and c % lc == 0:
                found = (tuple(rest), c // lc)
                break
        if found is None:
            break
        t = I({found[0]: found[1]})
        q = q + t
        work = work - t * b
    return q, work


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if ca is not None and cb is not None:
        return I.of(ca // cb)
    q, r = poly_divmod(a, b)
    if not r.t:
        return q
    if cb is not None and cb > 0:
        # pull out multiples of the constant
        qq, rr = {}, {}
        for m, c in a.t:
            k = c // cb
            qq[m] = k
            rr[m] = c - k * cb
        q, r = I(qq), I(rr)
        if r.const() is not None:
            return q + I.of(r.const() // cb)
        return q + I({(IA("div", r, b),): 1})
    q, r = reduce_div(a, b)
    if not r.t:
        return q
    return q + I({(IA("div", r, b),): 1})


def reduce_div(a, b):
    """a = q*b + r with the monomials of a that are multiples of b moved to q (floor on the coefficient)"""
    if len(b.t) != 1:
        return poly_divmod(a, b)
    (lm, lc), = b.t
    qq, rr = {}, {}
    for m, c in a.t:
        rest = list(m)
        ok = lc > 0
        for x in lm:
            if x in rest:
                rest.remove(x)
            else:
                ok = False
                break
        if not ok or not isinstance(c, int):
            rr[m] = c
            continue
        k = c // lc
        if k:
            qq[tuple(rest)] = k
        if c - k * lc:
            rr[m] = c - k * lc
    return I(qq), I(rr)


def imod(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1:
        return ZERO
    if ca is not None and cb is not None:
        return I.of(ca % cb)
    q, r = poly_divmod(a, b)
    if not r.t:
        return ZERO
    if cb is not None and cb > 0:
        r = I({m: c % cb for m, c in a.t})
        if r.const() is not None:
            return r
        return I({(IA("mod", r, b),): 1})
    return a - b * idiv(a, b)


# ---------------------------------------------------------------- conditions
class B(Node):
    """true | false | le0(I) | eq0(I) | rlt(R,R) | rle(R,R) | req(R,R) | and(...) | or(...) | not(b) | ex/all(v,lo,hi,b) |
    uf(name, iargs)"""
    __slots__ = ()

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)


TRUE = B("true")
FALSE = B("false")
LOWER = {}  # symbol name -> known lower bound (global, set by assumptions)


def _quick_sign(p):
    """'+': p >= 0 provable from LOWER coefficientwise; also returns strict"""
    c = p.const()
    if c is not None:
        return c
    low = Fraction(0)
    # substitute s = s' + lb, check coefficients nonnegative
    d = {}
    todo = [((), 1, 0)]
    for m, c in p.t:
        parts = [((), Fraction(c))]
        for x in m:
            if x.op != "sym" or x.a[0] not in LOWER:
                return None
            lb = LOWER[x.a[0]]
            new = []
            for mm, cc in parts:
                new.append((tuple(sorted(mm + (x.a[0],))), cc))
                if lb:
                    new.append((mm, cc * lb))
            parts = new
        for mm, cc in parts:
            d[mm] = d.get(mm, 0) + cc
    if all(v >= 0 for v in d.values()):
        return d.get((), 0) if d.get((), 0) > 0 else 0
    if all(v <= 0 for v in d.values()) and d.get((), 0) < 0:
        return d[()]
    return None


def le0(p):
    s = _quick_sign(p)
    if p.const() is not None:
        return TRUE if p.const() <= 0 else FALSE
    if s is not None:
        if s > 0:
            return FALSE
        if s < 0:
            return TRUE
    s = _quick_sign(-p)
    if s is not None and s >= 0:
        return TRUE
    g = 0
    import math
    for m, c in p.t:
        if m:
            g = math.gcd(g, abs(c))
    if g > 1:
        # g*q + c <= 0  <=>  q <= floor(-c/g)
        cst = dict(p.t).get((), 0)
        q = I({m: c // g for m, c in p.t if m})
        p = q - I.of((-cst) // g)
    return B("le0", p)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    for s in (_quick_sign(p), _quick_sign(-p)):
        if s is not None and s > 0:
            return FALSE
    import math
    g = 0
    for m, c in p.t:
        if m:
            g = math.gcd(g, abs(c))
    cst = dict(p.t).get((), 0)
    if g > 1:
        if cst % g:
            return FALSE
        p = I({m: c // g for m, c in p.t})
    if p.t[-1][1] < 0:
        p = -p
    if len(p.t) <= 2:  # mod(a,2) == 1  ->  not mod(a,2) == 0
        cst = dict(p.t).get((), 0)
        ats = [m for m, c in p.t if m]
        if len(ats) == 1 and len(ats[0]) == 1 and ats[0][0].op == "mod" and ats[0][0].a[1].const() == 2:
            r, co = ats[0][0].a[0], dict(p.t)[ats[0]]
            v = Fraction(-cst, co)
            if v not in (0, 1):
                return FALSE
            k = dict(r.t).get((), 0) % 2
            r2 = r - I.of(dict(r.t).get((), 0))
            par = (v + k) % 2
            base = B("eq0", I({(IA("mod", r2, I.of(2)),): 1}))
            return base if par == 0 else bnot(base)
    return B("eq0", p)


def le(a, b):
    return le0(I.of(a) - I.of(b))


def lt(a, b):
    return le0(I.of(a) - I.of(b) + 1)


def eq(a, b):
    return eq0(I.of(a) - I.of(b))


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if bnot(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B("and", *sorted(out, key=lambda n: n.id))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "le0":
        return le0(-x.a[0] + 1)
    return B("not", x)


def inrange(x, lo, hi):
    return band(le(lo, x), lt(x, hi))


# ---------------------------------------------------------------- reals
class R(Node):
    """c(Fraction) | s(name) | uf(name, iargs, rargs) | add(...) | mul(...) | pow(R, I) | exp/cos/sin/sqrt/abs/sign(R)
    | ite(B, R, R) | sum/max/min(v, lo, hi, R) | int(I)"""
    __slots__ = ()

    def __add__(self, o):
        return radd(self, rl(o))

    def __radd__(self, o):
        return radd(rl(o), self)

    def __sub__(self, o):
        return radd(self, rneg(rl(o)))

    def __rsub__(self, o):
        return radd(rl(o), rneg(self))

    def __mul__(self, o):
        return rmul(self, rl(o))

    def __rmul__(self, o):
        return rmul(rl(o), self)

    def __truediv__(self, o):
        return rmul(self, rpow(rl(o), -1))

    def __rtruediv__(self, o):
        return rmul(rl(o), rpow(self, -1))

    def __neg__(self):
        return rneg(self)

    def __pow__(self, n):
        return rpow(self, n)


def rc(x):
    return R("c", Fraction(x))


R0, R1 = rc(0), rc(1)
PI = R("s", "pi")


def rl(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        return rc(int(x))
    if isinstance(x, (int, Fraction)):
        return rc(x)
    if isinstance(x, float):
        return rc(Fraction(repr(x)))
    if isinstance(x, I):
        c = x.const()
        return rc(c) if c is not None else R("int", x)
    if isinstance(x, B):
        return rite(x, R1, R0)
    raise TypeError("not a real term: %r" % (x,))


def byid(x):
    return x.id


def mulkey(x):
    return -1 if x.op == "c" else x.id


def radd(*xs):
    out, k = [], Fraction(0)
    for x in xs:
        if x.op == "c":
            k += x.a[0]
        elif x.op == "add":
            for y in x.a:
                if y.op == "c":
                    k += y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if k != 0:
        out.append(rc(k))
    if not out:
        return R0
    if len(out) == 1:
        return out[0]
    out.sort(key=byid)
    return R("add", *out)


def rmul(*xs):
    out, k = [], Fraction(1)
    for x in xs:
        for y in (x.a if x.op == "mul" else (x,)):
            if y.op == "c":
                k *= y.a[0]
            else:
                out.append(y)
    if k == 0:
        return R0
    if not out:
        return rc(k)
    if k != 1:
        out = [rc(k)] + out
    if len(out) == 1:
        return out[0]
    if len(out) > 2 or k == 1:
        out.sort(key=mulkey)
    return R("mul", *out)


def rneg(x):
    return rmul(rc(-1), x)


def rpow(x, n):
    n = I.of(n)
    c = n.const()
    if c == 0:
        return R1
    if c == 1:
        return x
    if x.op == "c" and c is not None and (c > 0 or x.a[0] != 0):
        return rc(x.a[0] ** c)
    return R("pow", x, n)


def rfun(name, x):
    if name == "exp" and x is R0:
        return R1
    if name == "cos" and x is R0:
        return R1
    if name in ("sin", "sqrt", "abs") and x is R0:
        return R0
    if name == "sqrt" and x is R1:
        return R1
    if name == "abs" and x.op == "c":
        return rc(abs(x.a[0]))
    if name == "abs" and x.op == "mul" and x.a[0].op == "c":
        return rmul(rc(abs(x.a[0].a[0])), rfun("abs", rmul(*x.a[1:])))
    return R(name, x)


def ruf(name, iargs=(), rargs=()):
    return R("uf", name, tuple(I.of(x) for x in iargs), tuple(rl(x) for x in rargs))


def rsym(name):
    return R("s", name)


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return rite(c.a[0], b, a)
    return R("ite", c, a, b)


def iite(c, a, b):
    a, b = I.of(a), I.of(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return I({(IA("ite", c, a, b),): 1})


def rlt(a, b):
    a, b = rl(a), rl(b)
    if a.op == "c" and b.op == "c":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op in ("int", "c") and b.op in ("int", "c"):
        return lt(_asint(a), _asint(b)) if _isint(a) and _isint(b) else B("rlt", a, b)
    return B("rlt", a, b)


def rle(a, b):
    return bnot(rlt(b, a))


def req(a, b):
    a, b = rl(a), rl(b)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if _isint(a) and _isint(b):
        return eq(_asint(a), _asint(b))
    return B("req", *sorted((a, b), key=lambda n: n.id))


def _isint(r):
    return r.op == "int" or (r.op == "c" and r.a[0].denominator == 1)


def _asint(r):
    return r.a[0] if r.op == "int" else I.of(r.a[0].numerator)


_fresh = itertools.count()


def fresh(prefix="t"):
    return isym("%s!%07d" % (prefix, next(_fresh)))


def symname(v):
    return v.t[0][0][0].a[0]


def mkbind(op, lo, hi, fn):
    """op in BINDERS; fn maps the bound variable (I) to the body"""
    lo, hi = I.of(lo), I.of(hi)
    v = fresh("b")
    body = fn(v)
    return close(op, v, lo, hi, body)


def close(op, v, lo, hi, body):
    cls = B if op in ("ex", "all") else (IA if op == "argfirst" else R)
    nv = symname(v)
    if nv not in body.fv:
        if op in ("ex", "all"):
            if body is TRUE and op == "all" or body is FALSE and op == "ex":
                return body
        elif op == "sum":
            if lo.const() is not None and False:
                pass
            return rmul(body, rl(hi - lo)) if _quick_nonneg(hi - lo) else cls(op, "%1", lo, hi, body)
    name = "%" + str(max(body.h, 0) + 1)
    body2 = subst(body, {nv: isym(name)})
    if op == "sum":
        if body2 is R0:
            return R0
        if (hi - lo).const() == 1:
            return subst(body, {nv: lo})
        if (hi - lo).const() is not None and (hi - lo).const() <= 0:
            return R0
    if op in ("ex", "all") and (hi - lo).const() == 1:
        return subst(body, {nv: lo})
    r = cls(op, name, lo, hi, body2)
    return r


def _quick_nonneg(p):
    s = _quick_sign(p)
    return s is not None and s >= 0


def rsum(n, fn, lo=0):
    return mkbind("sum", lo, n, fn)


def bany(n, fn, lo=0):
    return mkbind("ex", lo, n, fn)


def ball(n, fn, lo=0):
    return bnot(mkbind("ex", lo, n, lambda v: bnot(fn(v))))


def rebuild(n, args):
    """smart constructors"""
    op = n.op
    if isinstance(n, IA):
        if op == "uf":
            return iuf(args[0], *args[1])
        if op == "div":
            return idiv(*args)
        if op == "mod":
            return imod(*args)
        if op == "ite":
            return iite(*args)
        return I({(IA(op, *args),): 1})
    if isinstance(n, B):
        if op == "le0":
            return le0(args[0])
        if op == "eq0":
            return eq0(args[0])
        if op == "rlt":
            return rlt(*args)
        if op == "req":
            return req(*args)
        if op == "and":
            return band(*args)
        if op == "not":
            return bnot(args[0])
        return B(op, *args)
    if op == "add":
        return radd(*args)
    if op == "mul":
        return rmul(*args)
    if op == "pow":
        return rpow(*args)
    if op == "ite":
        return rite(*args)
    if op == "int":
        return rl(args[0])
    if op in ("exp", "cos", "sin", "sqrt", "abs"):
        return rfun(op, args[0])
    return R(op, *args)


def subst(t, m, memo=None):
    """m: symbol name (int symbols, or 'R:name' for real symbols) -> I / R"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(k for k in m)
    return _sub(t, m, keys, memo)


def _sub(t, m, keys, memo):
    if isinstance(t, I):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = ZERO
            for mono, c in t.t:
                p = I.of(c)
                for x in mono:
                    p = p * _suba(x, m, keys, memo)
                r = r + p
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(_sub(x, m, keys, memo) for x in t)
    if isinstance(t, (B, R)):
        if isinstance(t, R) and t.op == "s":
            return m.get("R:" + t.a[0], t)
        if not (t.fv & keys) and not any(k.startswith("R:") for k in keys):
            return t
        r = memo.get(t)
        if r is None:
            r = _subn(t, m, keys, memo)
            memo[t] = r
        return r
    return t


def _suba(x, m, keys, memo):
    if x.op == "sym":
        return I.of(m.get(x.a[0], x))
    if not (x.fv & keys):
        return I.of(x)
    r = memo.get(x)
    if r is None:
        r = I.of(_subn(x, m, keys, memo))
        memo[x] = r
    return r


def _subn(t, m, keys, memo):
    if t.op in BINDERS:
        v, lo, hi, body = t.a
        lo2, hi2 = _sub(lo, m, keys, memo), _sub(hi, m, keys, memo)
        nv = fresh("b")
        m2 = {k: x for k, x in m.items() if k != v}
        m2[v] = nv
        b2 = subst(body, m2)
        r = close(t.op, nv, lo2, hi2, b2)
        return r
    return rebuild(t, tuple(_sub(x, m, keys, memo) for x in t.a))


def show(n, depth=0):
    if isinstance(n, I):
        return repr(n)
    if isinstance(n, tuple):
        return "(" + ",".join(map(show, n)) + ")"
    if not isinstance(n, Node):
        return str(n)
    op, a = n.op, n.a
    if isinstance(n, IA):
        if op == "sym":
            return a[0]
        if op == "uf":
            return "%s(%s)" % (a[0], ",".join(map(repr, a[1])))
        return "%s(%s)" % (op, ",".join(map(repr, a)))
    if isinstance(n, B):
        if op in ("true", "false"):
            return op
        if op == "le0":
            return "%r<=0" % a[0]
        if op == "eq0":
            return "%r==0" % a[0]
        if op == "rlt":
            return "(%r<%r)" % a
        return "%s(%s)" % (op, ",".join(map(show, a)))
    if op == "c":
        return str(a[0])
    if op == "s":
        return a[0]
    if op == "uf":
        s = ",".join(list(map(repr, a[1])) + list(map(repr, a[2])))
        return "%s[%s]" % (a[0], s)
    if op == "add":
        return "(" + " + ".join(map(repr, a)) + ")"
    if op == "mul":
        return "*".join(map(repr, a))
    if op == "pow":
        return "%r^(%r)" % a
    if op == "int":
        return "<%r>" % a[0]
    return "%s(%s)" % (op, ",".join(map(show, a)))
