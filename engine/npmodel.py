"""Models of the numpy / scipy functions the package uses. LAPACK-type calls and special functions are uninterpreted with
assumed contracts, recorded in ST.facts and listed in the evidence."""
from sym import *
import sym
import solver as S
from fractions import Fraction


class Module:
    def __init__(self, name, d):
        self.name, self.d = name, d

    def attr(self, n):
        if n not in self.d:
            raise Unsupported("%s.%s is not modelled" % (self.name, n))
        return self.d[n]


class Obj:
    """model object with methods"""

    def __init__(self, **d):
        self.d = d

    def attr(self, n):
        if n not in self.d:
            raise Unsupported("attribute " + n)
        return self.d[n]


USED = set()     # assumed contracts used in this run


def axisnorm(ax, nd):
    ax = ax if isinstance(ax, int) else I.of(ax).const()
    return ax + nd if ax < 0 else ax


def shp(x):
    if isinstance(x, Arr):
        return tuple(norm_dim(s) for s in x.shape)
    if is_scalar(x):
        return ()
    if isinstance(x, (list, tuple, IndexList, SymSeq)):
        return shp(arr_of(x))
    raise Unsupported("shape")


def norm_dim(s):
    c = s.const()
    return c if c is not None else s


def to_shape(s):
    if isinstance(s, (int, I)):
        s = (s,)
    return tuple(I.of(x) for x in s)


def dkind(dtype):
    if dtype is None:
        return "r"
    if dtype is int or dtype == "int" or getattr(dtype, "nm", None) == "int":
        return "i"
    if dtype is bool or dtype == "bool":
        return "b"
    return "r"


def zeros(shape, dtype=None, order="C"):
    k = dkind(dtype)
    v = conv(0, k) if k != "b" else FALSE
    a = new(to_shape(shape), lambda *i: v, k)
    a.buf.order = order
    if order != "C":
        a.contig = False
    return a


_ne = [0]


def empty(shape, dtype=None, order="C"):
    if ST.loopvars:
        nm = callkey("uninit", None)
    else:
        _ne[0] += 1
        nm = "uninit:%d" % _ne[0]
    lv = loopargs()
    k = dkind(dtype)
    if k == "r":
        a = new(to_shape(shape), lambda *i: ruf(nm, lv + i), k)
    else:
        a = new(to_shape(shape), lambda *i: iuf(nm, *(lv + i)), k)
    a.buf.order = order
    if order != "C":
        a.contig = False
    return a


def ones(shape, dtype=None):
    k = dkind(dtype)
    v = conv(1, k) if k != "b" else TRUE
    return new(to_shape(shape), lambda *i: v, k)


def full(shape, v, dtype=None):
    if is_scalar(v):
        k = "r"
        return new(to_shape(shape), lambda *i: rl(v), k)
    sh = to_shape(shape)
    g = bfn_of(v, sh)
    return new(sh, lambda *i: rl(g(*i)), "r")


def arange(*a, dtype=None):
    if len(a) == 1:
        st, en, step = 0, a[0], 1
    elif len(a) == 2:
        st, en, step = a[0], a[1], 1
    else:
        st, en, step = a
    if any(isinstance(x, (float, R)) for x in (st, en, step)):
        raise Unsupported("real arange")
    st, en, step = I.of(st), I.of(en), I.of(step)
    if step.const() not in (1, -1):
        raise Unsupported("arange step")
    n = (en - st) * step.const()
    if decide(le(0, n)) is not True:
        if decide(le(n, 0)) is True:
            n = ZERO
        else:
            raise Unsupported("arange length %r" % n)
    nn = decide(le(0, st)) is True if step.const() == 1 else decide(le(-1, en)) is True
    r = new((n,), lambda i: st + step * i, "i", nonneg=nn)
    return r


def atleast_1d(*xs):
    rs = []
    for x in xs:
        a = arr_of(x)
        if a.ndim == 0:
            v = a.at()
            a = new((1,), lambda i, v=v: v, a.kind)
        rs.append(a)
    return rs[0] if len(rs) == 1 else tuple(rs)


def atleast_2d(x):
    a = arr_of(x)
    if a.ndim == 0:
        v = a.at()
        return new((1, 1), lambda i, j: v, a.kind)
    if a.ndim == 1:
        return getitem(a, (None, slice(None)))
    return a


def concatenate(xs, axis=0):
    if isinstance(xs, SymSeq):
        e0 = xs.get(fresh("q"))
        ax = axisnorm(axis, e0.ndim)
        if e0.shape[ax] is not ONE:
            raise Unsupported("concatenate of a symbolic sequence")
        sh = e0.shape[:ax] + (xs.length,) + e0.shape[ax + 1:]
        return new(sh, lambda *i: xs.get(i[ax]).at(*i[:ax], ZERO, *i[ax + 1:]), e0.kind)
    xs = [arr_of(x) for x in xs]
    nd = xs[0].ndim
    if axis is None:
        raise Unsupported("concatenate axis None")
    ax = axisnorm(axis, nd)
    for x in xs:
        if x.ndim != nd:
            raise PyRaise("ValueError", "concatenate dimensions")
        for k in range(nd):
            if k != ax and not dimeq(x.shape[k], xs[0].shape[k]):
                raise Unsupported("concatenate shapes")
    kind = promote(*xs)
    fs = [x.fn() for x in xs]
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + x.shape[ax])

    def f(*i):
        v = None
        for k in range(len(xs) - 1, -1, -1):
            e = conv(fs[k](*i[:ax], i[ax] - offs[k], *i[ax + 1:]), kind)
            v = e if v is None else ite(lt(i[ax], offs[k + 1]), e, v)
        return v
    sh = xs[0].shape[:ax] + (offs[-1],) + xs[0].shape[ax + 1:]
    return new(sh, f, kind, nonneg=all(x.nonneg for x in xs))


def stack(xs, axis=0):
    a = arr_of(list(xs) if isinstance(xs, (list, tuple)) else xs)
    ax = axisnorm(axis, a.ndim)
    perm = list(range(1, a.ndim))
    perm.insert(ax, 0)
    return transpose(a, *perm)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def append(a, v):
    return concatenate([atleast_1d(a), atleast_1d(v)], 0)


def un(name):
    return lambda x: elementwise(lambda e: rfun(name, rl(e)), "r", x)


def absv(x):
    if kind_of(x) == "i":
        return elementwise(lambda e: iite(le(0, e), e, -I.of(e)), "i", x)
    return un("abs")(x)


def reduce_axis(a, axis, op):
    a = arr_of(a)
    f = a.fn()
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [axisnorm(x, a.ndim) for x in axis]
    else:
        axes = [axisnorm(axis, a.ndim)]
    keep = [k for k in range(a.ndim) if k not in axes]

    def el(*o):
        idx = [None] * a.ndim
        for k, v in zip(keep, o):
            idx[k] = v

        def go(j):
            if j == len(axes):
                return f(*idx)

            def body(v):
                idx[axes[j]] = v
                return go(j + 1)
            return op(a.shape[axes[j]], body)
        return go(0)
    k = {"sum": "r", "max": "r"}.get(op.__name__, None)
    return a, keep, el


def np_sum(a, axis=None, keepdims=False):
    a = arr_of(a)
    if a.kind == "b":
        return bool_count(a, axis)

    def op(n, body):
        return rsum(n, lambda v: rl(body(v)))
    a, keep, el = reduce_axis(a, axis, op)
    if keepdims:
        raise Unsupported("keepdims")
    if not keep:
        return rl(el())
    return new([a.shape[k] for k in keep], lambda *o: rl(el(*o)))


def bool_count(a, axis):
    """number of true elements: only its sign is used (comparison with 0)"""
    if a.ndim != 1 or axis is not None:
        raise Unsupported("count")
    L = sym.mask_list(a)
    return L.length


def np_any(a, axis=None):
    if isinstance(a, bool):
        return a
    if is_scalar(a):
        return a
    a = arr_of(a)
    if axis is not None:
        raise Unsupported("any axis")

    def op(n, body):
        return bany(n, lambda v: truthy(body(v)))
    a, keep, el = reduce_axis(a, None, op)
    return el()


def np_all(a, axis=None):
    if isinstance(a, bool):
        return a
    if is_scalar(a):
        return a
    a = arr_of(a)
    if axis is not None:
        raise Unsupported("all axis")

    def op(n, body):
        return ball(n, lambda v: truthy(body(v)))
    a, keep, el = reduce_axis(a, None, op)
    return el()


def truthy(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, I)):
        return bnot(eq(x, 0))
    return bnot(req(rl(x), 0))


def np_max(a, axis=None, _op="max"):
    if is_scalar(a):
        return a
    if isinstance(a, (tuple, list)) and all(is_scalar(x) or (isinstance(x, Arr) and x.shape == ()) for x in a):
        xs = [rl(x) if is_scalar(x) else rl(x.at()) for x in a]
        if all(x.op == "c" for x in xs):
            return rc((max if _op == "max" else min)(x.a[0] for x in xs))
        ys = []
        for x in xs:
            if x not in ys:
                ys.append(x)
        return ys[0] if len(ys) == 1 else R("r" + _op, *sorted(ys, key=lambda n: n.id))
    a = arr_of(a)

    if a.kind == "i":
        if a.ndim != 1 or axis is not None:
            raise Unsupported("integer max")
        if a.shape[0] is ONE:
            return a.at(ZERO)
        return IntExt(_op, a.shape[0], a.fn())

    def op(n, body):
        return mkbind(_op, 0, n, lambda v: rl(body(v)))
    a, keep, el = reduce_axis(a, axis, op)
    if not keep:
        return rl(el())
    return new([a.shape[k] for k in keep], lambda *o: rl(el(*o)))


class IntExt:
    """largest or smallest element of a non-empty integer array; only comparisons with a scalar are used"""

    def __init__(self, op, n, f):
        self.op, self.n, self.f = op, n, f

    def cmp(self, op, x):
        """self <op> x"""
        if not isinstance(x, (int, I)) or isinstance(x, bool):
            raise Unsupported("comparison of an integer extremum")
        some = lambda c: bany(self.n, lambda t: c(self.f(t)))
        lt_, le_ = lambda e: lt(e, x), lambda e: le(e, x)
        if op in ("Eq", "NotEq"):
            c = band(self.cmp("LtE", x), self.cmp("GtE", x))
            return c if op == "Eq" else bnot(c)
        if self.op == "min":
            return {"Lt": lambda: some(lt_), "LtE": lambda: some(le_), "Gt": lambda: bnot(some(le_)), "GtE": lambda: bnot(some(lt_))}[op]()
        return {"Gt": lambda: some(lambda e: lt(x, e)), "GtE": lambda: some(lambda e: le(x, e)),
                "Lt": lambda: bnot(some(lambda e: le(x, e))), "LtE": lambda: bnot(some(lambda e: lt(x, e)))}[op]()


def np_diff(a):
    a = arr_of(a)
    f = a.fn()
    if a.ndim != 1:
        raise Unsupported("diff")
    return new((a.shape[0] - 1,), lambda i: conv(f(i + 1), a.kind) - conv(f(i), a.kind), a.kind)


def cumsum(a, axis=None):
    a = arr_of(a)
    f = a.fn()
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("cumsum")
        axis = 0
    ax = axisnorm(axis, a.ndim)
    return new(a.shape, lambda *i: rsum(i[ax] + 1, lambda k: rl(f(*i[:ax], k, *i[ax + 1:]))))


def cumprod(a, axis=None):
    a = arr_of(a)
    f = a.fn()
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("cumprod")
        axis = 0
    ax = axisnorm(axis, a.ndim)

    def el(*i):
        v = fresh("p")
        e = f(*i[:ax], v, *i[ax + 1:])
        if symname(v) not in (I.of(e).fv if isinstance(e, int) else e.fv):
            return rpow(rl(e), i[ax] + 1)
        if isinstance(e, I) and (e - v).const() == 1:
            return ruf("fact", (i[ax] + 1,))
        raise Unsupported("cumprod")
    return new(a.shape, el)


def where(c, a, b):
    k = promote(a, b)
    return elementwise(lambda cc, x, y: ite(conv(cc, "b") if not isinstance(cc, B) else cc, conv(x, k), conv(y, k)), k, c, a, b)


def broadcast_to(a, shape):
    a = arr_of(a)
    sh = to_shape(shape)
    off = len(sh) - a.ndim
    for x, y in zip(a.shape, sh[off:]):
        if x is not ONE and not dimeq(x, y):
            if decide(eq(x, y)) is False and decide(eq(x, 1)) is False:
                raise PyRaise("ValueError", "broadcast_to")
            raise Unsupported("broadcast_to %r -> %r" % (a.shape, sh))
    g = bfn(a, sh)
    r = new(sh, g, a.kind, a.nonneg)
    r.buf.origin = "frozen"
    r.buf.sources = (a.buf,)
    return r


def like(v):
    def f(a, dtype=None):
        a = arr_of(a)
        val = conv(v, a.kind)
        return new(a.shape, lambda *i: val, a.kind)
    return f


def empty_like(a):
    a = arr_of(a)
    return empty(a.shape)


def squeeze(a, axis=None):
    if is_scalar(a):
        return a
    a = arr_of(a)
    keep = []
    for k, s in enumerate(a.shape):
        if axis is not None:
            if k == axisnorm(axis, a.ndim):
                if not dimeq(s, ONE):
                    raise PyRaise("ValueError", "cannot squeeze")
                continue
            keep.append(k)
            continue
        if s is ONE:
            continue
        d = decide(eq(s, 1))
        if d is True:
            continue
        if d is None:
            raise Unsupported("squeeze of a dimension %r that may be 1" % s)
        keep.append(k)
    key = tuple(slice(None) if k in keep else 0 for k in range(a.ndim))
    v, _ = view(a, key)
    v.contig = a.contig
    return v   # may be 0-d: [()] turns it into a scalar


def reshape(a, *shape, order="C"):
    a = arr_of(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if order != "C":
        raise Unsupported("reshape order")
    sh = [I.of(s) for s in shape]
    # resolve -1
    tot = ONE
    for s in a.shape:
        tot = tot * s
    neg = [k for k, s in enumerate(sh) if s.const() == -1]
    if neg:
        pr = ONE
        for k, s in enumerate(sh):
            if k not in neg:
                pr = pr * s
        q, r = poly_divmod(tot, pr)
        if r.t:
            raise Unsupported("reshape -1")
        sh[neg[0]] = q
    pr = ONE
    for s in sh:
        pr = pr * s
    if not dimeq(pr, tot):
        if decide(eq(pr, tot)) is False:
            raise PyRaise("ValueError", "cannot reshape")
        raise Unsupported("reshape sizes %r %r" % (pr, tot))
    if len(sh) == a.ndim and all(dimeq(x, y) for x, y in zip(sh, a.shape)):
        return a
    # drop / add unit axes only
    s1, s2 = [s for s in a.shape if s is not ONE], [s for s in sh if s is not ONE]
    if len(s1) == len(s2) and all(dimeq(x, y) for x, y in zip(s1, s2)):
        key = tuple(0 if s is ONE else slice(None) for s in a.shape)
        v, _ = view(a, key)
        out = []
        for s in sh:
            out.append(None if s is ONE else slice(None))
        v, _ = view(v, tuple(out))
        v.contig = a.contig
        return v
    # merge two neighbouring axes
    if len(sh) == a.ndim - 1:
        for k in range(a.ndim - 1):
            m = list(a.shape[:k]) + [a.shape[k] * a.shape[k + 1]] + list(a.shape[k + 2:])
            if all(dimeq(x, y) for x, y in zip(m, sh)):
                fl = flat_arr(a, k, a.shape[k], a.shape[k + 1])
                if not a.contig:
                    fl = copy(fl)
                return fl
    # split one axis in two (C order): x -> x*n + y
    if len(sh) == a.ndim + 1 or len(sh) > a.ndim:
        v = split_axes(a, sh)
        if v is not None:
            return v
    raise Unsupported("reshape %r -> %r" % (a.shape, sh))


def split_axes(a, sh):
    """each source axis becomes a product of consecutive target axes"""
    groups = []
    k = 0
    for s in a.shape:
        g = []
        pr = ONE
        while k < len(sh):
            g.append(k)
            pr = pr * sh[k]
            k += 1
            if dimeq(pr, s):
                break
        else:
            if not dimeq(pr, s):
                return None
        groups.append(g)
    while k < len(sh):
        if sh[k] is not ONE:
            return None
        groups[-1].append(k)
        k += 1

    def to(*i):
        out = []
        for g in groups:
            x = ZERO
            for j in g:
                x = x * sh[j] + i[j]
            out.append(x)
        return a.to(*out)

    def inv(*b):
        c, s = a.inv(*b)
        idx = [None] * len(sh)
        for g, x in zip(groups, s):
            for j in reversed(g[1:]):
                idx[j] = x % sh[j] if sh[j] is not ONE else ZERO
                x = x // sh[j]
            idx[g[0]] = x
        return c, tuple(idx)
    v = Arr(a.buf, sh, to, inv, a.contig, a.nonneg)
    return v if a.contig else copy(v)


def copy_(x):
    return copy(x)


def copy(a):
    if is_scalar(a):
        return a
    a = arr_of(a)
    f = a.fn()
    return new(a.shape, f, a.kind, a.nonneg)


def ravel(a, order="C"):
    a = arr_of(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return atleast_1d(a)
    if order == "F":
        return ravel(copy(transpose(a)))
    big = [k for k, s in enumerate(a.shape) if s is not ONE]
    if len(big) == 1:
        v, _ = view(a, tuple(slice(None) if k in big else 0 for k in range(a.ndim)))
        v.contig = a.contig
        return v
    if not big:
        v, _ = view(a, tuple(0 for k in range(a.ndim - 1)) + (slice(None),))
        return v
    if a.ndim == 2:
        return ravel_view(a if a.contig else copy(a))
    raise Unsupported("ravel")


def transpose(a, *perm):
    a = arr_of(a)
    if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
        perm = tuple(perm[0])
    if not perm:
        perm = tuple(range(a.ndim - 1, -1, -1))
    perm = [axisnorm(p, a.ndim) for p in perm]
    n = a.ndim

    def to(*i):
        s = [None] * n
        for k, p in enumerate(perm):
            s[p] = i[k]
        return a.to(*s)

    def inv(*b):
        c, s = a.inv(*b)
        return c, tuple(s[p] for p in perm)
    return Arr(a.buf, [a.shape[p] for p in perm], to, inv, a.contig and perm == list(range(n)), a.nonneg)


def swapaxes(a, x, y):
    a = arr_of(a)
    p = list(range(a.ndim))
    x, y = axisnorm(x, a.ndim), axisnorm(y, a.ndim)
    p[x], p[y] = p[y], p[x]
    return transpose(a, *p)


def flip(a, axis=None):
    a = arr_of(a)
    if axis is None:
        key = tuple(slice(None, None, -1) for _ in a.shape)
    else:
        ax = axisnorm(axis, a.ndim)
        key = tuple(slice(None, None, -1) if k == ax else slice(None) for k in range(a.ndim))
    return getitem(a, key)


def tile(a, reps):
    a = arr_of(a)
    if a.ndim == 1 and isinstance(reps, tuple) and len(reps) == 2 and I.of(reps[1]) == 1:
        f = a.fn()
        return new((reps[0],) + a.shape, lambda i, j: f(j), a.kind)
    raise Unsupported("tile")


def take(a, ix, axis=None):
    a = arr_of(a)
    ax = axisnorm(axis, a.ndim)
    return getitem(a, tuple(slice(None) for _ in range(ax)) + (arr_of(ix),))


def unique(l, return_inverse=False):
    USED.add("numpy.unique: sorted distinct values u and inverse with u[inverse] == input")
    l = arr_of(l)
    f = l.fn()
    key = (f(isym("uqvar")), l.shape[0])
    L = UNIQ.get(key)
    if L is None:
        L = IndexList(0, isym("uqhi!%d" % len(UNIQ)), lambda x: B("uf", "inuniq", (I.of(x),)))
        UNIQ[key] = L
        T.LOWER["len:" + L.name] = 1
    L.source = f
    u = new((L.length,), lambda k: L.elem(k), "i", l.nonneg)
    if not return_inverse:
        return u
    return (u, new(l.shape, lambda t: L.rank(f(t)), "i", True))


UNIQ = {}


def argmax(a, axis=None):
    a = arr_of(a)
    if a.kind != "b":
        raise Unsupported("argmax of numbers")
    f = a.fn()
    ax = axisnorm(axis, a.ndim) if axis is not None else 0
    n = a.shape[ax]

    def el(*o):
        v = fresh("b")
        body = f(*o[:ax], v, *o[ax:])
        return I.of(close("argfirst", v, ZERO, n, body))
    sh = a.shape[:ax] + a.shape[ax + 1:]
    r = new(sh, el, "i", True)
    return r if sh else r.at()


def divide(a, b, out=None, where=None):
    if where is None:
        return binop("Div", a, b)
    o = out
    return elementwise(lambda x, y, w, z: rite(w, rl(x) / rl(y), rl(z)), "r", a, b, where, o)


def array(x, dtype=None, copy=True, ndmin=0):
    a = arr_of(x)
    if dtype is not None and dkind(dtype) == "r" and a.kind != "r":
        f = a.fn()
        a = new(a.shape, lambda *i: rl(f(*i)), "r")
    elif isinstance(x, Arr):
        if copy is not True:
            raise Unsupported("np.array without a copy")
        a = copy_(x)
    if not isinstance(ndmin, int) or ndmin > 2:
        raise Unsupported("ndmin")
    if ndmin > a.ndim:
        a = getitem(a, (None,) * (ndmin - a.ndim))
    return a


def astype(a, dtype):
    k = dkind(dtype)
    f = a.fn()
    if k == "i" and a.kind == "r":
        raise Unsupported("astype int")
    return new(a.shape, lambda *i: conv(f(*i), k), k, a.nonneg)


def linspace(a, b, n):
    n = I.of(n)
    return new((n,), lambda i: rl(a) + (rl(b) - rl(a)) * rl(i) / rl(n - 1))


def isscalar(x):
    if hasattr(x, "isscalar"):
        return x.isscalar
    if isinstance(x, (Arr, list, tuple)):
        return False
    if is_scalar(x):
        return True
    return False


def size(x):
    s = ONE
    for d in shp(x):
        s = s * d
    return norm_dim(I.of(s))


def ndim(x):
    return len(shp(x))


def ufunc2(f, kind="r"):
    return lambda a, b: elementwise(lambda x, y: f(rl(x), rl(y)), kind, a, b)


# ------------------------------------------------------------ assumed contracts
_calls = {}


def loopargs():
    """results of library calls inside a symbolic loop are functions of the loop variables"""
    return tuple(v for v, _, _ in ST.loopvars)


def callkey(kind, key):
    if ST.loopvars:
        # inside a summarised loop a call is identified by its place in the source: the runs of the body must agree on its name
        n = ST.sites.get(ST.site, 0)
        ST.sites[ST.site] = n + 1
        key = (ST.site, n)
    k = (kind, key)
    if k not in _calls:
        _calls[k] = "%s%d" % (kind, len(_calls) + 1)
    return _calls[k]


def probe(a):
    vs = [isym("pb%d" % k) for k in range(a.ndim)]
    try:
        e = S.canon(rl(a.fn()(*vs)), sym.ST.ctx)
    except (S.NeedSplit, S.Unknown):
        e = a.fn()(*vs)
    return (a.shape, e)


def eig(m):
    USED.add("numpy.linalg.eig: A v = v diag(w), eigenvalues positive and real (numerical eigensolver trusted)")
    m = arr_of(m)
    nm = callkey("eig", probe(m))
    f = m.fn()
    lv = loopargs()
    w = new(m.shape[:-1], lambda *i: ruf(nm + ".w", lv + i))
    v = new(m.shape, lambda *i: ruf(nm + ".v", lv + i))
    S.POS.add(nm + ".w")
    n = m.shape[-1]
    ST.facts.append(dict(kind="eig", name=nm, n=n, lead=m.shape[:-2], m=f, loops=ST.loopvars))
    return (w, v)


def inv(m):
    USED.add("numpy.linalg.inv: A inv(A) = inv(A) A = I (matrix assumed non-singular)")
    m = arr_of(m)
    nm = callkey("inv", probe(m))
    ST.facts.append(dict(kind="inv", name=nm, n=m.shape[-1], lead=m.shape[:-2], m=m.fn(), loops=ST.loopvars))
    lv = loopargs()
    return new(m.shape, lambda *i: ruf(nm, lv + i))


def solve(a, b):
    USED.add("numpy.linalg.solve: A x = b (matrix assumed non-singular)")
    a, b = arr_of(a), arr_of(b)
    nm = callkey("solve", (probe(a), probe(b)))
    ST.facts.append(dict(kind="solve", name=nm, n=a.shape[-1], lead=a.shape[:-2], a=a.fn(), b=b.fn(), vec=b.ndim == 1, loops=ST.loopvars))
    lv = loopargs()
    return new(b.shape, lambda *i: ruf(nm, lv + i))


def solve_banded(lu, ab, b, *args, **kw):
    USED.add("scipy.linalg.solve_banded: sum_c ab[u+i-c, c] x[c] = b[i] over |i-c| within the bands (matrix assumed non-singular)")
    ab, b = arr_of(ab), arr_of(b)
    l, u = lu
    nm = callkey("solveb", (probe(ab), probe(b)))
    # contract precondition: ab has l+u+1 rows and len(b) columns
    if not (dimeq(ab.shape[0], I.of(l) + u + 1) and dimeq(ab.shape[1], b.shape[0])):
        raise PyRaise("ValueError", "solve_banded: invalid values for the number of lower and upper diagonals")
    g = ab.fn()
    l, u = I.of(l), I.of(u)
    fn = lambda i, c: rite(band(le(i - c, l), le(c - i, u)), g(u + i - c, c), R0)
    ST.facts.append(dict(kind="solve", name=nm, n=b.shape[0], lead=(), a=fn, b=b.fn(), vec=True, loops=ST.loopvars))
    lv = loopargs()
    return new(b.shape, lambda *i: ruf(nm, lv + i))


def lpmv(m, v, x):
    USED.add("scipy.special.lpmv: associated Legendre function P_v^m(x)")
    m = I.of(m)
    return elementwise(lambda vv, xx: ruf("lpmv", (m, vv), (rl(xx),)), "r", v, x)


def poch(a, b):
    USED.add("scipy.special.poch: Gamma(a+b)/Gamma(a)")
    return elementwise(lambda x, y: ruf("poch", (x, y)), "r", a, b)


class LegendreObj:
    def __init__(self, c):
        self.c = arr_of(c)

    def __call__(self, x):
        USED.add("numpy Legendre series: sum_k c_k P_k(x)")
        f, n = self.c.fn(), self.c.shape[0]
        return elementwise(lambda xx: rsum(n, lambda k: rl(f(k)) * ruf("LegP", (k,), (rl(xx),))), "r", x)


def _binom(ia, ra, ctx):
    import math
    j, i = ia[0].const(), ia[1].const()
    if j is not None and i is not None and 0 <= i <= j < 60:
        return rc(math.comb(j, i))
    return None


def _glx(ia, ra, ctx):
    # the one-point rule: node 0, weight 2
    return R0 if ia[0].const() == 1 and ia[1].const() == 0 else None


def _glw(ia, ra, ctx):
    return rc(2) if ia[0].const() == 1 and ia[1].const() == 0 else None


S.POS.add("binom")   # binom(j, i) > 0 for 0 <= i <= j, the only place it is used
S.UF_SIMP["binom"] = _binom
S.UF_SIMP["GLx"] = _glx
S.UF_SIMP["GLw"] = _glw


def leggauss(n):
    USED.add("numpy leggauss(n): Gauss-Legendre nodes and weights on [-1,1], exact to degree 2n-1")
    n = I.of(n)
    return (new((n,), lambda i: ruf("GLx", (n, i))), new((n,), lambda i: ruf("GLw", (n, i))))


def idct(x, type=2, **kw):
    if I.of(type).const() != 1 or kw:
        raise Unsupported("idct type")
    USED.add("scipy.fft.idct(type=1): inverse of DCT-I by its definition")
    x = arr_of(x)
    f, n = x.fn(), x.shape[0]
    M = n - 1
    return new((n,), lambda k: (rl(f(ZERO)) + rite(eq(k % 2, 0), R1, rc(-1)) * rl(f(M)) + 2 * rsum(M, lambda j: rl(f(j)) * rfun("cos", PI * rl(j) * rl(k) / rl(M)), lo=1)) / (2 * rl(M)))


def pascal(n, kind="symmetric", **kw):
    if kind != "upper":
        raise Unsupported("pascal kind")
    USED.add("scipy.linalg.pascal(kind='upper'): binomial coefficients C(j, i)")
    return new((n, n), lambda i, j: rite(le(i, j), ruf("binom", (j, i)), R0), "r")


def quad_vec(call):
    def q(f, a, b, **kw):
        USED.add("scipy.integrate.quad_vec: the integral")
        w = rsym("%w")
        r = call(f, [w], {})
        a, b = rl(a), rl(b)
        mk = lambda e: R("uf", "integral", (), (rl(e), a, b))
        if is_scalar(r):
            return (mk(r), R0)
        r = arr_of(r)
        g = r.fn()
        return (new(r.shape, lambda *i: mk(g(*i))), R0)
    return q


class Bary:
    _n = 0

    def __init__(self, x):
        USED.add("scipy BarycentricInterpolator: the Lagrange interpolant through the given nodes")
        self.x = arr_of(x)
        self.key = callkey("lagr", probe(self.x))
        self.y = None

    def attr(self, n):
        if n == "set_yi":
            return self.set_yi
        raise Unsupported("BarycentricInterpolator." + n)

    def set_yi(self, y):
        self.y = copy(y)

    def __call__(self, xn):
        xn = arr_of(xn)
        f, n = self.y.fn(), self.x.shape[0]
        g = xn.fn()
        if not dimeq(self.y.shape[0], n):
            raise PyRaise("ValueError", "set_yi length")
        return new(xn.shape + self.y.shape[1:], lambda k, *r: rsum(n, lambda j: ruf(self.key, (j,), (rl(g(k)),)) * rl(f(j, *r))))


class Sparse:
    def __init__(self, a):
        self.a = a

    def attr(self, n):
        if n == "setdiag":
            return self.setdiag
        if n in ("tocsr", "tocsc", "tolil", "copy"):
            return lambda: self
        if n == "toarray":
            return lambda: self.a
        if n == "shape":
            return shp(self.a)
        raise Unsupported("sparse." + n)

    def setdiag(self, v, k=0):
        v = arr_of(v)
        k = I.of(k).const()
        n = self.a.shape[0]
        f = v.fn()
        old = self.a.buf.fn
        if not dimeq(v.shape[0], n - abs(k)):
            raise Unsupported("setdiag length")
        self.a.buf.fn = sym.memo(lambda i, j: rite(eq(j - i, k), rl(f(i if k >= 0 else j)), old(i, j)))


def diags(v, k, format=None, **kw):
    v = arr_of(v)
    k = I.of(k).const()
    n = v.shape[0] + abs(k)
    s = Sparse(zeros((n, n)))
    s.setdiag(v, k)
    return s


def as_strided(base, shape=None, strides=None):
    b = base.buf
    n = len(b.shape)
    syms = ["stride:%d:%d" % (b.id, k) for k in range(n)]
    sh = to_shape(shape)
    if n != 2 or len(sh) != 2:
        raise Unsupported("as_strided dimension")
    co = []
    for s in strides:
        s = I.of(s)
        row = []
        d = dict(s.t)
        tot = ZERO
        for nm in syms:
            m = (IA("sym", nm),)
            c = d.get(m, 0)
            row.append(c)
            tot = tot + isym(nm) * c
        if tot is not s:
            raise Unsupported("as_strided strides %r" % s)
        co.append(row)
    (a00, a01), (a10, a11) = co
    det = a00 * a11 - a01 * a10
    if det not in (1, -1):
        raise Unsupported("as_strided not unimodular")
    o = base.to(ZERO, ZERO)

    def to(x, y):
        return (o[0] + a00 * x + a10 * y, o[1] + a01 * x + a11 * y)

    def inv(p, q):
        dp, dq = p - o[0], q - o[1]
        x = (dp * a11 - dq * a10) * det
        y = (dq * a00 - dp * a01) * det
        return band(inrange(p, 0, b.shape[0]), inrange(q, 0, b.shape[1]), inrange(x, 0, sh[0]), inrange(y, 0, sh[1])), (x, y)
    x, y = fresh("x"), fresh("y")
    c2 = ST.ctx.add(inrange(x, 0, sh[0]), inrange(y, 0, sh[1]))
    p, q = to(x, y)
    ST.obligations.append(("as_strided view stays inside its buffer", band(inrange(p, 0, b.shape[0]), inrange(q, 0, b.shape[1])), c2))
    return Arr(b, sh, to, inv, False, base.nonneg)


class DType:
    def __init__(self, nm):
        self.nm = nm

    def __call__(self, x=0):
        if is_scalar(x):
            return x
        if isinstance(x, Arr) and x.shape == ():
            return x.at()
        raise Unsupported(self.nm)


def eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    kk = dkind(dtype)
    if kk == "b":
        raise Unsupported("boolean identity")
    return new(to_shape((n, m)), lambda i, j: rite(eq(j - i, k), R1, R0), "r") if kk == "r" else new(to_shape((n, m)), lambda i, j: iite(eq(j - i, k), ONE, ZERO), kk, True)


def diag(v, k=0):
    v = arr_of(v)
    k = I.of(k).const()
    f = v.fn()
    if k is None:
        raise Unsupported("diag offset")
    if v.ndim == 2:
        if k != 0 or not dimeq(v.shape[0], v.shape[1]):
            raise Unsupported("diagonal of a matrix that is not square")
        return new((v.shape[0],), lambda i: f(i, i), v.kind, v.nonneg)
    if v.ndim != 1:
        raise PyRaise("ValueError", "Input must be 1- or 2-d.")
    n = v.shape[0] + abs(k)
    return new((n, n), lambda i, j: rite(eq(j - i, k), rl(f(i if k >= 0 else j)), R0), "r")


def fill_diagonal(a, v, wrap=False):
    if not isinstance(a, Arr) or a.ndim != 2 or not dimeq(a.shape[0], a.shape[1]) or wrap:
        raise Unsupported("fill_diagonal")
    ix = arange(a.shape[0])
    setitem(a, (ix, ix), v)


def full_like(a, v, dtype=None):
    return full(shp(a), v, dtype)


def minmax2(name):
    """elementwise np.maximum / np.minimum"""
    def f(x, y):
        if all(isinstance(t, (int, I)) and not isinstance(t, bool) for t in (x, y)):
            x, y = I.of(x), I.of(y)
            return iite(le(y, x) if name == "max" else le(x, y), x, y)
        x, y = rl(x), rl(y)
        c = T.rlt(x, y)
        return rite(c, y, x) if name == "max" else rite(c, x, y)
    return lambda a, b: elementwise(f, "i" if kind_of(a) == "i" and kind_of(b) == "i" else "r", a, b)


def clip(a, lo=None, hi=None):
    if lo is not None:
        a = minmax2("max")(a, lo)
    if hi is not None:
        a = minmax2("min")(a, hi)
    return a


def inner(a, b):
    a, b = arr_of(a), arr_of(b)
    if a.ndim > 1 or b.ndim > 1:
        raise Unsupported("inner")
    return matmul(a, b) if a.ndim and b.ndim else binop("Mult", a, b)


def trace(a):
    return np_sum(diag(a))


def column_stack(xs):
    return concatenate([arr_of(x) if arr_of(x).ndim == 2 else getitem(arr_of(x), (slice(None), None)) for x in xs], 1)


def moveaxis(a, src, dst):
    a = arr_of(a)
    if not is_scalar(src) or not is_scalar(dst):
        raise Unsupported("moveaxis")
    s_, d_ = axisnorm(src, a.ndim), axisnorm(dst, a.ndim)
    perm = [k for k in range(a.ndim) if k != s_]
    perm.insert(d_, s_)
    return transpose(a, *perm)


def count_nonzero(a, axis=None):
    a = arr_of(a)
    if a.kind != "b":
        a = elementwise(lambda x: bnot(T.req(rl(x), R0)), "b", a)
    return np_sum(a, axis)


def array_equal(a, b):
    a, b = arr_of(a), arr_of(b)
    if a.ndim != b.ndim or not all(dimeq(x, y) for x, y in zip(a.shape, b.shape)):
        raise Unsupported("array_equal of different shapes")
    return np_all(compare("Eq", a, b))


def make(call):
    leg = Module("np.polynomial.legendre", dict(leggauss=leggauss, Legendre=LegendreObj))
    linalg = Module("np.linalg", dict(eig=eig, inv=inv, solve=solve))
    np = Module("np", dict(
        atleast_1d=atleast_1d, atleast_2d=atleast_2d, empty=empty, zeros=zeros, ones=ones, full=full, arange=arange,
        concatenate=concatenate, stack=stack, hstack=hstack, vstack=vstack, append=append, exp=un("exp"), cos=un("cos"), sin=un("sin"),
        sqrt=un("sqrt"), abs=absv, absolute=absv, fabs=absv, sum=np_sum, any=np_any, all=np_all, max=np_max, amax=np_max,
        min=lambda a, axis=None: np_max(a, axis, "min"), amin=lambda a, axis=None: np_max(a, axis, "min"),
        diff=np_diff, cumsum=cumsum, cumprod=cumprod, where=where, einsum=lambda s, *x, optimize=None: einsum(s, *x),
        broadcast_to=broadcast_to, ones_like=like(1), zeros_like=like(0), empty_like=empty_like, squeeze=squeeze, shape=shp, size=size, ndim=ndim,
        isscalar=isscalar, array=array, asarray=lambda x, dtype=None: arr_of(x), asanyarray=arr_of, newaxis=None, flip=flip, tile=tile,
        take=take, unique=unique, argmax=argmax, divide=divide, true_divide=divide, expm1=lambda x: elementwise(lambda e: rfun("exp", rl(e)) - 1, "r", x),
        float64=DType("float"), int64=DType("int"), linspace=linspace, reshape=reshape, ravel=ravel, transpose=transpose,
        swapaxes=swapaxes, pi=PI, linalg=linalg, matmul=matmul, dot=matmul, copy=copy,
        multiply=lambda a, b: binop("Mult", a, b), add=lambda a, b: binop("Add", a, b), subtract=lambda a, b: binop("Sub", a, b),
        negative=lambda a: binop("Mult", -1, a), square=lambda a: binop("Mult", a, a), reciprocal=lambda a: binop("Div", 1, a),
        power=lambda a, b: binop("Pow", a, b), outer=lambda a, b: binop("Mult", getitem(arr_of(a), (slice(None), None)), getitem(arr_of(b), (None, slice(None)))),
        expand_dims=lambda a, axis: expand(a, axis), logical_not=lambda a: elementwise(lambda x: bnot(x), "b", a),
        logical_and=lambda a, b: binop("BitAnd", a, b), logical_or=lambda a, b: binop("BitOr", a, b),
        eye=eye, identity=lambda n, dtype=None: eye(n, dtype=dtype), diag=diag, diagonal=diag, fill_diagonal=fill_diagonal, full_like=full_like,
        maximum=minmax2("max"), minimum=minmax2("min"), clip=clip, inner=inner, vdot=inner, trace=trace, column_stack=column_stack,
        moveaxis=moveaxis, count_nonzero=count_nonzero, array_equal=array_equal, remainder=lambda a, b: binop("Mod", a, b), mod=lambda a, b: binop("Mod", a, b),
        floor_divide=lambda a, b: binop("FloorDiv", a, b), equal=lambda a, b: compare("Eq", a, b), not_equal=lambda a, b: compare("NotEq", a, b),
        less=lambda a, b: compare("Lt", a, b), less_equal=lambda a, b: compare("LtE", a, b), greater=lambda a, b: compare("Gt", a, b),
        greater_equal=lambda a, b: compare("GtE", a, b),
        polynomial=Module("np.polynomial", dict(legendre=leg)), ndarray=DType("ndarray"),
        lib=Module("np.lib", dict(stride_tricks=Module("np.lib.stride_tricks", dict(as_strided=as_strided)))),
    ))
    sc = Module("sc", dict(
        special=Module("sc.special", dict(poch=poch, lpmv=lpmv)),
        linalg=Module("sc.linalg", dict(solve_banded=solve_banded, pascal=pascal, inv=inv, solve=solve)),
        fft=Module("sc.fft", dict(idct=idct)),
        integrate=Module("sc.integrate", dict(quad_vec=quad_vec(call))),
        interpolate=Module("sc.interpolate", dict(BarycentricInterpolator=Bary)),
        sparse=Module("sc.sparse", dict(diags=diags)),
        constants=Module("sc.constants", dict(h=rsym("planck_h"), c=rsym("light_c"), k=rsym("boltzmann_k"))),
    ))
    math = Module("math", dict(pi=PI))
    warnings = Module("warnings", dict(warn=lambda *a, **k: None))
    return {"numpy": np, "scipy": sc, "math": math, "warnings": warnings, "numpy.polynomial.legendre": leg, "autograd.numpy": np,
            "scipy.integrate": sc.d["integrate"], "numpy.lib.stride_tricks": np.d["lib"].d["stride_tricks"],
            "scipy.special": sc.d["special"], "scipy.linalg": sc.d["linalg"]}


def expand(a, axis):
    a = arr_of(a)
    ax = axisnorm(axis, a.ndim + 1)
    return getitem(a, tuple(slice(None) for _ in range(ax)) + (None,))


def arr_attr(a, n):
    """attributes and methods of an array"""
    if n == "T":
        return transpose(a)
    if n == "shape":
        return shp(a)
    if n == "ndim":
        return a.ndim
    if n == "size":
        return size(a)
    if n == "strides":
        return tuple(isym("stride:%d:%d" % (a.buf.id, k)) for k in range(a.ndim)) if a.ndim == len(a.buf.shape) else None
    m = {
        "transpose": lambda *p: transpose(a, *p), "reshape": lambda *s, order="C": reshape(a, *s, order=order),
        "ravel": lambda order="C": ravel(a, order), "flatten": lambda order="C": copy(ravel(a, order)), "copy": lambda: copy(a),
        "min": lambda axis=None: np_max(a, axis, "min"), "max": lambda axis=None: np_max(a, axis), "sum": lambda axis=None: np_sum(a, axis),
        "squeeze": lambda axis=None: squeeze(a, axis), "astype": lambda d: astype(a, d), "any": lambda: np_any(a), "all": lambda: np_all(a),
        "dot": lambda b: matmul(a, b), "swapaxes": lambda x, y: swapaxes(a, x, y), "cumsum": lambda axis=None: cumsum(a, axis),
        "argmax": lambda axis=None: argmax(a, axis), "item": lambda: a.at(*[ZERO] * a.ndim), "fill": lambda v: setitem(a, Ellipsis, v),
        "take": lambda ix, axis=None: take(a, ix, axis), "diagonal": lambda: diag(a), "clip": lambda lo=None, hi=None: clip(a, lo, hi), "trace": lambda: trace(a),
    }
    if n in m:
        return m[n]
    raise Unsupported("array attribute " + n)
