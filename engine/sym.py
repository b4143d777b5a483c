"""Symbolic numpy arrays: shapes are integer terms, elements are functions of integer terms; buffers, views and writes."""
from terms import *
import terms as T
import solver as S
from solver import Ctx, Unknown


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """the interpreted program raises unconditionally"""

    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg


class State:
    ctx = Ctx()
    heap = []       # every buffer
    written = []    # (buffer) written log
    obligations = []  # (name, cond, ctx) side obligations: bounds etc.
    facts = []      # assumed contracts of library calls
    loopvars = ()   # enclosing symbolic loops: (variable, lo, hi)
    site = ()       # call expressions being evaluated
    sites = {}      # library calls per site in the current iteration


ST = State()


def reset(ctx=None):
    ST.ctx = ctx or Ctx()
    ST.heap = []
    ST.obligations = []
    ST.facts = []
    ST.loopvars = ()
    ST.site = ()
    ST.sites = {}


def decide(c):
    return ST.ctx.decide(c)


def known(c):
    """must be decidable now"""
    d = decide(c)
    if d is None:
        c2 = S.simp_b(c, ST.ctx)
        d = decide(c2)
    if d is None:
        raise Unsupported("undecided condition %r" % c)
    return d


def dimeq(a, b):
    return a is b or decide(eq(a, b)) is True


class Buffer:
    _n = 0

    def __init__(self, shape, fn, kind, origin=None):
        self.shape = tuple(I.of(s) for s in shape)
        self.fn = memo(fn)
        self.kind = kind
        self.origin = origin
        self.sources = ()
        self.nwrites = 0
        self.order = "C"
        Buffer._n += 1
        self.id = Buffer._n
        ST.heap.append(self)


def memo(fn):
    cache = {}

    def g(*idx):
        r = cache.get(idx)
        if r is None:
            r = fn(*idx)
            cache[idx] = r
        return r
    g.raw = fn
    return g


def conv(x, kind):
    if kind == "r":
        return rl(x)
    if kind == "i":
        if isinstance(x, B):
            return iite(x, 1, 0)
        if isinstance(x, R):
            if x.op == "int":
                return x.a[0]
            if x.op == "c" and x.a[0].denominator == 1:
                return I.of(x.a[0].numerator)
            raise Unsupported("real in integer array")
        return I.of(x)
    if kind == "b":
        if isinstance(x, bool):
            return TRUE if x else FALSE
        return x
    return x


class Arr:
    """view on a buffer: `to` maps view index -> buffer index; `inv` maps buffer index -> (condition, view index)"""

    def __init__(self, buf, shape, to, inv, contig=False, nonneg=False):
        self.buf, self.to, self.inv, self.contig = buf, to, inv, contig
        self.shape = tuple(I.of(s) for s in shape)
        self.nonneg = nonneg

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def fn(self):
        """pure element function of the current content"""
        f, to = self.buf.fn, self.to
        return lambda *idx: f(*to(*idx))

    def at(self, *idx):
        return self.buf.fn(*self.to(*[I.of(x) for x in idx]))

    def __repr__(self):
        return "Arr%s:%s" % (self.shape, self.kind)


def new(shape, fn, kind="r", nonneg=False, origin=None):
    shape = tuple(I.of(s) for s in shape)
    b = Buffer(shape, fn, kind, origin)
    n = len(shape)
    return Arr(b, shape, lambda *i: i, lambda *i: (band(*[inrange(x, 0, s) for x, s in zip(i, shape)]), i), True, nonneg)


def input_arr(name, shape, kind="r", nonneg=False, origin="input"):
    if kind == "r":
        return new(shape, lambda *i: ruf(name, i), "r", origin=origin)
    if kind == "i":
        return new(shape, lambda *i: iuf(name, *i), "i", nonneg, origin=origin)
    return new(shape, lambda *i: B("uf", name, tuple(I.of(x) for x in i)), "b", origin=origin)


def is_scalar(x):
    return isinstance(x, (int, float, bool, I, R, B)) or type(x).__name__ == "Fraction"


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool, B)):
        return "b"
    if isinstance(x, (int, I)):
        return "i"
    return "r"


def arr_of(x):
    """np.asarray"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, IndexList):
        return new((x.length,), lambda k: x.elem(k), "i", True)
    if is_scalar(x):
        k = kind_of(x)
        v = conv(x, k)
        return new((), lambda: v, k)
    if isinstance(x, SymSeq):
        e0 = x.get(fresh("q"))
        if is_scalar(e0):
            k = kind_of(e0)
            return new((x.length,), lambda i: conv(x.get(i), k), k)
        if isinstance(e0, Arr):
            sh = e0.shape
            return new((x.length,) + sh, lambda i, *r: x.get(i).at(*r), e0.kind)
    if isinstance(x, (list, tuple)):
        parts = [arr_of(y) for y in x]
        if not parts:
            return new((0,), lambda i: R0, "r")
        sh = parts[0].shape
        for p in parts:
            if len(p.shape) != len(sh) or not all(dimeq(a, b) for a, b in zip(p.shape, sh)):
                raise Unsupported("ragged array")
        k = "r" if any(p.kind == "r" for p in parts) else ("i" if any(p.kind == "i" for p in parts) else "b")
        fs = [p.fn() for p in parts]
        n = len(parts)

        def f(i, *r):
            c = i.const()
            if c is not None and 0 <= c < n:
                return conv(fs[c](*r), k)
            v = conv(fs[-1](*r), k)
            for j in range(n - 2, -1, -1):
                v = ite(eq(i, j), conv(fs[j](*r), k), v)
            return v
        return new((n,) + sh, f, k, nonneg=all(p.nonneg or (p.kind == "i" and p.shape == () and p.at().const() is not None and p.at().const() >= 0) for p in parts))
    raise Unsupported("cannot make an array of %r" % (type(x),))


def ite(c, a, b):
    if isinstance(a, I) or isinstance(b, I):
        if isinstance(a, R) or isinstance(b, R):
            return rite(c, rl(a), rl(b))
        return iite(c, a, b)
    if isinstance(a, B):
        return bor(band(c, a), band(bnot(c), b))
    return rite(c, rl(a), rl(b))


class SymSeq:
    """python sequence of symbolic length"""

    def __init__(self, length, get):
        self.length, self.get = I.of(length), get


class IndexList:
    """list of integers collected under a condition: {value(x): 0 <= x < n, cond(x)} in increasing order of x, value(x) = x + off"""
    _n = 0
    reg = {}

    parent, shift = None, None

    @staticmethod
    def get(lo, hi, cond):
        """the list with these members: one name for equal lists"""
        key = (I.of(lo), I.of(hi), cond(isym("member!x")))
        L = IndexList.known.get(key)
        if L is None:
            L = IndexList.known[key] = IndexList(lo, hi, cond)
        return L

    known = {}

    def tail(self, P):
        """the list without its first members, which are the members of P"""
        key = (self.name, P.name)
        L = IndexList.known.get(key)
        if L is None:
            L = IndexList.known[key] = IndexList(P.hi, self.hi, self.cond, length=self.length - P.length)
            L.parent, L.shift, L.head = self, P.length, P
            self.tails.append(L)
        return L

    def __init__(self, lo, hi, cond, length=None, name=None):
        IndexList._n += 1
        self.lo, self.hi, self.cond = I.of(lo), I.of(hi), cond
        self.name = name or ("L%d" % IndexList._n)
        self.length = length if length is not None else isym("len:" + self.name)
        T.LOWER["len:" + self.name] = 0
        IndexList.reg[self.name] = self
        S.LENS[self.name] = (self.lo, self.hi, cond)
        self.asked, self.tails = [], []
        if length is None:
            S.ASKED["len:" + self.name] = (self, self.asked)
        lo_, hi_ = self.lo, self.hi
        S.UF_RANGE["elem:" + self.name] = lambda *a: (lo_, hi_)

    def elem(self, k):
        if self.parent is not None:
            return self.parent.elem(I.of(k) + self.shift)
        return iuf("elem:" + self.name, k)

    def rank(self, x):
        if self.parent is not None:
            return self.parent.rank(x) - self.shift
        return iuf("rank:" + self.name, x)

    def mem(self, x):
        x = I.of(x)
        c = band(inrange(x, self.lo, self.hi), self.cond(x))
        if x not in self.asked:
            self.asked.append(x)
        return c


# ---------------------------------------------------------------- indexing
def norm_index(i, n):
    i = I.of(i)
    c = i.const()
    if c is not None:
        return i + n if c < 0 else i
    d = decide(lt(i, 0))
    if d is True:
        return i + n
    if d is False:
        return i
    return iite(lt(i, 0), i + n, i)


def norm_slice(s, n):
    """(start, length, step) of a slice on an axis of length n"""
    start, stop, step = s
    step = 1 if step is None else step
    step = I.of(step)
    if step.const() == -1 and start is None and stop is None:
        return n - 1, n, step
    if decide(lt(0, step)) is not True:
        raise Unsupported("slice step %r" % step)

    def clip(x, dflt):
        if x is None:
            return dflt
        x = I.of(x)
        if known(lt(x, 0)):
            x = x + n
            if not known(le(0, x)):
                return ZERO
        if known(le(x, n)):
            return x
        return n
    a, b = clip(start, ZERO), clip(stop, n)
    ln = b - a
    d = decide(le(0, ln))
    if d is False:
        return a, ZERO, step
    if d is None:
        if decide(le(0, ln)) is None:
            raise Unsupported("slice length sign %r" % ln)
    if step.const() == 1:
        return a, ln, step
    # ceil(ln / step)
    q, r = poly_divmod(ln, step)
    if not r.t:
        cnt = q
    elif decide(band(lt(0, r), le(r, step))) is True:
        cnt = q + 1
    else:
        cnt = (ln + step - 1) // step
    return a, cnt, step


def row(a, k):
    """a[k] for an index known to be in range (iteration)"""
    f = a.fn()
    k = I.of(k)
    if a.ndim == 1:
        return f(k)
    r = new(a.shape[1:], lambda *i: f(k, *i), a.kind, a.nonneg)
    r.buf.origin = "frozen"
    r.buf.sources = (a.buf,)
    return r


def getitem(a, key):
    if isinstance(a, IndexList):
        return indexlist_get(a, key)
    if isinstance(a, SymSeq):
        if isinstance(key, (int, I)):
            return a.get(norm_index(key, a.length))
        raise Unsupported("slice of symbolic sequence")
    v, adv = view(a, key)
    if adv is None:
        if v.shape == () and not any(isinstance(k, slice) or k is None for k in (key if isinstance(key, tuple) else (key,))) and not (isinstance(key, tuple) and len(key) == 0):
            return v.at()
        if isinstance(key, tuple) and len(key) == 0 and v.shape == ():
            return v.at()
        return v
    # advanced: gather
    return gather(v, adv)


def is_adv(k):
    return isinstance(k, (Arr, IndexList, list)) and not (isinstance(k, Arr) and k.shape == () )


def view(a, key):
    """apply basic indexing; advanced indices are returned as [(axis of the view, index array)] for gather/scatter"""
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        j = [x is Ellipsis for x in key].index(True)
        key = key[:j] + (slice(None),) * (a.ndim - nreal) + key[j + 1:]
    nreal = sum(1 if not (isinstance(k, Arr) and k.kind == "b") else k.ndim for k in key if k is not None)
    if nreal > a.ndim:
        raise PyRaise("IndexError", "too many indices")
    key = key + (slice(None),) * (a.ndim - nreal)
    spec = []   # per source axis: ('int', i) | ('sl', start, len, step) ; plus new axes
    outshape, plan = [], []  # plan per out axis: ('new',) | ('ax', source axis, start, step)
    fixed = {}
    adv = []
    ax = 0
    contig = a.contig
    first_seen = False
    for k in key:
        if k is None:
            plan.append(("new",))
            outshape.append(ONE)
            continue
        n = a.shape[ax]
        if isinstance(k, Arr) and k.shape == ():
            k = k.at()
        if isinstance(k, slice):
            st, ln, step = norm_slice((k.start, k.stop, k.step), n)
            if not (st == 0 and ln is n and step == 1):
                if ax > 0 or step != 1:
                    contig = False
            plan.append(("ax", ax, st, step, ln))
            outshape.append(ln)
        elif is_adv(k):
            if isinstance(k, list):
                k = arr_of(k)
            if isinstance(k, Arr) and k.kind == "b":
                if k.ndim != 1:
                    raise Unsupported("mask of dimension %d" % k.ndim)
                k = mask_list(k)
            adv.append((len(plan), k, n))
            plan.append(("ax", ax, ZERO, ONE, n))
            outshape.append(n)
            contig = False
        elif isinstance(k, (int, I)) and not isinstance(k, bool):
            i = norm_index(k, n)
            c = inrange(i, 0, n)
            if c is not TRUE:
                ST.obligations.append(("index in bounds", c, ST.ctx))
            fixed[ax] = i
            if ax > 0 and False:
                pass
            # fixing leading axes keeps contiguity, others do not
            if any(p[0] == "ax" for p in plan):
                contig = False
        else:
            raise Unsupported("index %r" % (k,))
        ax += 1
    src = a
    nax = a.ndim

    def to(*o):
        idx = [None] * nax
        for axx, i in fixed.items():
            idx[axx] = i
        for p, v in zip(plan, o):
            if p[0] == "ax":
                idx[p[1]] = p[2] + p[3] * v if not (p[2] == 0 and p[3] == 1) else v
        return src.to(*idx)

    def inv(*b):
        c, s = src.inv(*b)
        out = []
        cs = [c]
        for axx, i in fixed.items():
            cs.append(eq(s[axx], i))
        for p in plan:
            if p[0] == "new":
                out.append(ZERO)
                continue
            _, axx, st, step, ln = p
            x = s[axx]
            if st == 0 and step == 1 and ln is src.shape[axx]:
                out.append(x)
                continue
            d = x - st
            if step == 1:
                v = d
            elif step.const() == -1:
                v = -d
            else:
                q, r = poly_divmod(d, step)
                if r.t:
                    cs.append(eq(d % step, 0))
                v = d // step
            cs.append(inrange(v, 0, ln))
            out.append(v)
        return band(*cs), tuple(out)
    v = Arr(a.buf, outshape, to, inv, contig, a.nonneg)
    if getattr(a, "flat", None) is not None:
        v = flat_view(a, key, v)
    return v, (adv or None)


def mask_list(m):
    f = m.fn()
    key = f(isym("maskvar"))
    L = MASKS.get((key, m.shape[0]))
    if L is None:
        L = IndexList(0, m.shape[0], f)
        MASKS[(key, m.shape[0])] = L
    return L


MASKS = {}


def gather(v, adv):
    """v[..., idx, ...] with index arrays on some axes of v"""
    pos = [p for p, _, _ in adv]
    if len(adv) == 1:
        p, ix, n = adv[0]
        f = v.fn()
        if isinstance(ix, IndexList):
            sh = v.shape[:p] + (ix.length,) + v.shape[p + 1:]
            return new(sh, lambda *i: f(*i[:p], ix.elem(i[p]), *i[p + 1:]), v.kind, v.nonneg)
        g = ix.fn()
        k = ix.ndim
        sh = v.shape[:p] + ix.shape + v.shape[p + 1:]
        nn = ix.nonneg

        def h(*i):
            x = g(*i[p:p + k])
            if not nn:
                x = norm_lazy(x, n)
            return f(*i[:p], x, *i[p + k:])
        return new(sh, h, v.kind, v.nonneg)
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated advanced indices")
    ixs = [arr_of(ix) for _, ix, _ in adv]
    shp = bshape([x.shape for x in ixs])
    gs = [bfn(x, shp) for x in ixs]
    p, k = pos[0], len(shp)
    f = v.fn()
    sh = v.shape[:p] + shp + v.shape[p + len(pos):]

    def h2(*i):
        xs = []
        for g, ix, (_, _, n) in zip(gs, ixs, adv):
            x = g(*i[p:p + k])
            xs.append(x if ix.nonneg else norm_lazy(x, n))
        return f(*i[:p], *xs, *i[p + k:])
    return new(sh, h2, v.kind, v.nonneg)


def norm_lazy(x, n):
    c = x.const()
    if c is not None:
        return x + n if c < 0 else x
    return iite(lt(x, 0), x + n, x)


def indexlist_get(L, key):
    if isinstance(key, slice) and key.stop is None and key.step is None and key.start is not None:
        st = I.of(key.start)
        if st == 0:
            return L
        # dropping the first len(P) elements, where P is the part of L below some bound
        for P in IndexList.reg.values():
            if P.length is st and P is not L and dimeq(P.lo, L.lo) and decide(le(P.hi, L.hi)) is True:
                x = isym("probe!x")
                c2 = ST.ctx.add(inrange(x, P.lo, P.hi))
                a, b = S.simp_b(P.cond(x), c2), S.simp_b(L.cond(x), c2)
                if a is b:
                    ST.ctx = ST.ctx.add(le(P.length, L.length))      # P is a part of L
                    return L.tail(P)
    raise Unsupported("slice of an index list")


def setitem(a, key, val):
    v, adv = view(a, key)
    buf = v.buf
    if buf.origin == "frozen":
        raise Unsupported("write to a merged array")
    old = buf.fn
    buf.nwrites += 1
    if adv is None:
        g = bfn_of(val, v.shape)
        kind = buf.kind
        inv = v.inv

        def f(*b):
            c, i = inv(*b)
            if c is FALSE:
                return old(*b)
            return ite(c, conv(g(*i), kind), old(*b))
        buf.fn = memo(f)
        return
    if len(adv) == 2:
        return scatter2(v, adv, val, old)
    if len(adv) != 1:
        raise Unsupported("scatter with several index arrays")
    p, ix, n = adv[0]
    if isinstance(ix, Arr):
        if ix.ndim != 1:
            raise Unsupported("scatter")
        if ix.shape[0].const() == 1:
            e = norm_index(ix.at(0), n)
            sh = v.shape[:p] + (ONE,) + v.shape[p + 1:]
            g = bfn_of(val, sh)

            def f(*b):
                c, i = v.inv(*b)
                return ite(band(c, eq(i[p], e)), conv(g(*i[:p], ZERO, *i[p + 1:]), buf.kind), old(*b))
            buf.fn = memo(f)
            return
        raise Unsupported("scatter through an index array")
    sh = v.shape[:p] + (ix.length,) + v.shape[p + 1:]
    g = bfn_of(val, sh)

    def f2(*b):
        c, i = v.inv(*b)
        c = band(c, ix.mem(i[p]))
        if c is FALSE:
            return old(*b)
        return ite(c, conv(g(*i[:p], ix.rank(i[p]), *i[p + 1:]), buf.kind), old(*b))
    buf.fn = memo(f2)


def scatter2(v, adv, val, old):
    """v[i, j] = val for two adjacent one-dimensional index arrays whose members are t + const"""
    (p, ix, n), (q, jx, m) = adv
    buf = v.buf
    if q != p + 1 or not all(isinstance(x, Arr) and x.ndim == 1 for x in (ix, jx)) or not dimeq(ix.shape[0], jx.shape[0]):
        raise Unsupported("scatter with several index arrays")
    t = isym("scatter!t")
    cnt = ix.shape[0]
    offs = []
    for x, d in ((ix, n), (jx, m)):
        o = I.of(x.fn()(t)) - t
        if symname(t) in o.fv or decide(le(0, o)) is not True or decide(le(o + cnt, d)) is not True:
            raise Unsupported("scatter through this index array")
        offs.append(o)
    sh = v.shape[:p] + (cnt,) + v.shape[p + 2:]
    g = bfn_of(val, sh)

    def f(*b):
        c, i = v.inv(*b)
        k = i[p] - offs[0]
        c = band(c, inrange(k, 0, cnt), eq(i[q] - offs[1], k))
        if c is FALSE:
            return old(*b)
        return ite(c, conv(g(*i[:p], k, *i[p + 2:]), buf.kind), old(*b))
    buf.fn = memo(f)


# ---------------------------------------------------------------- flat views (ravel / reshape(-1, n*n)) and diagonals
def ravel_view(a):
    """C-order flattening of the last two axes of a contiguous array (whole array if 2-D)"""
    if a.ndim == 1:
        return a
    if a.ndim == 2 and a.contig:
        return flat_arr(a, 0, a.shape[0], a.shape[1])
    raise Unsupported("ravel of this array")


def flat_arr(a, lead, rows, cols):
    """merge axes lead, lead+1 of a into one; only diagonal slices and full reads of it are supported"""
    sh = a.shape[:lead] + (rows * cols,) + a.shape[lead + 2:]
    v = Arr(a.buf, sh,
            lambda *i: a.to(*i[:lead], i[lead] // cols, i[lead] % cols, *i[lead + 1:]),
            lambda *b: _flat_inv(a, lead, cols, b), a.contig, a.nonneg)
    v.flat = (a, lead, rows, cols)
    return v


def _flat_inv(a, lead, cols, b):
    c, i = a.inv(*b)
    return c, i[:lead] + (i[lead] * cols + i[lead + 1],) + i[lead + 2:]


def flat_view(a, key, v):
    """slicing a flattened axis: a strided slice with step cols+1 is a diagonal"""
    base, lead, rows, cols = a.flat
    ks = [k for k in key if k is not None]
    if any(k is None for k in key):
        return v
    k = ks[lead]
    if isinstance(k, slice) and k.step is not None and I.of(k.step) is cols + 1:
        st, cnt, step = norm_slice((k.start, k.stop, k.step), rows * cols)
        i0, j0 = poly_divmod(st, cols)
        if decide(inrange(j0, 0, cols)) is not True:
            raise Unsupported("diagonal start")
        ok = band(le(j0 + cnt, cols), le(i0 + cnt, rows))
        if decide(ok) is not True:
            raise Unsupported("diagonal slice leaves the matrix")
        rest = list(ks[:lead]) + [slice(None), slice(None)] + list(ks[lead + 1:])
        if any(not (isinstance(x, slice) and x == slice(None)) for x in rest):
            raise Unsupported("mixed diagonal slice")
        sh = base.shape[:lead] + (cnt,) + base.shape[lead + 2:]

        def to(*i):
            return base.to(*i[:lead], i0 + i[lead], j0 + i[lead], *i[lead + 1:])

        def inv(*b):
            c, i = base.inv(*b)
            kk = i[lead] - i0
            return band(c, inrange(kk, 0, cnt), eq(i[lead + 1] - j0, kk)), i[:lead] + (kk,) + i[lead + 2:]
        return Arr(a.buf, sh, to, inv, False, a.nonneg)
    return v


# ---------------------------------------------------------------- broadcasting and element-wise operations
def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                continue
            if d is ONE:
                d = x
            elif not dimeq(d, x):
                if decide(eq(d, x)) is False and decide(eq(d, 1)) is False and decide(eq(x, 1)) is False:
                    raise PyRaise("ValueError", "operands could not be broadcast together: %r %r" % (d, x))
                raise Unsupported("broadcast %r with %r" % (d, x))
        out.append(d)
    return tuple(out)


def bfn(a, shape):
    """element function of a broadcast to shape"""
    f = a.fn()
    off = len(shape) - a.ndim
    one = [s is ONE for s in a.shape]
    full = [s is ONE for s in shape[off:]]
    if off == 0 and one == full:
        return f
    return lambda *i: f(*[ZERO if o else x for o, x in zip(one, i[off:])])


def bfn_of(val, shape):
    """value assigned to a region of the given shape"""
    if is_scalar(val):
        return lambda *i: val
    a = arr_of(val)
    sh = a.shape
    while len(sh) > len(shape) and sh[0] is ONE:
        f0 = a
        a = getitem(a, 0)
        if not isinstance(a, Arr):
            v = a
            return lambda *i: v
        sh = a.shape
    r = bshape([sh, shape])
    if len(r) != len(shape) or not all(dimeq(x, y) for x, y in zip(r, shape)):
        raise Unsupported("assignment broadcast %r -> %r" % (sh, shape))
    return bfn(a, shape)


def elementwise(fn, kind, *xs):
    arrs = [x if isinstance(x, Arr) else (arr_of(x) if not is_scalar(x) else None) for x in xs]
    if all(a is None for a in arrs):
        return fn(*xs)
    shape = bshape([a.shape for a in arrs if a is not None])
    gs = [bfn(a, shape) if a is not None else (lambda *i, x=x: x) for a, x in zip(arrs, xs)]
    r = new(shape, lambda *i: conv(fn(*[g(*i) for g in gs]), kind), kind)
    if shape == ():
        return r.at()
    return r


def promote(*xs):
    ks = [kind_of(x) for x in xs]
    return "r" if "r" in ks else ("i" if "i" in ks else "b")


def nonneg(x):
    if isinstance(x, Arr):
        return x.nonneg
    if isinstance(x, (int, I)) and not isinstance(x, bool):
        c = I.of(x).const()
        return (c is not None and c >= 0) or (c is None and T._quick_nonneg(I.of(x)))
    return False


def binop(op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if op in ("Add", "Sub", "Mult"):
        k = promote(a, b)
        if k == "b":
            k = "i"
        if op == "Add":
            f = lambda x, y: conv(x, k) + conv(y, k)
        elif op == "Sub":
            f = lambda x, y: conv(x, k) - conv(y, k)
        else:
            f = lambda x, y: conv(x, k) * conv(y, k)
        r = elementwise(f, k, a, b)
        if isinstance(r, Arr) and k == "i" and op in ("Add", "Mult") and nonneg(a) and nonneg(b):
            r.nonneg = True
        return r
    if op == "Div":
        return elementwise(lambda x, y: rl(x) / rl(y), "r", a, b)
    if op == "Pow":
        if kb == "i":
            if ka in ("i", "b"):
                def pw(x, y):
                    c = I.of(y).const()
                    if c is None or c < 0:
                        return rpow(rl(x), y)
                    r = I.of(1)
                    for _ in range(c):
                        r = r * conv(x, "i")
                    return r
                if isinstance(b, (int, I)) and I.of(b).const() is not None and I.of(b).const() >= 0:
                    return elementwise(pw, "i", a, b)
                return elementwise(lambda x, y: rpow(rl(x), y), "r", a, b)
            return elementwise(lambda x, y: rpow(rl(x), y), "r", a, b)
        if isinstance(b, float) and b == int(b):
            return elementwise(lambda x, y: rpow(rl(x), int(b)), "r", a, b)
        if isinstance(b, float) and b == 0.5:
            return elementwise(lambda x, y: rfun("sqrt", rl(x)), "r", a, b)
        if isinstance(b, Arr) and b.kind == "r":
            # real exponents that are integer valued
            def pr(x, y):
                if y.op == "int":
                    return rpow(rl(x), y.a[0])
                if y.op == "c" and y.a[0].denominator == 1:
                    return rpow(rl(x), y.a[0].numerator)
                raise Unsupported("real exponent")
            return elementwise(pr, "r", a, b)
        raise Unsupported("power")
    if op == "FloorDiv":
        if ka == "i" and kb == "i":
            return elementwise(lambda x, y: I.of(x) // I.of(y), "i", a, b)
        raise Unsupported("real floor division")
    if op == "Mod":
        if ka == "i" and kb == "i":
            return elementwise(lambda x, y: I.of(x) % I.of(y), "i", a, b)
        raise Unsupported("real modulo")
    if op == "MatMult":
        return matmul(a, b)
    if op in ("BitAnd", "BitOr") and promote(a, b) == "b":
        f = band if op == "BitAnd" else bor
        return elementwise(lambda x, y: f(conv(x, "b"), conv(y, "b")), "b", a, b)
    raise Unsupported("operator " + op)


def compare(op, a, b):
    ka, kb = kind_of(a), kind_of(b)

    def f(x, y):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, B):
            x = iite(x, 1, 0)
        if isinstance(y, B):
            y = iite(y, 1, 0)
        if isinstance(x, (int, I)) and isinstance(y, (int, I)):
            x, y = I.of(x), I.of(y)
            return {"Lt": lambda: lt(x, y), "LtE": lambda: le(x, y), "Gt": lambda: lt(y, x), "GtE": lambda: le(y, x),
                    "Eq": lambda: eq(x, y), "NotEq": lambda: bnot(eq(x, y))}[op]()
        x, y = rl(x), rl(y)
        return {"Lt": lambda: rlt(x, y), "LtE": lambda: rle(x, y), "Gt": lambda: rlt(y, x), "GtE": lambda: rle(y, x),
                "Eq": lambda: req(x, y), "NotEq": lambda: bnot(req(x, y))}[op]()
    return elementwise(f, "b", a, b)


def matmul(a, b):
    a, b = arr_of(a), arr_of(b)
    fa, fb = a.fn(), b.fn()
    na, nb = a.ndim, b.ndim

    def need(x, y):
        if not dimeq(x, y):
            if decide(eq(x, y)) is False:
                raise PyRaise("ValueError", "matmul: mismatch")
            raise Unsupported("matmul %r with %r" % (x, y))
        return x
    k = lambda v: rl(v)
    if na == 1 and nb == 1:
        n = need(a.shape[0], b.shape[0])
        return rsum(n, lambda j: k(fa(j)) * k(fb(j)))
    if na == 1 and nb == 2:
        n = need(a.shape[0], b.shape[0])
        return new((b.shape[1],), lambda c: rsum(n, lambda j: k(fa(j)) * k(fb(j, c))))
    if nb == 1:
        n = need(a.shape[-1], b.shape[0])
        return new(a.shape[:-1], lambda *i: rsum(n, lambda j: k(fa(*i, j)) * k(fb(j))))
    if na == 2 and nb == 2:
        n = need(a.shape[1], b.shape[0])
        return new((a.shape[0], b.shape[1]), lambda r, c: rsum(n, lambda j: k(fa(r, j)) * k(fb(j, c))))
    if na == 3 and nb == 3 and (dimeq(a.shape[0], b.shape[0])):
        n = need(a.shape[2], b.shape[1])
        return new((a.shape[0], a.shape[1], b.shape[2]), lambda t, r, c: rsum(n, lambda j: k(fa(t, r, j)) * k(fb(t, j, c))))
    raise Unsupported("matmul of dimensions %d, %d" % (na, nb))


def einsum(spec, *xs):
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        raise Unsupported("implicit einsum")
    ins = lhs.split(",")
    xs = [arr_of(x) for x in xs]
    dims = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim or "." in s or len(set(s)) != len(s):
            raise Unsupported("einsum " + spec)
        for ch, d in zip(s, x.shape):
            if ch in dims:
                if dims[ch] is ONE:
                    dims[ch] = d
                elif d is not ONE and not dimeq(dims[ch], d):
                    if decide(eq(dims[ch], d)) is False:
                        raise PyRaise("ValueError", "einsum: mismatch")
                    raise Unsupported("einsum dimension %r %r" % (dims[ch], d))
            else:
                dims[ch] = d
    fs = [x.fn() for x in xs]
    shapes = [x.shape for x in xs]
    con = [c for c in dims if c not in out]

    def el(*o):
        env = dict(zip(out, o))

        def go(k):
            if k == len(con):
                r = R1
                for s, f, sh in zip(ins, fs, shapes):
                    r = r * rl(f(*[ZERO if d is ONE else env[c] for c, d in zip(s, sh)]))
                return r

            def body(v):
                env[con[k]] = v
                return go(k + 1)
            return rsum(dims[con[k]], body)
        return go(0)
    r = new([dims[c] for c in out], el)
    return r if out else r.at()
