"""Loops with a symbolic number of iterations: the loop is summarised, for every number of iterations, from one symbolic iteration.

The body is run with the loop variable k symbolic.
 1. carried integers: a name whose value grows by the same amount in every iteration is replaced by its closed form;
 2. buffers: run from an arbitrary content H(k, .), every written element must be a function of k and the index alone
    (or H + a term, an accumulation). An element is attributed to the iteration that writes it last: either the condition of the
    write does not mention k (the last iteration), or it determines k (checked by the integer solver for all indices);
 3. the body is run once more from the closed form of the content at the start of iteration k: this run emits the
    obligations and the facts about library calls, which therefore hold for every k.
A loop outside this pattern raises Unsupported (its obligations are undecided, never reported)."""
import ast
from sym import *
import sym
import solver as S
import terms as T
import npmodel as NP
from solver import Ctx, NeedSplit, Unknown


class Carried:
    """placeholder for a name that is assigned in the loop and not yet assigned in this iteration"""
    why = "value carried over from an earlier iteration"


def names_assigned(stmts):
    out, app = [], []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.append(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear") and isinstance(n.func.value, ast.Name):
            app.append(n.func.value.id)
        if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Global, ast.Nonlocal)):
            raise Unsupported(type(n).__name__ + " in a symbolic loop")
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return list(dict.fromkeys(out)), list(dict.fromkeys(app))


def mentions(t, pred, seen=None):
    """does a term contain an uninterpreted function whose name satisfies pred?"""
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        return any(mentions(x, pred, seen) for x in t)
    if isinstance(t, I):
        return any(mentions(x, pred, seen) for m, _ in t.t for x in m)
    if not isinstance(t, T.Node):
        return False
    if t in seen:
        return False
    seen.add(t)
    if t.op == "uf" and pred(t.a[0]):
        return True
    return any(mentions(x, pred, seen) for x in t.a)


def prune(t, ctx, memo=None):
    """decide the conditions inside a term that the context decides"""
    memo = {} if memo is None else memo
    if isinstance(t, I):
        if not any(x.op != "sym" for m, _ in t.t for x in m):
            return t
        try:
            return S.simp_i(t, ctx)
        except NeedSplit:
            return t
    if not isinstance(t, R):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        c = t.a[0]
        d = ctx.decide(c)
        if d is None:
            try:
                c = S.simp_b(c, ctx)
                d = ctx.decide(c)
            except (NeedSplit, Unknown):
                pass
        if d is True:
            r = prune(t.a[1], ctx, memo)
        elif d is False:
            r = prune(t.a[2], ctx, memo)
        else:
            r = rite(c, prune(t.a[1], ctx.add(c)), prune(t.a[2], ctx.add(bnot(c))))
    elif t.op in T.BINDERS:
        v, lo, hi, body = t.a
        nv = fresh("b")
        r = T.close(t.op, nv, lo, hi, prune(subst(body, {v: nv}), ctx.add(inrange(nv, lo, hi))))
    elif t.op in ("add", "mul", "pow", "exp", "cos", "sin", "sqrt", "abs", "uf"):
        r = T.rebuild(t, tuple(tuple(prune(y, ctx, memo) for y in x) if isinstance(x, tuple) else prune(x, ctx, memo) for x in t.a))
    else:
        r = t
    memo[t] = r
    return r


def split_or(c):
    """alternatives of a condition, as conjunctions: not(and(...)) with few parts is split"""
    return [c]


def leaves(t, ctx, path=()):
    """[(conditions, term)] of the ite tree of t"""
    if isinstance(t, R) and t.op == "ite":
        c, a, b = t.a
        d = ctx.decide(c)
        if d is None:
            c2 = S.simp_b(c, ctx)
            d = ctx.decide(c2)
            if d is None:
                c = c2
        out = []
        if d is not False:
            out += leaves(a, ctx.add(c), path + (c,))
        if d is not True:
            out += leaves(b, ctx.add(bnot(c)), path + (bnot(c),))
        return out
    if isinstance(t, I) and len(t.t) == 1 and len(t.t[0][0]) == 1 and t.t[0][1] == 1 and t.t[0][0][0].op == "ite":
        c, a, b = t.t[0][0][0].a
        return leaves(I.of(a), ctx.add(c), path + (c,)) + leaves(I.of(b), ctx.add(bnot(c)), path + (bnot(c),))
    if not ctx.feasible():
        return []
    return [(path, t)]


def conj(path):
    out = []
    for c in path:
        out += list(c.a) if c.op == "and" else [c]
    return out


def solve_for(k, path, ctx):
    """e with: the path implies k == e"""
    kn = symname(k)
    cands = []
    ka = k.t[0][0][0]
    for c in conj(path):
        if c.op == "not" and c.a[0].op == "le0":
            p = I.of(1) - c.a[0].a[0]          # not(p <= 0)  <=>  1 - p <= 0
        elif c.op in ("le0", "eq0"):
            p = c.a[0]
        else:
            continue
        if kn not in p.fv:
            continue
        co, rest, bad = ZERO, ZERO, False
        for m, q in p.t:
            if ka in m:
                mm = list(m)
                mm.remove(ka)
                if any(kn in x.fv for x in mm):
                    bad = True
                    break
                w = I.of(q)
                for x in mm:
                    w = w * I.of(x)
                co = co + w
            elif any(kn in x.fv for x in m):
                bad = True
                break
            else:
                w = I.of(q)
                for x in m:
                    w = w * I.of(x)
                rest = rest + w
        if bad:
            continue
        # co*k + rest (<= or ==) 0
        cc = co.const()
        if cc in (1, -1):
            cands.append(-rest if cc == 1 else rest)
        elif ctx.decide(lt(0, co)) is True:
            cands.append((-rest) // co)
        elif ctx.decide(lt(co, 0)) is True:
            cands.append(rest // (-co))
            cands.append((rest - co - 1) // (-co))
    c2 = ctx.add(*path)
    for e in dict.fromkeys(cands):
        if kn in e.fv:
            continue
        if c2.decide(le(k, e)) is True and c2.decide(le(e, k)) is True:
            return e
    return None


def hname(b):
    return "H:%d" % b.id


def hval(b, k, idx):
    if b.kind == "r":
        return ruf(hname(b), (k,) + tuple(idx))
    if b.kind == "i":
        return iuf(hname(b), k, *idx)
    return B("uf", hname(b), (k,) + tuple(I.of(x) for x in idx))


def substk(t, k, e):
    if isinstance(t, (R, B, I)):
        return subst(t, {symname(k): e})
    return t


class Summary:
    """content of a buffer after the iterations lo..stop-1"""

    def __init__(self, b, k, lo, f0, ctx):
        self.b, self.k, self.lo, self.f0, self.ctx = b, k, lo, f0, ctx
        self.ind, self.det, self.acc = [], [], []
        x = tuple(isym("x%d:%d" % (j, b.id)) for j in range(len(b.shape)))
        self.x = x
        self.rng = band(*[inrange(v, 0, s) for v, s in zip(x, b.shape)])

    def analyse(self, fn):
        b, k, x = self.b, self.k, self.x
        ctx = self.ctx.add(self.rng)
        h = hval(b, k, x)
        hn = hname(b)
        t = fn(*x)
        for path, leaf in leaves(t, ctx):
            if leaf is h or leaf == h:
                continue
            c2 = ctx.add(*path)
            if mentions(leaf, lambda n: n.startswith("H:")):
                leaf = prune(leaf, c2)
                if leaf is h:
                    continue
            if any(mentions(c, lambda n: n.startswith("H:")) for c in path):
                raise Unsupported("write whose condition depends on the content of an array carried through the loop")
            if mentions(leaf, lambda n: n.startswith("H:")):
                d = None
                if b.kind == "r":
                    try:
                        d = S.canon(leaf - h, c2)
                    except (NeedSplit, Unknown):
                        d = None
                if d is None or mentions(d, lambda n: n.startswith("H:")):
                    raise Unsupported("element carried through the loop")
                self.acc.append((path, d))
                continue
            if not any(symname(k) in c.fv for c in path):
                self.ind.append((band(*path), leaf))
                continue
            e = solve_for(k, path, ctx)
            if e is None:
                # written in every iteration under a condition that does not depend on it?
                free = band(*[c for c in conj(path) if symname(k) not in c.fv])
                if any(free is c for c, _ in self.ind):
                    continue
                t2 = prune(t, ctx.add(free))
                if not mentions(t2, lambda n: n.startswith("H:")):
                    self.ind.append((free, t2))
                    continue
                raise Unsupported("cannot tell which iteration writes an element (%s)" % repr(path)[:200])
            cond = substk(band(*path), k, e)
            self.det.append((e, cond, substk(leaf, k, e), path))
        if self.acc and (self.ind or self.det):
            raise Unsupported("accumulation and assignment of one array in a loop")
        for i in range(len(self.det)):
            for j in range(i):
                self.disjoint(self.det[i][3], self.det[j][3])

    def disjoint(self, p1, p2):
        """no element is written by one alternative in an iteration and by another in a different one"""
        k1, k2 = fresh("k"), fresh("k")
        base = self.ctx0.add(self.rng).add(inrange(k1, self.lo, self.hi)).add(inrange(k2, self.lo, self.hi))
        base = base.add(*[substk(c, self.k, k1) for c in p1]).add(*[substk(c, self.k, k2) for c in p2])
        for order in (lt(k1, k2), lt(k2, k1)):
            if base.add(order).feasible():
                raise Unsupported("an element written by different iterations: %r | %r" % (p1, p2))

    def content(self, stop):
        """element function after iterations lo..stop-1"""
        b, k, x, lo, f0 = self.b, self.k, self.x, self.lo, self.f0
        names = [symname(v) for v in x]
        last = I.of(stop) - 1
        ind = [(c, substk(v, k, last)) for c, v in self.ind]
        stop = I.of(stop)

        def fn(*idx):
            m = dict(zip(names, idx))
            r = f0(*idx)
            for path, d in self.acc:
                kv = fresh("k")
                c = substk(band(*path), k, kv)
                body = substk(d, k, kv)
                r = r + T.close("sum", kv, lo, stop, subst(rite(c, body, R0), m))
            for e, c, v, _ in reversed(self.det):
                cc = subst(band(c, inrange(e, lo, stop)), m)
                if cc is not FALSE:
                    r = ite(cc, subst(v, m), r)
            for c, v in reversed(ind):
                cc = subst(band(c, lt(lo, stop)), m)
                if cc is not FALSE:
                    r = ite(cc, subst(v, m), r)
            return r
        return fn


class TailList:
    """what one iteration appends to a list"""

    def __init__(self):
        self.segs = []

    def append(self, v):
        self.segs.append(([], TRUE, v))

    def copy(self):
        t = TailList()
        t.segs = list(self.segs)
        return t

    def attr(self, n):
        raise Unsupported("list." + n)

    def index_list(self):
        raise Unsupported("list read inside the loop that builds it")


def summarise(interp, st, it, env, mod, elem=None):
    """elem: the loop runs over the members elem(k) of a sequence, not over the integers k of the range themselves"""
    from interp import NORMAL, CondDef, GuardedList, Poison, SymRange, outer_state, check_outer
    lo, hi = it.lo, it.hi
    outer = outer_state(env)
    if decide(le(hi, lo)) is True:
        return NORMAL, None
    if not isinstance(st.target, ast.Name) and elem is None:
        raise Unsupported("loop target")
    assigned, appended = names_assigned(([ast.Expr(st.target)] if elem else []) + list(st.body))
    index = None if elem else st.target.id
    assigned = [n for n in assigned if n != index]
    k = fresh("k")
    T_lower = None
    ctx0 = ST.ctx
    cbody = ctx0.add(inrange(k, lo, hi))
    env0 = dict(env.d)
    heap0 = {b: b.fn for b in ST.heap}
    nob, nfact, nraise = len(ST.obligations), len(ST.facts), len(interp.raises)
    heaplen = len(ST.heap)
    sites0 = dict(ST.sites)

    def reset():
        for b, f in heap0.items():
            b.fn = f
        del ST.heap[heaplen:]
        del ST.obligations[nob:]
        del ST.facts[nfact:]
        del interp.raises[nraise:]
        ST.sites = dict(sites0)
        ST.ctx = cbody

    lists = {}
    for n in appended:
        v = env0.get(n)
        if isinstance(v, (list, GuardedList, TailList)):
            if any(v is x for x in env.args) or sum(v is x for x in env0.values()) > 1:
                raise Unsupported("append to a shared list in a loop")
            lists[n] = v
        elif n in env0 or env.has(n):
            raise Unsupported("append to " + n)

    def run(vals, extra=()):
        reset()
        ST.ctx = cbody.add(*extra) if extra else cbody
        env.d = dict(env0)
        for n in assigned:
            if n in env0:
                env.d[n] = vals.get(n, Poison(Carried.why))
        for n in lists:
            env.d[n] = TailList()
        if elem is None:
            env.d[index] = k
        ST.loopvars = ST.loopvars + ((k, lo, hi),)
        interp.merging += 1
        try:
            if elem is not None:
                interp.assign(st.target, elem(k), env)
            out = interp.block(st.body, env, mod)
        finally:
            interp.merging -= 1
            ST.loopvars = ST.loopvars[:-1]
        check_outer(outer, env, {n: v for n, v in env0.items() if n not in lists}, env.d)
        if out[0] != NORMAL:
            raise Unsupported("loop left early")
        return env.d

    # ---- 1. carried integers
    syms = {n: isym("carry!%s%s" % (n, symname(k))) for n in assigned if isinstance(env0.get(n), (int, I)) and not isinstance(env0.get(n), bool)}
    before = {b: b.nwrites for b in heap0}
    # by induction a carried integer stays above its initial value if its step, derived under that assumption, is not negative
    up = True
    try:
        d = run(dict(syms), [le(I.of(env0[n]), s) for n, s in syms.items()])
    except (NeedSplit, Unknown):
        up = False
        d = run(dict(syms))
    closed = {}
    for n, s in syms.items():
        v = d.get(n)
        if not isinstance(v, (int, I)) or isinstance(v, bool):
            continue
        v = I.of(v)
        if symname(s) not in v.fv:
            continue
        step = v - s
        if symname(s) in step.fv or symname(k) in step.fv:
            raise Unsupported("integer %s carried through a loop" % n)
        if up and cbody.decide(le(0, step)) is not True:
            raise Unsupported("integer %s carried through a loop decreases" % n)
        closed[n] = (I.of(env0[n]), step)
    written = [b for b in heap0 if b.nwrites != before[b] or b.fn is not heap0[b]]
    vals = {n: c + s * (k - lo) for n, (c, s) in closed.items()}
    # ---- 2. buffers, from arbitrary content
    saved = dict(heap0)
    if written:
        for b in written:
            heap0[b] = memo(lambda *i, b=b: hval(b, k, i))
        d = run(vals)
        sums = {}
        for b in written:
            if b.fn is heap0[b]:
                continue
            s = Summary(b, k, lo, saved[b], cbody)
            s.hi, s.ctx0 = hi, ctx0
            s.analyse(b.fn)
            sums[b] = s
        ST.ctx = ctx0
        for b in written:
            heap0[b] = memo(sums[b].content(k)) if b in sums else saved[b]
    # ---- 3. the iteration that counts
    d = run(vals)
    end = dict(d)
    ran = decide(lt(lo, hi)) is True
    ST.ctx = ctx0
    heap1 = {b: b.fn for b in ST.heap}
    for b in ST.heap:
        if b in saved:
            b.fn = saved[b]
    if written:
        for b in sums:
            b.fn = memo(sums[b].content(hi))
    # ---- names after the loop
    env.d = dict(env0)
    last = hi - 1

    def final(v):
        if isinstance(v, (R, I, B)):
            return subst(v, {symname(k): last})
        if isinstance(v, Arr):
            if v.buf in saved:
                if any(symname(k) in T.I.of(x).fv for x in v.shape):
                    return Poison("array view that depends on the loop variable")
                f, sh = heap1[v.buf], v.shape
                probe = v.to(*[isym("p!%d" % j) for j in range(v.ndim)])
                if any(symname(k) in x.fv for x in probe):
                    r = new(sh, lambda *i, a=v: subst(a.buf.fn(*[subst(I.of(y), {symname(k): last}) for y in a.to(*i)]), {symname(k): last}), v.kind, v.nonneg)
                    r.buf.origin = "frozen"
                    r.buf.sources = (v.buf,)
                    return r
                return v
            sh = tuple(subst(I.of(s), {symname(k): last}) for s in v.shape)
            f, to = heap1.get(v.buf, v.buf.fn), v.to
            r = new(sh, lambda *i: subst(f(*to(*i)), {symname(k): last}), v.kind, v.nonneg)
            return r
        if isinstance(v, tuple):
            return tuple(final(x) for x in v)
        if v is None or isinstance(v, (int, float, str, bool)):
            return v
        if isinstance(v, Poison):
            return v
        return Poison("%s after a symbolic loop" % type(v).__name__)
    for n, v in end.items():
        if n in lists:
            continue
        if n in closed:
            c, s = closed[n]
            env.d[n] = c + s * (hi - lo) if ran else iite(lt(lo, hi), c + s * (hi - lo), c)
            continue
        if n not in assigned and n != index:
            continue
        if isinstance(v, CondDef):
            w = CondDef(subst(v.cond, {symname(k): last}), final(v.val))
        else:
            w = final(v)
        if ran:
            env.d[n] = w
        elif n in env0:
            env.d[n] = Poison("assigned in a loop that may not run")
        else:
            env.d[n] = CondDef(lt(lo, hi), w)
    for n, v0 in lists.items():
        tail = end[n]
        segs = tail.segs
        if not segs:
            env.d[n] = v0
            continue
        if len(segs) > 1:
            raise Unsupported("several appends per iteration")
        vs, g, val = segs[0]
        s0 = v0.segs if isinstance(v0, (GuardedList, TailList)) else [([], TRUE, x) for x in v0]
        new_ = s0 + [([(k, lo, hi)] + list(vs), g, val)]
        if isinstance(v0, TailList):
            t = TailList()
            t.segs = new_
            env.d[n] = t
        else:
            env.d[n] = GuardedList(new_)
    return NORMAL, None


def while_(interp, st, env, mod):
    raise Unsupported("while loop")


def to_index_list(g):
    """the list of integers {value : loop variables in range, condition}, in increasing order"""
    if len(g.segs) != 1:
        raise Unsupported("index list built in several places")
    vs, cond, val = g.segs[0]
    val = I.of(val)
    vs = [(v, I.of(a), I.of(b)) for v, a, b in vs]
    # loop variables that the condition fixes
    rest = []
    for v, a, b in vs:
        e = None
        for c in conj((cond,)):
            if c.op == "eq0" and symname(v) in c.a[0].fv:
                e = solve_for(v, (c,), ST.ctx)
                if e is not None:
                    break
        if e is None:
            rest.append((v, a, b))
            continue
        cond = band(subst(cond, {symname(v): e}), inrange(e, a, b))
        val = subst(val, {symname(v): e})
    vs = rest
    if len(vs) == 1:
        v, a, b = vs[0]
        off = val - v
        if symname(v) in off.fv:
            raise Unsupported("index list values")
        n = symname(v)
        return IndexList.get(a + off, b + off, lambda x: subst(cond, {n: I.of(x) - off}))
    if len(vs) == 2:
        (v, a, b), (w, c, d) = vs
        if a != 0 or c != 0:
            raise Unsupported("index list ranges")
        off = val - (v * d + w)
        if symname(v) in off.fv or symname(w) in off.fv:
            raise Unsupported("index list values")
        nv, nw = symname(v), symname(w)
        return IndexList.get(off, off + b * d, lambda x: subst(cond, {nv: (I.of(x) - off) // d, nw: (I.of(x) - off) - d * ((I.of(x) - off) // d)}))
    raise Unsupported("index list over %d loops" % len(vs))
