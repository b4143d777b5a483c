"""Contracts are written once and run in two modes.

SymX  : the function's real source is executed symbolically and every postcondition becomes an obligation for the prover.
ConX  : the real function is called on random data and the same postconditions are evaluated in floating point
        (used to cross-check the models of library functions and to replay failed obligations).
"""
import math, time, random


class Skip(Exception):
    pass


class Acc:
    """array argument: `.v` is what is passed to the function, calling it gives an element"""

    def __init__(self, v, get, shape):
        self.v, self.get, self.shape = v, get, shape

    def __call__(self, *i):
        return self.get(*i)


class Goal:
    def __init__(self, name, status, detail="", s=0.0, by=""):
        self.name, self.status, self.detail, self.s, self.by = name, status, detail, s, by


# ------------------------------------------------------------------------------------------------ symbolic
class SymX:
    concrete = False

    def __init__(self, repo, thorough=False):
        import terms as T, sym, solver as S, interp, npmodel
        self.T, self.sym, self.S, self.NP = T, sym, S, npmodel
        self.ip = interp.Interp(repo)
        self.IP = interp
        sym.reset()
        self.goals = []
        self.inputs = []
        self.rules = []
        self.thorough = thorough
        self.pi = T.PI
        self.assumed = []
        self.probes = 0
        self.impure, self.writes, self.pcalls = [], [], 0
        # nothing assumed about a name carries over from another contract
        S.SLICES.clear()
        S.CUTS.clear()
        S.ATOMIC.clear()
        S.POS.clear()
        S.POS.add("binom")
        S.UF_RANGE.clear()
        T.LOWER.clear()
        S.UF_SIMP.pop("fact", None)
        S.UF_SIMP.pop("bound", None)
        sym.MASKS.clear()
        npmodel._calls.clear()
        self.timeout = None

    # ---- inputs
    def int(self, name, lo=1, hi=None):
        self.T.LOWER[name] = lo
        v = self.T.isym(name)
        if hi is not None:
            self.assume(self.T.le(v, hi))
        return v

    def arr(self, name, shape, kind="r", pos=False, lo=None, hi=None, gen=None, nonneg=False):
        a = self.sym.input_arr(name, shape, kind, nonneg)
        if pos:
            self.S.POS.add(name)
        if kind == "i" and hi is not None:
            self.S.UF_RANGE[name] = lambda *x: (self.T.I.of(lo or 0), self.T.I.of(hi))
            a.nonneg = True
        self.inputs.append((name, a, a.buf.fn))
        f = a.fn()
        I = self.T.I
        return Acc(a, lambda *i: f(*[I.of(x) for x in i]), shape)

    def defarr(self, shape, fn, kind="r"):
        """array with given elements"""
        a = self.sym.new(shape, fn, kind, origin="input")
        self.inputs.append(("derived", a, a.buf.fn))
        f = a.fn()
        I = self.T.I
        return Acc(a, lambda *i: f(*[I.of(x) for x in i]), shape)

    def boundaries(self, n, gen=None):
        """array a of length n written as a[l] = bound[l + 1], where bound[0] = 0 (any array can be)"""
        self.S.UF_SIMP["bound"] = lambda ia, ra, ctx: self.T.rl(0) if ia[0].const() == 0 else None
        return self.defarr((n,), lambda l: self.T.ruf("bound", (l + 1,)))

    def real(self, name, pos=False, lo=None, hi=None):
        if pos:
            self.S.POS.add(name)
        return self.T.rsym(name)

    def rfunc(self, name, nargs):
        """uninterpreted real function of real arguments (a callback supplied by the caller)"""
        return lambda *x: self.T.ruf(name, (), x)

    def fresh_out(self, acc):
        """a new buffer with the same content (what a callee returns)"""
        a = acc.v
        f = a.fn()
        r = self.sym.new(a.shape, f, a.kind)
        self.inputs.append(("callee result", r, r.buf.fn))
        return r

    def assume(self, c):
        self.sym.ST.ctx = self.sym.ST.ctx.add(c)

    def zero(self, m):
        """a value known to be zero"""
        return self.T.ZERO

    def modes(self, n, f):
        """f for the first index and, separately, for the others"""
        f(self.T.ZERO)
        old = self.sym.ST.ctx
        m = self.T.fresh("i")
        self.sym.ST.ctx = old.add(self.T.inrange(m, 1, n))
        f(m)
        self.sym.ST.ctx = old

    def case(self, c, then, other=None):
        """goals for the values with c and for those without"""
        for cond, f in ((c, then), (self.T.bnot(c), other)):
            if f is None:
                continue
            old = self.sym.ST.ctx
            self.assume(cond)
            if self.sym.ST.ctx.feasible():
                f()
            self.sym.ST.ctx = old

    def cuts(self, *c):
        for a, b in c:
            x = (self.T.I.of(a), self.T.I.of(b))
            if x not in self.S.CUTS:
                self.S.CUTS.append(x)

    def atomic(self, *names):
        self.S.ATOMIC.update(names)

    # ---- terms
    def sum(self, n, f, lo=0):
        return self.T.rsum(n, f, lo)

    def exp(self, x):
        return self.T.rfun("exp", self.T.rl(x))

    def cos(self, x):
        return self.T.rfun("cos", self.T.rl(x))

    def sin(self, x):
        return self.T.rfun("sin", self.T.rl(x))

    def sqrt(self, x):
        return self.T.rfun("sqrt", self.T.rl(x))

    def abs(self, x):
        return self.T.rfun("abs", self.T.rl(x))

    def r(self, x):
        return self.T.rl(x)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return self.T.rite(c, self.T.rl(a), self.T.rl(b))

    def le(self, a, b):
        return self.T.le(a, b)

    def lt(self, a, b):
        return self.T.lt(a, b)

    def ieq(self, a, b):
        return self.T.eq(a, b)

    def rlt(self, a, b):
        return self.T.rlt(a, b)

    def req(self, a, b):
        return self.T.req(a, b)

    def maxover(self, sizes, f):
        T = self.T

        def go(k, idx):
            if k == len(sizes):
                return T.rl(f(*idx))
            if T.I.of(sizes[k]).const() == 1:
                return go(k + 1, idx + [T.ZERO])
            return T.mkbind("max", 0, sizes[k], lambda v: go(k + 1, idx + [v]))
        return go(0, [])

    def or_(self, *c):
        return self.T.bor(*c)

    def fresh_result(self, name, a):
        """the result owns its memory: it is not a view of an argument or of stored data"""
        bufs = {x.buf for _, x, _ in self.inputs}
        ok = not isinstance(a, self.sym.Arr) or a.buf not in bufs
        self.goals.append(Goal(name, "discharged" if ok else "failed", "" if ok else "aliases stored data", 0.0, "ownership"))

    # ---- ownership
    def _bufs(self, v, out, seen):
        """buffers reachable from a value"""
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, self.sym.Arr):
            todo = [v.buf]
            while todo:
                b = todo.pop()
                if b not in out:
                    out.add(b)
                    todo += list(b.sources)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self._bufs(x, out, seen)
        elif isinstance(v, dict):
            for x in v.values():
                self._bufs(x, out, seen)
        elif hasattr(v, "segs"):
            for x in v.segs:
                self._bufs(x, out, seen)
        elif isinstance(v, self.IP.CondDef):
            self._bufs(v.val, out, seen)
        elif isinstance(v, self.IP.Func):
            for x in list(v.defaults) + list(v.kwdefaults.values()):
                self._bufs(x, out, seen)
            import ast
            for n in ast.walk(v.node):
                if isinstance(n, ast.Name) and v.closure is not None:
                    e = v.closure
                    while e is not None:
                        if n.id in e.d:
                            self._bufs(e.d[n.id], out, seen)
                            break
                        e = e.parent

    def pcall(self, f, *args, **kw):
        """call of a returned function, which must leave everything that existed before untouched and return new memory only"""
        B = self.sym.Buffer
        mark = B._n
        old = {b: (b.fn, b.nwrites) for b in self.sym.ST.heap}
        outer = self.IP.outer_state(self.IP.Env(f.closure, f.module)) if isinstance(f, self.IP.Func) else []
        r = self.call(f, *args, **kw)
        bad = self.writes
        for b, (fn, nw) in old.items():
            if b.fn is not fn or b.nwrites != nw:
                bad.append("an array created earlier is written (shape %s)" % (b.shape,))
                break
        try:
            self.IP.check_outer(outer, self.IP.Env(), {}, {})
        except self.sym.Unsupported:
            bad.append("a list or dictionary created earlier is changed")
        got = set()
        self._bufs(r, got, set())
        if any(b.id <= mark for b in got):
            self.impure.append("a returned array shares memory with data created earlier")
        self.pcalls += 1
        return r

    def pure(self):
        self.goals.append(Goal("evaluating a returned function changes no earlier array, list or dictionary and returns new memory only",
                               "failed" if self.impure else "unsupported" if self.writes else "discharged", "; ".join(dict.fromkeys(self.impure + self.writes)), 0.0, "ownership"))

    def captures(self, fs, arrays, allowed):
        """of the given arrays (name -> array) the functions keep only the allowed ones"""
        got = set()
        self._bufs(tuple(fs), got, set())
        bad = [n for n, a in arrays.items() if n not in allowed and isinstance(self._raw(a), self.sym.Arr) and self._raw(a).buf in got]
        self.goals.append(Goal("the returned functions keep none of the other arrays they were given", "failed" if bad else "discharged", ", ".join(bad), 0.0, "ownership"))

    def _raw(self, a):
        return a.v if isinstance(a, Acc) else a

    def apart(self, name, a, b):
        """no memory reachable from a is reachable from b"""
        x, y = set(), set()
        self._bufs(tuple(map(self._raw, a)), x, set())
        self._bufs(tuple(map(self._raw, b)), y, set())
        self.goals.append(Goal(name, "failed" if x & y else "discharged", "shared memory" if x & y else "", 0.0, "ownership"))

    def and_(self, *c):
        return self.T.band(*c)

    def not_(self, c):
        return self.T.bnot(c)

    def any(self, n, f, lo=0):
        return self.T.bany(n, f, lo)

    def uf(self, name, iargs=(), rargs=(), conc=None):
        return self.T.ruf(name, iargs, rargs)

    def layer(self, n, f):
        """first i < n with f(i)"""
        v = self.T.fresh("b")
        return self.T.I.of(self.T.close("argfirst", v, self.T.ZERO, self.T.I.of(n), f(v)))

    def pow(self, x, n):
        return self.T.rpow(self.T.rl(x), n)

    # ---- running
    def fn(self, module, name):
        return self.ip.module(module).attr(name)

    def call(self, f, *args, **kw):
        un = lambda x: x.v if isinstance(x, Acc) else x
        return self.ip.call(f, [un(a) for a in args], {k: un(a) for k, a in kw.items()})

    def stub(self, name, model):
        def m(ip, args, kw, f):
            d = ip.bind(f, args, kw)
            return model(d)
        self.ip.contracts[name] = m

    def shape(self, name, a, shape):
        t0 = time.time()
        I = self.T.I
        try:
            sh = a.shape if isinstance(a, self.sym.Arr) else ()
            ok = len(sh) == len(shape) and all(self.sym.dimeq(x, I.of(y)) for x, y in zip(sh, shape))
            det = "" if ok else "shape %r, expected %r" % (sh, tuple(shape))
        except self.sym.Unsupported as e:
            ok, det = False, str(e)
        self.goals.append(Goal(name, "discharged" if ok else "failed", det, time.time() - t0, "z3"))
        return ok

    def at(self, a, *i):
        I = self.T.I
        if isinstance(a, self.sym.Arr):
            return a.at(*[I.of(x) for x in i])
        if not i:
            return self.T.rl(a) if not isinstance(a, (self.T.I,)) else a
        raise self.sym.Unsupported("element of %r" % (type(a),))

    def forall(self, sizes, body):
        """body(*indices) for all 0 <= i_k < sizes[k]"""
        old = self.sym.ST.ctx
        vs = []
        for n in sizes:
            c = self.T.I.of(n).const()
            if c == 1:
                vs.append(self.T.ZERO)
                continue
            v = self.T.fresh("i")
            self.sym.ST.ctx = self.sym.ST.ctx.add(self.T.inrange(v, 0, n))
            vs.append(v)
        try:
            body(*vs)
        finally:
            self.sym.ST.ctx = old

    def eq(self, name, actual, spec, rules=None):
        t0 = time.time()
        z0 = self.S.STATS["z3_calls"]
        try:
            if isinstance(actual, self.T.B) or isinstance(spec, self.T.B):
                a, b = self.sym.conv(actual, "b"), self.sym.conv(spec, "b")
                ok, res = self.beq(a, b)
            elif isinstance(actual, (int, self.T.I)) and isinstance(spec, (int, self.T.I)):
                ok, res = self.S.prove_eq(self.T.rl(self.T.I.of(actual)), self.T.rl(self.T.I.of(spec)), self.sym.ST.ctx)
            else:
                ok, res = (True, None) if actual is spec else self.S.prove_eq(self.T.rl(actual), self.T.rl(spec), self.sym.ST.ctx, list(rules if rules is not None else self.rules))
            st = "discharged" if ok else "failed"
            if ok and not isinstance(actual, self.T.B) and not isinstance(spec, self.T.B):
                ctx = self.sym.ST.ctx
                if actual is spec or time.time() - t0 > 2:
                    bad = not ctx.feasible()
                else:
                    bad, _ = self.S.prove_eq(self.T.rl(actual) + self.T.R1, self.T.rl(spec), ctx, list(rules if rules is not None else self.rules))
                if bad:
                    st, res = "failed", "vacuous: the shifted postcondition is provable too (contradictory context)"
                else:
                    self.probes += 1
        except self.sym.Unsupported as e:
            st, res = "unsupported", str(e)
        except self.S.Unknown as e:
            st, res = "failed", "unknown: %s" % e
        self.goals.append(Goal(name, st, "" if st == "discharged" else str(res)[:20000], time.time() - t0,
                               "normaliser+z3" if self.S.STATS["z3_calls"] > z0 else "normaliser"))

    def eqmod(self, name, actual, spec, certs):
        """actual = spec modulo facts: certs() lists terms that are zero by the contracts of library calls or by earlier obligations"""
        c = certs()
        self.eq(name, self.T.rl(actual) + sum(c, self.T.R0), spec)

    def either(self, *alts):
        """alternative proofs of one statement: the goals of the first that succeeds (of the last if none does)"""
        n = len(self.goals)
        first = None
        for f in alts:
            del self.goals[n:]
            f()
            if all(g.status == "discharged" for g in self.goals[n:]):
                return
            first = first or self.goals[n:]
        self.goals[n:] = first

    def calls(self, kind, term, suffix=""):
        """[(contract of a library call, arguments)] for the results of calls of a kind that occur in a term"""
        T = self.T
        names = {f["name"] + suffix: f for f in self.sym.ST.facts if f["kind"] == kind}
        out, seen = [], set()

        def go(t):
            if isinstance(t, tuple):
                for x in t:
                    go(x)
            elif isinstance(t, T.I):
                for m, _ in t.t:
                    for x in m:
                        go(x)
            elif isinstance(t, T.Node) and t not in seen:
                seen.add(t)
                if t.op == "uf" and t.a[0] in names:
                    f = names[t.a[0]]
                    nl = len(f["loops"])
                    lead = t.a[1][nl:nl + len(f["lead"])]
                    e = (f, tuple(T.I.of(x) for x in t.a[1][:nl]), tuple(T.I.of(x) for x in lead))
                    ctx = self.sym.ST.ctx
                    rng = [self.T.inrange(x, 0, n) for x, n in zip(e[2], f["lead"])] + [self.T.inrange(x, lo, hi) for x, (_, lo, hi) in zip(e[1], f["loops"])]
                    if e not in out and all(ctx.decide(c) is True for c in rng):
                        out.append(e)
                for x in t.a:
                    go(x)
        self.sym.ST.ctx.feasible()
        try:
            term = self.S.canon(self.T.rl(term), self.sym.ST.ctx)
        except (self.S.NeedSplit, self.S.Unknown):
            term = self.T.rl(term)
        go(term)
        return out

    def beq(self, a, b):
        ctx = self.sym.ST.ctx
        try:
            a, b = self.S.simp_b(a, ctx), self.S.simp_b(b, ctx)
        except self.S.NeedSplit:
            pass
        if a is b:
            return True, None
        if ctx.entails(self.T.bnot(self.T.band(a, self.T.bnot(b)))) and ctx.entails(self.T.bnot(self.T.band(b, self.T.bnot(a)))):
            return True, None
        return False, "%r  <=/=>  %r" % (a, b)

    def holds(self, name, c, ctx=None):
        t0 = time.time()
        ctx = ctx or self.sym.ST.ctx
        if isinstance(c, bool):
            ok = c
        else:
            try:
                ok = ctx.decide(c) is True or ctx.decide(self.S.simp_b(c, ctx)) is True
            except self.S.NeedSplit:
                ok = False
        self.goals.append(Goal(name, "discharged" if ok else "failed", "" if ok else repr(c)[:800], time.time() - t0, "z3"))

    def same(self, name, a, b):
        """two values (arrays, scalars, flags) handed on are equal"""
        T, sym = self.T, self.sym
        b = b.v if isinstance(b, Acc) else b
        if a is b:
            self.goals.append(Goal(name, "discharged", "", 0.0, "identity"))
            return
        if isinstance(b, sym.Arr):
            if not isinstance(a, sym.Arr):
                self.goals.append(Goal(name, "failed", "not an array: %r" % (a,), 0.0, "z3"))
                return
            if self.shape(name + " (shape)", a, b.shape):
                self.forall(b.shape, lambda *i: self.eq(name, a.at(*i), b.at(*i)))
            return
        if isinstance(b, (bool, T.B)) and isinstance(a, (bool, T.B)):
            if isinstance(a, bool) and isinstance(b, bool):
                self.goals.append(Goal(name, "discharged" if a == b else "failed", "%r, expected %r" % (a, b), 0.0, "identity"))
                return
            self.eq(name, a, b)
            return
        if sym.is_scalar(a) and sym.is_scalar(b):
            self.eq(name, a, b)
            return
        self.goals.append(Goal(name, "discharged" if a is b else "failed", "%r, expected %r" % (type(a), type(b)), 0.0, "identity"))

    def frame(self):
        """no input array was written"""
        bad = [n for n, a, f in self.inputs if n != "callee result" and (a.buf.fn is not f or a.buf.nwrites)]
        self.goals.append(Goal("frame: arguments are not modified", "failed" if bad else "discharged", "written: " + ", ".join(bad) if bad else "", 0.0, "ownership"))

    def side(self):
        """bounds obligations and such met on the way"""
        seen = {}
        for nm, c, ctx in self.sym.ST.obligations:
            t0 = time.time()
            ok = ctx.decide(c) is True
            if not ok:
                try:
                    ok = ctx.decide(self.S.simp_b(c, ctx)) is True
                except (self.S.NeedSplit, self.S.Unknown):
                    pass
            g = seen.setdefault(nm, [0, 0, "", 0.0])
            g[0] += 1
            g[3] += time.time() - t0
            if not ok:
                g[1] += 1
                g[2] = repr(c)[:600] + " under " + repr(ctx.facts[-6:])[:600]
        for nm, g in seen.items():
            self.goals.append(Goal("%s (%d)" % (nm, g[0]), "failed" if g[1] else "discharged", g[2], g[3], "z3"))

    def raises(self, name, docs, base=None):
        """the function raises ValueError exactly under one of the documented conditions (list of conditions)"""
        T = self.T
        D = T.FALSE
        for c in docs:
            D = T.bor(D, c)
        for k, (ctx, kind, msg) in enumerate(self.ip.raises):
            if kind != "ValueError":
                self.goals.append(Goal(name + ": only ValueError", "failed", "%s %s" % (kind, msg), 0.0, "interpreter"))
                continue
            self.cond(name + ": raised only when documented [%s]" % msg[:50], D, ctx)
        for k, c in enumerate(docs):
            self.cond(name + ": documented condition %d is rejected" % k, T.bnot(c))
        import fullz3
        absurd, _ = fullz3.entails(self.sym.ST.ctx.facts, T.FALSE, 4000)
        self.goals.append(Goal(name + ": some input is accepted (not vacuous)", "failed" if absurd else "discharged", "the accepting context is contradictory", 0.0, "z3"))

    def cond(self, name, c, ctx=None):
        """a condition that may quantify over array elements"""
        t0 = time.time()
        ctx = ctx or self.sym.ST.ctx
        import fullz3
        try:
            ok = ctx.decide(c) is True or ctx.decide(self.S.simp_b(c, ctx)) is True
        except (self.S.NeedSplit, self.S.Unknown):
            ok = False
        why = None
        if not ok:
            ok, why = fullz3.entails(ctx.facts, c)
        self.goals.append(Goal(name, "discharged" if ok else "failed", "" if ok else "%s | %r" % (why, c), time.time() - t0, "z3"))

    def note(self, s):
        pass

    # ---- library values
    def pyfunc(self, src, name, **env):
        import ast
        m = self.IP.Mod("callback", ast.parse(src))
        m.env.d.update(env)
        for st in m.tree.body if hasattr(m, "tree") else ast.parse(src).body:
            self.ip.stmt(st, m.env, m)
        return m.env.d[name]

    def const(self, n):
        return self.T.rsym({"h": "planck_h", "c": "light_c", "k": "boltzmann_k"}[n])

    def gl(self, n):
        T = self.T
        n = T.I.of(n)
        return lambda i: T.ruf("GLx", (n, T.I.of(i))), lambda i: T.ruf("GLw", (n, T.I.of(i)))

    def integral(self, f, a, b):
        T = self.T
        return T.R("uf", "integral", (), (T.rl(f(T.rsym("%w"))), T.rl(a), T.rl(b)))

    def lagrange(self, n, nodes):
        """k-th Lagrange basis polynomial of the given nodes"""
        T = self.T
        key = self.NP.callkey("lagr", self.NP.probe(self.sym.new((T.I.of(n),), lambda i: T.rl(nodes(i)))))
        return lambda k, x: T.ruf(key, (T.I.of(k),), (T.rl(x),))

    def callback(self, name, fn):
        return fn

    def array(self, shape, fn):
        return self.sym.new(tuple(self.T.I.of(x) for x in shape), lambda *i: self.T.rl(fn(*i)))

    def intarray(self, shape, fn):
        return self.sym.new(tuple(self.T.I.of(x) for x in shape), lambda *i: self.T.I.of(fn(*i)), "i", True)

    def unique(self, l):
        return self.NP.unique(l, return_inverse=True)

    def elements(self, a):
        """element access to an array-like value given to a callback"""
        a = self.sym.arr_of(a)
        f = a.fn()
        return (lambda *i: f(*[self.T.I.of(x) for x in i])), a.shape

    def mod2(self, n):
        return self.T.I.of(n) % 2

    def isize(self, n):
        return self.T.I.of(n)


# ------------------------------------------------------------------------------------------------ concrete
class ConX:
    concrete = True

    def __init__(self, repo, seed, thorough=False):
        import sys
        import numpy as np
        self.np = np
        self.rng = np.random.default_rng(seed)
        self.goals = []
        self.inputs = []
        self.patched = []
        self.pi = math.pi
        self.thorough = thorough
        self.rules = []
        self.impure = []
        src = repo + "/src"
        if sys.path[0] != src:
            sys.path.insert(0, src)
        self.fail = {}
        self.count = {}
        self.sizes = {}

    def int(self, name, lo=1, hi=None):
        if name not in self.sizes:
            h = lo + 3 if hi is None else min(hi, lo + 3)
            self.sizes[name] = int(self.rng.integers(lo, h))
        return self.sizes[name]

    def arr(self, name, shape, kind="r", pos=False, lo=None, hi=None, gen=None, nonneg=False):
        if gen is not None:
            a = self.np.asarray(gen(self.rng, shape))
        elif kind == "i":
            a = self.rng.integers(lo or 0, hi, size=shape)
        elif pos:
            a = self.rng.uniform(0.3, 1.7, size=shape)
        else:
            a = self.rng.uniform(-1.2, 1.2, size=shape)
        self.inputs.append((name, a, a.copy()))
        return Acc(a, lambda *i: (int if kind == "i" else float)(a[i]), shape)

    def boundaries(self, n, gen=None):
        return self.arr("tau_arr", (n,), gen=gen)

    def defarr(self, shape, fn, kind="r"):
        np = self.np
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = fn(*i)
        self.inputs.append(("derived", a, a.copy()))
        return Acc(a, lambda *i: float(a[i]), shape)

    def real(self, name, pos=False, lo=None, hi=None):
        if lo is not None:
            return float(self.rng.uniform(lo, hi))
        return float(self.rng.uniform(0.3, 1.7) if pos else self.rng.uniform(-1.2, 1.2))

    def fresh_out(self, acc):
        a = acc.v.copy()
        self.inputs.append(("callee result", a, a.copy()))
        return a

    def assume(self, c):
        if not c:
            raise Skip()

    def zero(self, m):
        return m

    def modes(self, n, f):
        for m in range(n):
            f(m)

    def case(self, c, then, other=None):
        if c:
            then()
        elif other is not None:
            other()

    def cuts(self, *c):
        pass

    def atomic(self, *n):
        pass

    def sum(self, n, f, lo=0):
        return sum((f(k) for k in range(lo, n)), 0.0)

    def exp(self, x):
        return math.exp(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def r(self, x):
        return float(x)

    def ite(self, c, a, b):
        return a if c else b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    rlt = lt

    def req(self, a, b):
        return a == b

    def or_(self, *c):
        return any(c)

    def maxover(self, sizes, f):
        return max(f(*i) for i in self.np.ndindex(*sizes))

    def fresh_result(self, name, a):
        ok = not isinstance(a, self.np.ndarray) or not any(self.np.shares_memory(a, x) for _, x, _ in self.inputs)
        self._rec(name, ok, "aliases stored data")

    # ---- ownership
    def _arrs(self, v, out, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, self.np.ndarray):
            out.append(v)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self._arrs(x, out, seen)
        elif isinstance(v, dict):
            for x in v.values():
                self._arrs(x, out, seen)
        elif callable(v) and getattr(v, "__closure__", None):
            for c in v.__closure__:
                try:
                    self._arrs(c.cell_contents, out, seen)
                except ValueError:
                    pass

    def pcall(self, f, *args, **kw):
        st = []
        self._arrs(f, st, set())
        r = self.call(f, *args, **kw)
        got = []
        self._arrs(r, got, set())
        if any(self.np.shares_memory(x, y) for x in got for y in st):
            self.impure.append("a returned array shares memory with data created earlier")
        return r

    def pure(self):
        self._rec("evaluating a returned function changes no earlier array, list or dictionary and returns new memory only", not self.impure, "; ".join(dict.fromkeys(self.impure)))

    def _raw(self, a):
        return a.v if isinstance(a, Acc) else a

    def captures(self, fs, arrays, allowed):
        got = []
        self._arrs(tuple(fs), got, set())
        bad = [n for n, a in arrays.items() if n not in allowed and isinstance(self._raw(a), self.np.ndarray) and any(self.np.shares_memory(self._raw(a), x) for x in got)]
        self._rec("the returned functions keep none of the other arrays they were given", not bad, ", ".join(bad))

    def apart(self, name, a, b):
        x, y = [], []
        self._arrs(tuple(map(self._raw, a)), x, set())
        self._arrs(tuple(map(self._raw, b)), y, set())
        self._rec(name, not any(self.np.shares_memory(p, q) for p in x for q in y), "shared memory")

    def ieq(self, a, b):
        return a == b

    def and_(self, *c):
        return all(c)

    def not_(self, c):
        return not c

    def any(self, n, f, lo=0):
        return any(f(k) for k in range(lo, n))

    def uf(self, name, iargs=(), rargs=(), conc=None):
        if conc is None:
            raise Skip()
        return conc(*iargs, *rargs)

    def layer(self, n, f):
        for i in range(n):
            if f(i):
                return i
        return 0

    def pow(self, x, n):
        return x ** n

    def fn(self, module, name):
        import importlib
        return getattr(importlib.import_module("PythonicDISORT." + module), name)

    def call(self, f, *args, **kw):
        un = lambda x: x.v if isinstance(x, Acc) else x
        import warnings
        with warnings.catch_warnings(), self.np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return f(*[un(a) for a in args], **{k: un(a) for k, a in kw.items()})

    def stub(self, name, model):
        import importlib, inspect
        for m in ("subroutines", "_solve_for_gen_and_part_sols", "_solve_for_coeffs", "_assemble_intensity_and_fluxes", "pydisort"):
            mod = importlib.import_module("PythonicDISORT." + m)
            if hasattr(mod, name):
                f = getattr(mod, name)
                sig = inspect.signature(f)

                def g(*a, _sig=sig, **k):
                    b = _sig.bind(*a, **k)
                    b.apply_defaults()
                    return model(dict(b.arguments))
                self.patched.append((mod, name, f))
                setattr(mod, name, g)

    def restore(self):
        for mod, name, f in reversed(self.patched):
            setattr(mod, name, f)

    def shape(self, name, a, shape):
        s = self.np.shape(a)
        ok = tuple(s) == tuple(shape)
        self._rec(name, ok, "shape %r, expected %r" % (s, tuple(shape)))
        return ok

    def at(self, a, *i):
        v = a[tuple(i)] if i else a
        v = self.np.asarray(v)
        return v.item() if v.ndim == 0 else v

    def forall(self, sizes, body):
        for i in self.np.ndindex(*[int(s) for s in sizes]):
            body(*i)

    def _rec(self, name, ok, det):
        self.count[name] = self.count.get(name, 0) + 1
        if not ok and name not in self.fail:
            self.fail[name] = det

    def eq(self, name, actual, spec, rules=None):
        if isinstance(spec, (bool,)) or isinstance(actual, bool):
            self._rec(name, bool(actual) == bool(spec), "%r, expected %r" % (actual, spec))
            return
        a, b = float(actual), float(spec)
        ok = abs(a - b) <= 1e-6 * (1 + max(abs(a), abs(b)))
        self._rec(name, ok, "%r, expected %r" % (a, b))

    def eqmod(self, name, actual, spec, certs):
        self.eq(name, actual, spec)

    def either(self, *alts):
        alts[0]()

    def holds(self, name, c, ctx=None):
        self._rec(name, bool(c), "false")

    def same(self, name, a, b):
        b = b.v if isinstance(b, Acc) else b
        np = self.np
        if a is b:
            return self._rec(name, True, "")
        if callable(b) or b is None or isinstance(b, (list, str)):
            return self._rec(name, a is b or a == b, "%r, expected %r" % (a, b))
        try:
            ok = np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12)
        except Exception:
            ok = False
        self._rec(name, bool(ok), "%r, expected %r" % (a, b))

    def frame(self):
        np = self.np
        bad = [n for n, a, c in self.inputs if n != "callee result" and not np.array_equal(a, c)]
        self._rec("frame: arguments are not modified", not bad, "written: " + ", ".join(bad))

    def side(self):
        pass

    def raises(self, name, docs, base=None):
        pass

    def note(self, s):
        pass

    # ---- library values
    def pyfunc(self, src, name, **env):
        d = dict(env)
        exec(src, d)
        return d[name]

    def const(self, n):
        import scipy.constants as k
        return getattr(k, n)

    def gl(self, n):
        x, w = self.np.polynomial.legendre.leggauss(int(n))
        return lambda i: float(x[i]), lambda i: float(w[i])

    def integral(self, f, a, b):
        import scipy.integrate as si
        return si.quad(f, a, b, epsabs=0, epsrel=1e-10)[0]

    def lagrange(self, n, nodes):
        xs = [float(nodes(i)) for i in range(n)]

        def L(k, x):
            r = 1.0
            for j in range(n):
                if j != k:
                    r *= (x - xs[j]) / (xs[k] - xs[j])
            return r
        return L

    def array(self, shape, fn):
        a = self.np.empty(tuple(int(x) for x in shape))
        for i in self.np.ndindex(*a.shape):
            a[i] = fn(*i)
        return a

    def intarray(self, shape, fn):
        return self.np.array([fn(i) for i in range(shape[0])], dtype=int)

    def unique(self, l):
        return tuple(self.np.unique(l, return_inverse=True))

    def elements(self, a):
        a = self.np.asarray(a)
        return (lambda *i: float(a[i])), a.shape

    def mod2(self, n):
        return n % 2
