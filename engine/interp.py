"""Interpreter of the real source (Python ast of /repo/src/PythonicDISORT) over symbolic values.

Nothing is dropped from the source except docstrings, `warnings.warn` and `print` calls. Statements or library calls that are
not modelled raise Unsupported: the obligations that need them are then undecided (never reported as violated).
"""
import ast, os
from sym import *
import sym
import npmodel as NP
import solver as S
import terms as T
import loops

NORMAL, RETURN, RAISE = "normal", "return", "raise"


class Poison:
    def __init__(self, why):
        self.why = why


class Func:
    def __init__(self, node, closure, module, name=None, defaults=None, kwdefaults=None):
        self.node, self.closure, self.module = node, closure, module
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}


class Env:
    def __init__(self, parent=None, module=None):
        self.d = {}
        self.args = ()
        self.parent, self.module = parent, module

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        return None

    def has(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return True
            e = e.parent
        return False


class Mod:
    """a module of the package"""

    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.env = Env()

    def attr(self, n):
        if n not in self.env.d:
            raise Unsupported("%s has no %s" % (self.name, n))
        return self.env.d[n]


class Interp:
    def __init__(self, repo, contracts=None):
        self.src = os.path.join(repo, "src", "PythonicDISORT")
        self.lib = NP.make(self.call)
        self.mods = {}
        self.contracts = contracts or {}   # function name -> model replacing the call
        self.raises = []                   # (ctx facts, kind, message)
        self.depth = 0
        self.called = set()
        self.merging = 0

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, name + ".py")
        if not os.path.exists(path):
            raise Unsupported("no module " + name)
        tree = ast.parse(open(path, newline="").read().replace("\r\n", "\n"))
        m = Mod(name, tree)
        self.mods[name] = m
        for st in tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.stmt(st, m.env, m)
        return m

    def imp(self, name):
        if name in self.lib:
            return self.lib[name]
        if name == "PythonicDISORT":
            return NP.Obj(subroutines=self.module("subroutines"))
        if name.startswith("PythonicDISORT."):
            return self.module(name.split(".", 1)[1])
        raise Unsupported("import " + name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            c = self.contracts.get(f.name)
            if c is not None:
                return c(self, args, kw, f)
            return self.call_func(f, args, kw)
        if callable(f):
            return f(*args, **kw)
        if hasattr(f, "sym_call"):
            return f.sym_call(args, kw)
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments for " + f.name)
            d[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in d:
                    raise PyRaise("TypeError", "multiple values for " + k)
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected keyword " + k)
        if a.kwarg is not None:
            d[a.kwarg.arg] = extra
        for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
            d.setdefault(n, v)
        for n, v in f.kwdefaults.items():
            d.setdefault(n, v)
        for n in names + kwn:
            if n not in d:
                raise PyRaise("TypeError", "missing argument " + n)
        return d

    def call_func(self, f, args, kw):
        self.called.add(f.name)
        env = Env(f.closure, f.module)
        env.d.update(self.bind(f, args, kw))
        env.args = [v for v in env.d.values() if isinstance(v, (list, dict, GuardedList, loops.TailList))]
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            out, val = self.block(f.node.body, env, f.module)
            if out == RAISE:
                raise PyRaise(*val)
            return val if out == RETURN else None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, mod):
        for k, st in enumerate(stmts):
            if isinstance(st, ast.If):
                c = self.truth(self.ev(st.test, env))
                if isinstance(c, bool):
                    out = self.block(st.body if c else st.orelse, env, mod)
                    if out[0] != NORMAL:
                        return out
                    continue
                out = self.sym_if(c, st, stmts[k + 1:], env, mod)
                if out is not None:
                    return out
                continue
            out = self.stmt(st, env, mod)
            if out[0] != NORMAL:
                return out
        return NORMAL, None

    def snapshot(self):
        return {b: b.fn for b in ST.heap}

    def restore(self, s):
        for b, f in s.items():
            b.fn = f

    def sym_if(self, c, st, rest, env, mod):
        """if with an undecided condition: run both arms and merge. Returns an outcome if the block ends here, else None"""
        ctx0 = ST.ctx
        heap0 = self.snapshot()
        env0 = dict(env.d)
        outer = outer_state(env)

        def arm(cond, body):
            ST.ctx = ctx0.add(cond)
            self.restore(heap0)
            env.d = {k: (list(v) if type(v) is list else v.copy() if isinstance(v, (GuardedList, loops.TailList)) else v) for k, v in env0.items()}
            self.merging += 1
            try:
                if not ST.ctx.feasible():
                    return (RAISE, ("infeasible", "")), None, None, ST.ctx
                try:
                    out = self.block(body, env, mod)
                except PyRaise as e:
                    out = (RAISE, (e.kind, e.msg))
            finally:
                self.merging -= 1
            check_outer(outer, env, env0, env.d)
            return out, env.d, self.snapshot(), ST.ctx
        o1, e1, h1, c1 = arm(c, st.body)
        if o1[0] == RAISE and o1[1][0] != "infeasible":
            self.raises.append((c1, o1[1][0], o1[1][1]))
        o2, e2, h2, c2 = arm(bnot(c), st.orelse)
        if o2[0] == RAISE and o2[1][0] != "infeasible":
            self.raises.append((c2, o2[1][0], o2[1][1]))
        if o1[0] == RAISE and o2[0] == RAISE:
            return o1 if o1[1][0] != "infeasible" else o2
        if o1[0] == RAISE or o2[0] == RAISE:
            o, e, h, cc = (o2, e2, h2, c2) if o1[0] == RAISE else (o1, e1, h1, c1)
            env.d = e
            self.restore(h)
            ST.ctx = cc
            return o if o[0] == RETURN else None
        if o1[0] == RETURN or o2[0] == RETURN:
            # continue the other arm with the rest of the block
            def finish(o, e, h, cc):
                if o[0] == RETURN:
                    return o, h
                env.d = e
                self.restore(h)
                ST.ctx = cc
                oo = self.block(rest, env, mod)
                if oo[0] == NORMAL:
                    raise Unsupported("conditional return in a nested block")
                return oo, self.snapshot()
            (r1, h1), (r2, h2) = finish(o1, e1, h1, c1), finish(o2, e2, h2, c2)
            ST.ctx = ctx0
            self.merge_heap(c, h1, h2)
            if r1[0] == RAISE:
                return r2
            if r2[0] == RAISE:
                return r1
            return RETURN, self.merge(c, r1[1], r2[1])
        # what each arm established (an arm that goes on has not raised)
        cx = ctx0
        for cond, ci in ((c, c1), (bnot(c), c2)):
            base = ctx0.add(cond)
            new_ = ci.facts[len(base.facts):] if ci.facts[:len(base.facts)] == base.facts else ()
            for f in new_:
                cx = cx.add(bor(bnot(cond), f))
        ST.ctx = cx
        self.merge_heap(c, h1, h2)
        d = {}
        for n in set(e1) | set(e2):
            if n in e1 and n in e2:
                d[n] = self.merge(c, e1[n], e2[n])
            else:
                d[n] = CondDef(c if n in e1 else bnot(c), e1[n] if n in e1 else e2[n])
        env.d = d
        return None

    def merge_heap(self, c, h1, h2):
        for b in set(h1) | set(h2):
            f1, f2 = h1.get(b), h2.get(b)
            if f1 is None or f2 is None:
                b.fn = f1 or f2
            elif f1 is f2:
                b.fn = f1
            else:
                b.fn = memo(lambda *i, f1=f1, f2=f2: ite(c, f1(*i), f2(*i)))

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, CondDef) or isinstance(b, CondDef):
            def un(v, cond):
                return (v.cond, v.val) if isinstance(v, CondDef) else (TRUE, v)
            (ca, va), (cb, vb) = un(a, c), un(b, bnot(c))
            return CondDef(bor(band(c, ca), band(bnot(c), cb)), self.merge(c, va, vb))
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return ite(c, conv(a, "b"), conv(b, "b"))
        if is_scalar(a) and is_scalar(b):
            if type(a) is type(b) and not isinstance(a, T.Node) and a == b:
                return a
            k = NP.promote(a, b)
            return ite(c, conv(a, "i" if k == "i" else "r"), conv(b, "i" if k == "i" else "r"))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim == b.ndim and all(dimeq(x, y) for x, y in zip(a.shape, b.shape)):
                f, g = a.fn(), b.fn()
                k = NP.promote(a, b)
                r = new(a.shape, lambda *i: ite(c, conv(f(*i), k), conv(g(*i), k)), k, a.nonneg and b.nonneg)
                r.buf.origin = "frozen"
                r.buf.sources = (a.buf, b.buf)
                return r
            return Poison("merge of arrays of different shape")
        if isinstance(a, (Arr, int, float, R, I)) and isinstance(b, (Arr, int, float, R, I)):
            # scalar versus array: broadcast the scalar
            ar, s, fl = (a, b, False) if isinstance(a, Arr) else (b, a, True)
            f = ar.fn()
            r = new(ar.shape, lambda *i: (ite(c, rl(s), rl(f(*i))) if fl else ite(c, rl(f(*i)), rl(s))), "r")
            r.buf.origin = "frozen"
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, loops.TailList) and isinstance(b, loops.TailList):
            g = merge_lists(c, a, b)
            t = loops.TailList()
            t.segs = list(g.segs)
            return t
        if isinstance(a, IndexList) or isinstance(b, IndexList):
            x = a.index_list() if isinstance(a, GuardedList) else a
            y = b.index_list() if isinstance(b, GuardedList) else b
            if x is y:
                return x
            # a list without its first n members and the list itself where n is zero
            for u, v, cv in ((x, y, bnot(c)), (y, x, c)):
                if isinstance(u, IndexList) and u.parent is v and ST.ctx.add(cv).decide(le(u.shift, 0)) is True:
                    return u
            return Poison("merge of index lists")
        if isinstance(a, GuardedList) or isinstance(b, GuardedList) or (type(a) is list and type(b) is list):
            return merge_lists(c, a, b)
        if a == b and not isinstance(a, (Arr,)):
            return a
        return Poison("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, B):
            d = decide(v)
            if d is None:
                try:
                    v2 = S.simp_b(v, ST.ctx)
                except (S.NeedSplit, S.Unknown):
                    return v
                d = decide(v2)
                if d is None:
                    return v2
            return d
        if v is None:
            return False
        if isinstance(v, (int, float, str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, (I, R)):
            return self.truth(NP.truthy(v))
        if isinstance(v, Arr):
            if v.shape == () or all(s is ONE for s in v.shape):
                return self.truth(NP.truthy(v.at(*[ZERO] * v.ndim)))
            raise Unsupported("truth value of an array")
        if isinstance(v, (Func, NP.Obj)):
            return True
        raise Unsupported("truth value of %r" % (v,))

    def stmt(self, st, env, mod):
        t = type(st)
        if t is ast.Expr:
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, env)
        elif t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                self.assign(tg, v, env)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif t is ast.AugAssign:
            self.aug(st, env)
        elif t is ast.Return:
            return RETURN, (self.ev(st.value, env) if st.value is not None else None)
        elif t is ast.If:
            return self.block([st], env, mod)
        elif t is ast.Raise:
            return RAISE, self.exc(st, env)
        elif t is ast.FunctionDef:
            env.d[st.name] = self.mkfunc(st, env, mod)
        elif t is ast.Import:
            for a in st.names:
                m = self.imp(a.name)
                env.d[a.asname or a.name.split(".")[0]] = m
        elif t is ast.ImportFrom:
            m = self.imp(st.module)
            for a in st.names:
                n = a.name
                if n == "*":
                    raise Unsupported("import *")
                env.d[a.asname or n] = m.attr(n)
        elif t is ast.For:
            return self.for_(st, env, mod)
        elif t is ast.While:
            return self.while_(st, env, mod)
        elif t is ast.Pass:
            pass
        elif t is ast.Assert:
            c = self.truth(self.ev(st.test, env))
            if c is False:
                return RAISE, ("AssertionError", "")
            if c is not True:
                raise Unsupported("assert")
        elif t is ast.With:
            raise Unsupported("with")
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    env.d.pop(tg.id, None)
        elif t is ast.Try:
            raise Unsupported("try")
        else:
            raise Unsupported(t.__name__)
        return NORMAL, None

    def exc(self, st, env):
        e = st.exc
        if isinstance(e, ast.Call):
            msg = ""
            if e.args and isinstance(e.args[0], ast.Constant):
                msg = str(e.args[0].value)
            return (e.func.id if isinstance(e.func, ast.Name) else "Exception", msg)
        if isinstance(e, ast.Name):
            return (e.id, "")
        return ("Exception", "")

    def mkfunc(self, node, env, mod):
        a = node.args
        defaults = [self.ev(x, env) for x in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, env, mod, None, defaults, kwd)

    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            env.d[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, Arr):
                n = v.shape[0].const()
                if n != len(tg.elts):
                    raise Unsupported("unpacking an array")
                v = tuple(getitem(v, k) for k in range(n))
            if isinstance(v, SymSeq):
                raise Unsupported("unpacking")
            if len(v) != len(tg.elts):
                raise PyRaise("ValueError", "unpack")
            for x, y in zip(tg.elts, v):
                self.assign(x, y, env)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, env)
            k = self.key(tg.slice, env)
            if isinstance(o, Arr):
                setitem(o, k, v)
            elif isinstance(o, NP.Sparse):
                setitem(o.a, k, v)
            elif isinstance(o, (list, dict)):
                o[plain_key(k)] = v
            else:
                raise Unsupported("item assignment")
        else:
            raise Unsupported("assignment target")

    def aug(self, st, env):
        op = type(st.op).__name__
        tg = st.target
        v = self.ev(st.value, env)
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, env)
            if isinstance(cur, Arr):
                r = binop(op, cur, v)
                setitem(cur, Ellipsis, r)
            elif isinstance(cur, (tuple, list)) and op == "Add":
                env.d[tg.id] = cur + v
            elif isinstance(cur, str):
                env.d[tg.id] = cur + v
            else:
                env.d[tg.id] = self.bin(op, cur, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, env)
            k = self.key(tg.slice, env)
            cur = getitem(o, k)
            r = binop(op, cur, v)
            setitem(o, k, r)
        else:
            raise Unsupported("augmented assignment")

    # ------------------------------------------------------------ loops
    def for_(self, st, env, mod):
        it = self.ev(st.iter, env)
        if st.orelse:
            raise Unsupported("for-else")
        if isinstance(it, Arr):
            if it.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            it = sequence(it)
        if isinstance(it, SymSeq):
            return loops.summarise(self, st, SymRange(0, it.length), env, mod, it.get)
        if isinstance(it, SymRange):
            n = it.hi - it.lo
            if n.const() is not None and n.const() <= 16:
                it = [it.lo + k for k in range(max(0, n.const()))]
                it = [x.const() if isinstance(x, I) and x.const() is not None else x for x in it]
            else:
                return loops.summarise(self, st, it, env, mod)
        if isinstance(it, (range, list, tuple, zip, enumerate, dict)) or hasattr(it, "__next__"):
            for x in it:
                self.assign(st.target, x, env)
                out = self.block(st.body, env, mod)
                if out[0] != NORMAL:
                    return out
            return NORMAL, None
        raise Unsupported("loop over %r" % (it,))

    def while_(self, st, env, mod):
        return loops.while_(self, st, env, mod)

    # ------------------------------------------------------------ expressions
    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e.d:
                v = e.d[n]
                if isinstance(v, Poison):
                    raise Unsupported("%s: %s" % (n, v.why))
                if isinstance(v, CondDef):
                    d = decide(v.cond)
                    if d is True or d is None and decide(S.simp_b(v.cond, ST.ctx)) is True:
                        return v.val
                    raise Unsupported("%s may be undefined" % n)
                return v
            e = e.parent
        if n in BUILTINS:
            return BUILTINS[n](self)
        raise PyRaise("NameError", n)

    def key(self, k, env):
        if isinstance(k, ast.Tuple):
            return tuple(self.key(x, env) for x in k.elts)
        if isinstance(k, ast.Slice):
            f = lambda x: None if x is None else self.toint(self.ev(x, env))
            return slice(f(k.lower), f(k.upper), f(k.step))
        v = self.ev(k, env)
        if isinstance(v, GuardedList):
            v = v.index_list()
        return v

    def toint(self, v):
        if isinstance(v, Arr) and v.shape == ():
            v = v.at()
        if isinstance(v, I) and v.const() is not None:
            return v.const()
        if isinstance(v, (int, I)) or v is None:
            return v
        if isinstance(v, B):
            return iite(v, 1, 0)
        raise Unsupported("slice bound %r" % (v,))

    def ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.lookup(e.id, env)
        if t is ast.BinOp:
            return self.bin(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.USub):
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    return -v
                return binop("Mult", -1, v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                c = self.truth(v)
                return (not c) if isinstance(c, bool) else bnot(c)
            if isinstance(e.op, ast.Invert):
                if isinstance(v, Arr) and v.kind == "b":
                    return elementwise(lambda x: bnot(x), "b", v)
                if isinstance(v, B):
                    return bnot(v)
                raise Unsupported("~")
        if t is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            acc = None
            ctx0 = ST.ctx
            try:
                for x in e.values:
                    v = self.ev(x, env)
                    c = self.truth(v)
                    if isinstance(c, bool):
                        if isand and not c:
                            return False if acc is None else FALSE if False else False
                        if not isand and c:
                            return True
                        last = v
                    else:
                        acc = c if acc is None else (band(acc, c) if isand else bor(acc, c))
                        # short circuit: later operands are evaluated under this one
                        ST.ctx = ST.ctx.add(c if isand else bnot(c))
                        last = None
            finally:
                ST.ctx = ctx0
            if acc is not None:
                return acc
            return isand
        if t is ast.Compare:
            left = self.ev(e.left, env)
            res = None
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, env)
                c = self.cmp(type(op).__name__, left, right)
                res = c if res is None else self.andv(res, c)
                left = right
            return res
        if t is ast.Call:
            return self.call_expr(e, env)
        if t is ast.Attribute:
            return self.attr(self.ev(e.value, env), e.attr)
        if t is ast.Subscript:
            o = self.ev(e.value, env)
            k = self.key(e.slice, env)
            if isinstance(o, (list, tuple, str, dict)):
                if isinstance(k, I):
                    if k.const() is None:
                        return self.symindex(o, k)
                    k = k.const()
                if isinstance(o, dict):
                    k = plain_key(k)
                    if k not in o:
                        raise PyRaise("KeyError", str(k))
                return o[k]
            if isinstance(o, GuardedList):
                o = o.index_list()
            if isinstance(o, (Arr, IndexList, SymSeq)):
                return getitem(o, k)
            if isinstance(o, R):
                if k == () or k is Ellipsis:
                    return o
            if is_scalar(o) and k == ():
                return o
            raise Unsupported("subscript of %r" % (type(o),))
        if t is ast.Tuple:
            return tuple(self.elts(e.elts, env))
        if t is ast.List:
            return list(self.elts(e.elts, env))
        if t is ast.IfExp:
            c = self.truth(self.ev(e.test, env))
            if isinstance(c, bool):
                return self.ev(e.body if c else e.orelse, env)
            ctx0 = ST.ctx
            try:
                ST.ctx = ctx0.add(c)
                a = self.ev(e.body, env)
                ST.ctx = ctx0.add(bnot(c))
                b = self.ev(e.orelse, env)
            finally:
                ST.ctx = ctx0
            r = self.merge(c, a, b)
            if isinstance(r, Poison):
                raise Unsupported(r.why)
            return r
        if t is ast.Lambda:
            return self.mkfunc(e, env, None)
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.comp(e, env)
        if t is ast.JoinedStr:
            return "<fstring>"
        if t is ast.Dict:
            return {plain_key(self.ev(k, env)): self.ev(v, env) for k, v in zip(e.keys, e.values)}
        if t is ast.Starred:
            raise Unsupported("starred")
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            env.d[e.target.id] = v
            return v
        raise Unsupported(t.__name__)

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def symindex(self, o, k):
        raise Unsupported("symbolic index into a list")

    def andv(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return binop("BitAnd", a, b)

    def cmp(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = (a is b) if not (isinstance(a, bool) or isinstance(b, bool)) else (a == b and type(a) is type(b))
            if (a is None) != (b is None):
                r = False
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, (list, tuple, dict, str)) and not symbolic(a) and not symbolic(tuple(b)):
                return (a in b) if op == "In" else (a not in b)
            raise Unsupported("in")
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ("Eq", "NotEq"):
            if len(a) != len(b):
                return op == "NotEq"
            c = TRUE
            for x, y in zip(a, b):
                r = compare("Eq", x, y)
                c = band(c, conv(r, "b") if isinstance(r, (bool, B)) else r)
            c = c if op == "Eq" else bnot(c)
            return self.simpb(c)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if op == "Eq":
                return a == b
            if op == "NotEq":
                return a != b
            raise Unsupported("comparison")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
        if isinstance(a, NP.IntExt) or isinstance(b, NP.IntExt):
            if isinstance(a, NP.IntExt) and isinstance(b, NP.IntExt):
                raise Unsupported("comparison of integer extrema")
            flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
            return self.simpb(a.cmp(op, b) if isinstance(a, NP.IntExt) else b.cmp(flip.get(op, op), a))
        r = compare(op, a, b)
        return self.simpb(r) if isinstance(r, B) else r

    def simpb(self, c):
        return True if c is TRUE else (False if c is FALSE else c)

    def bin(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            from fractions import Fraction
            if op == "Div":
                return rl(a) / rl(b) if not (isinstance(a, bool)) else rl(a) / rl(b)
            if isinstance(a, float) or isinstance(b, float):
                return binop(op, rl(a) if isinstance(a, float) else a, rl(b) if isinstance(b, float) and op != "Pow" else b)
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                    "Pow": lambda: a ** b if b >= 0 else rpow(rl(a), b)}[op]()
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (tuple, list)) and isinstance(b, type(a)) and op == "Add":
            return a + b
        if isinstance(a, str) or isinstance(b, str):
            return "<str>"
        if isinstance(a, list) and op == "Mult" and isinstance(b, int):
            return a * b
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, (Arr, list, tuple, IndexList))):
                raise Unsupported("operand %r" % (type(x),)) if x is not None else PyRaise("TypeError", "None operand")
        return binop(op, a, b)

    def attr(self, o, n):
        if isinstance(o, Arr):
            return NP.arr_attr(o, n)
        if isinstance(o, GuardedList):
            return o.attr(n)
        if isinstance(o, (NP.Module, NP.Obj, Mod, NP.Bary, NP.Sparse)):
            return o.attr(n)
        if is_scalar(o):
            if n == "copy":
                return lambda: o
            if n == "item":
                return lambda: o
            if n == "shape":
                return ()
            if n == "ndim":
                return 0
            if n == "squeeze":
                return lambda: o
        if isinstance(o, list):
            if n == "append":
                return lambda x: o.append(x)
            if n == "extend":
                return lambda x: o.extend(x)
        if isinstance(o, Func) and n == "__code__":
            return NP.Obj(co_argcount=len(o.node.args.args))
        if hasattr(o, "attr"):
            return o.attr(n)
        if isinstance(o, str) and n in ("format", "join"):
            return lambda *a, **k: "<str>"
        if isinstance(o, dict) and n in ("items", "keys", "values", "copy"):
            return getattr(o, n)
        if isinstance(o, dict) and n in ("get", "setdefault", "pop"):
            return lambda k, *a: getattr(o, n)(plain_key(k), *a)
        raise Unsupported("attribute %s of %s" % (n, type(o).__name__))

    def call_expr(self, e, env):
        if isinstance(e.func, ast.Attribute) and e.func.attr == "append" and isinstance(e.func.value, ast.Name):
            o = self.lookup(e.func.value.id, env)
            if isinstance(o, (list, GuardedList, loops.TailList)):
                v = self.ev(e.args[0], env)
                if isinstance(o, list):
                    o.append(v)
                else:
                    o.append(v)
                return None
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        args = [a.index_list() if isinstance(a, GuardedList) and not isinstance(f, Builtin) else a for a in args]
        site = ST.site
        ST.site = site + (id(e),)
        try:
            return self.call(f, args, kw)
        finally:
            ST.site = site

    def comp(self, e, env):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("comprehension")
        g = e.generators[0]
        it = self.ev(g.iter, env)
        if isinstance(it, SymRange):
            n = it.hi - it.lo
            if n.const() is not None:
                it = [it.lo + k for k in range(n.const())]
            else:
                lo = it.lo

                def get(k, lo=lo):
                    e2 = Env(env)
                    self.assign(g.target, lo + k, e2)
                    return self.ev(e.elt, e2)
                return SymSeq(n, get)
        if isinstance(it, Arr):
            n = it.shape[0]
            it = SymSeq(n, lambda k, a=it: sym.row(a, k)) if n.const() is None else [getitem(it, k) for k in range(n.const())]
        if isinstance(it, SymSeq):
            src = it

            def get2(k):
                e2 = Env(env)
                self.assign(g.target, src.get(k), e2)
                return self.ev(e.elt, e2)
            return SymSeq(it.length, get2)
        out = []
        for x in it:
            e2 = Env(env)
            self.assign(g.target, x, e2)
            out.append(self.ev(e.elt, e2))
        return out


def symbolic(k):
    """does a value used as a key contain anything that is not a plain Python constant?"""
    if isinstance(k, tuple):
        return any(symbolic(x) for x in k)
    return not (k is None or isinstance(k, (str, bytes, bool, int, float, complex)))


def plain_key(k):
    if isinstance(k, I) and k.const() is not None:
        return k.const()
    if isinstance(k, tuple):
        return tuple(plain_key(x) for x in k)
    if symbolic(k):
        raise Unsupported("dictionary or list key that is not a constant")
    return k


def _content(o):
    if isinstance(o, dict):
        return list(o.items())
    return list(o.segs) if hasattr(o, "segs") else list(o)


def outer_state(env):
    """lists and dictionaries that a conditional arm or a loop body could change behind the back of the merge: those of the
    enclosing functions and the module, dictionaries of the function itself, and lists nested in containers"""
    LT = (list, dict, GuardedList, loops.TailList)
    out, seen = [], set()

    def go(v, direct):
        if isinstance(v, LT):
            if id(v) in seen:
                return
            if isinstance(v, dict) or not direct:
                seen.add(id(v))
                out.append((v, _content(v)))
            if isinstance(v, (list, dict)):
                for x in (v.values() if isinstance(v, dict) else v):
                    go(x, False)
        elif isinstance(v, tuple):
            for x in v:
                go(x, False)
        elif isinstance(v, Func):
            for x in list(v.defaults) + list(v.kwdefaults.values()):
                go(x, False)
    for v in list(env.d.values()):
        go(v, True)
    e = env.parent
    while e is not None:
        for v in list(e.d.values()):
            go(v, False)
        e = e.parent
    if env.module is not None:
        for v in list(env.module.env.d.values()):
            go(v, False)
    return out


def check_outer(outer, env, env0, env1):
    for o, c in outer:
        n = _content(o)
        if len(n) != len(c) or any((x is not y) if not isinstance(x, tuple) else (len(x) != len(y) or any(a is not b for a, b in zip(x, y))) for x, y in zip(n, c)):
            raise Unsupported("a list or dictionary of an enclosing scope is changed under a condition or in a loop")
    ids = {}
    for n, v in env0.items():
        if isinstance(v, (list, GuardedList, loops.TailList)):
            ids.setdefault(id(v), []).append(n)
    for i, ns in ids.items():
        v = env0[ns[0]]
        if len(ns) > 1 or any(v is x for x in env.args):
            for n in ns:
                w = env1.get(n)
                if isinstance(w, (list, GuardedList, loops.TailList)) and len(_content(w)) != len(_content(v)):
                    raise Unsupported("a list shared with the caller or another name is changed under a condition or in a loop")


class CondDef:
    """a name that is bound only under a condition"""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = I.of(lo), I.of(hi)


class GuardedList:
    """list built by appends under conditions inside loops: segments of (loop variables with ranges, condition, value)"""

    def __init__(self, segs):
        self.segs = list(segs)
        self._il = None

    def append(self, v):
        self.segs.append(([], TRUE, v))
        self._il = None

    def copy(self):
        return GuardedList(self.segs)

    def attr(self, n):
        raise Unsupported("list." + n)

    def index_list(self):
        if self._il is None:
            self._il = loops.to_index_list(self)
        return self._il


def merge_lists(c, a, b):
    sa = a.segs if isinstance(a, (GuardedList, loops.TailList)) else [([], TRUE, x) for x in a]
    sb = b.segs if isinstance(b, (GuardedList, loops.TailList)) else [([], TRUE, x) for x in b]
    k = 0
    while k < len(sa) and k < len(sb) and (sa[k] is sb[k] or (sa[k][0] == sb[k][0] and sa[k][1] is sb[k][1] and sa[k][2] is sb[k][2])):
        k += 1
    ra, rb = sa[k:], sb[k:]
    segs = list(sa[:k])
    segs += [(v, band(c, g), x) for v, g, x in ra]
    segs += [(v, band(bnot(c), g), x) for v, g, x in rb]
    if len(ra) and len(rb):
        raise Unsupported("both branches append")
    if not ra and not rb:
        return a
    return GuardedList(segs)


class Builtin:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def b_len(x):
    if isinstance(x, GuardedList):
        if x._il is None and all(not v and g is TRUE for v, g, _ in x.segs):
            return len(x.segs)
        return x.index_list().length
    if isinstance(x, (IndexList, SymSeq)):
        return NP.norm_dim(x.length)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        return NP.norm_dim(x.shape[0])
    if is_scalar(x):
        raise PyRaise("TypeError", "len() of unsized object")
    return len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(*a)
    if I.of(a[2]).const() == 1:
        return SymRange(a[0], a[1])
    raise Unsupported("range with a step")


def b_int(x):
    if isinstance(x, (int, I)):
        return x
    if isinstance(x, B):
        return iite(x, 1, 0)
    if isinstance(x, R) and x.op == "int":
        return x.a[0]
    raise Unsupported("int()")


def b_map(interp):
    def m(f, xs):
        if isinstance(xs, Arr):
            n = xs.shape[0]
            return SymSeq(n, lambda k: interp.call(f, [sym.row(xs, k)], {}))
        if isinstance(xs, SymSeq):
            return SymSeq(xs.length, lambda k: interp.call(f, [xs.get(k)], {}))
        return [interp.call(f, [x], {}) for x in xs]
    return m


def b_minmax(op):
    def f(*a):
        if len(a) == 1:
            a = a[0]
        if all(isinstance(x, (int, float)) for x in a):
            return (max if op == "max" else min)(a)
        if all(isinstance(x, (int, I)) for x in a):
            r = I.of(a[0])
            for x in a[1:]:
                r = iite(le(x, r) if op == "max" else le(r, x), r, x)
            return r
        return NP.np_max(list(a), None, op)
    return f


def b_sum(x):
    raise Unsupported("sum()")


BUILTINS = {
    "len": lambda i: Builtin(b_len), "range": lambda i: b_range, "int": lambda i: IntType(), "map": b_map, "abs": lambda i: NP.absv,
    "print": lambda i: (lambda *a, **k: None), "float": lambda i: NP.DType("float"), "bool": lambda i: bool, "tuple": lambda i: tuple,
    "list": lambda i: (lambda x=(): x if isinstance(x, SymSeq) else list(x)), "zip": lambda i: b_zip, "enumerate": lambda i: b_enum, "max": lambda i: b_minmax("max"), "min": lambda i: b_minmax("min"),
    "ValueError": lambda i: "ValueError", "True": lambda i: True, "False": lambda i: False, "None": lambda i: None, "str": lambda i: (lambda *a: "<str>"),
    "slice": lambda i: slice, "isinstance": lambda i: b_isinstance, "Ellipsis": lambda i: Ellipsis, "sum": lambda i: b_sum, "callable": lambda i: b_callable,
}


def sequence(x):
    """a sequence with a known number of members as a python list, any other as a SymSeq"""
    if isinstance(x, SymRange):
        lo, n = x.lo, x.hi - x.lo
        return [lo + k for k in range(max(0, n.const()))] if n.const() is not None else SymSeq(iite(le(n, 0), ZERO, n), lambda k: lo + k)
    if isinstance(x, Arr):
        n = x.shape[0]
        return [sym.row(x, k) for k in range(n.const())] if n.const() is not None else SymSeq(n, lambda k: sym.row(x, k))
    return x


def b_zip(*xs):
    xs = [sequence(x) for x in xs]
    if not any(isinstance(x, SymSeq) for x in xs):
        return zip(*xs)
    n = None
    for x in xs:
        m = x.length if isinstance(x, SymSeq) else I.of(len(x))
        if n is None or decide(eq(m, n)) is True:
            n = m
        else:
            raise Unsupported("zip of sequences of different lengths")
    if n.const() is not None:
        return zip(*[[x.get(I.of(k)) for k in range(n.const())] if isinstance(x, SymSeq) else x for x in xs])
    if not all(isinstance(x, SymSeq) for x in xs):
        raise Unsupported("zip with a list")
    return SymSeq(n, lambda k: tuple(x.get(k) for x in xs))


def b_enum(x, start=0):
    x = sequence(x)
    if isinstance(x, SymSeq):
        return SymSeq(x.length, lambda k: (k + start, x.get(k)))
    return enumerate(x, start)


def b_isinstance(x, t):
    raise Unsupported("isinstance")


def b_callable(x):
    if hasattr(x, "isscalar"):
        return bnot(x.isscalar) if isinstance(x.isscalar, B) else not x.isscalar
    return isinstance(x, Func) or callable(x)


class IntType:
    nm = "int"

    def __call__(self, x=0):
        return b_int(x)
