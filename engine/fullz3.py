"""Entailment between conditions with quantifiers over array elements, by z3 (quantifiers, linear integers, reals).

Anything outside that fragment (sums, transcendental functions, ...) becomes an uninterpreted function of its free
variables, which only loses completeness.
"""
import z3
import terms as T

STATS = dict(calls=0)


class Full:
    def __init__(self):
        self.side = []
        self.syms = {}

    def isym(self, name, env):
        if name in env:
            return env[name]
        v = self.syms.get(name)
        if v is None:
            v = self.syms[name] = z3.Int("i_" + name)
            if name in T.LOWER:
                self.side.append(v >= T.LOWER[name])
        return v

    def fun(self, name, args, sort):
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name + "/%d" % len(args), *([a.sort() for a in args] + [sort]))(*args)

    def opaque(self, n, env, sort):
        args = [env[v] for v in sorted(n.fv) if v in env]
        return self.fun("o%d" % n.id, args, sort)

    def ia(self, x, env):
        if x.op == "sym":
            return self.isym(x.a[0], env)
        if x.op == "uf" and x.a[0][0] != "%":
            return self.fun("iu_" + x.a[0], [self.i(y, env) for y in x.a[1]], z3.IntSort())
        if x.op in ("div", "mod"):
            a, b = self.i(x.a[0], env), self.i(x.a[1], env)
            return a / b if x.op == "div" else a % b
        if x.op == "ite":
            return z3.If(self.b(x.a[0], env), self.i(x.a[1], env), self.i(x.a[2], env))
        return self.opaque(x, env, z3.IntSort())

    def i(self, p, env):
        r = z3.IntVal(0)
        for m, c in p.t:
            t = z3.IntVal(int(c))
            for x in m:
                t = t * self.ia(x, env)
            r = r + t
        return r

    def r(self, n, env):
        op, a = n.op, n.a
        if op == "c":
            return z3.RealVal(str(a[0]))
        if op == "s":
            v = z3.Real("r_" + a[0])
            if n in getattr(T, "POS", ()) or a[0] in getattr(T, "POS", ()):
                self.side.append(v > 0)
            if a[0] == "pi":
                self.side += [v > z3.RealVal("3.1415926"), v < z3.RealVal("3.1415927")]
            return v
        if op == "int":
            return z3.ToReal(self.i(a[0], env))
        if op == "add":
            return z3.Sum(*[self.r(x, env) for x in a])
        if op == "mul":
            t = self.r(a[0], env)
            for x in a[1:]:
                t = t * self.r(x, env)
            return t
        if op == "pow":
            k = a[1].const() if isinstance(a[1], T.I) else None
            if isinstance(k, int) and abs(k) <= 4:
                b = self.r(a[0], env)
                t = z3.RealVal(1)
                for _ in range(abs(k)):
                    t = t * b
                return t if k >= 0 else 1 / t
            return self.opaque(n, env, z3.RealSort())
        if op == "ite":
            return z3.If(self.b(a[0], env), self.r(a[1], env), self.r(a[2], env))
        if op == "ind":
            return z3.If(self.b(a[0], env), z3.RealVal(1), z3.RealVal(0))
        if op == "abs":
            x = self.r(a[0], env)
            return z3.If(x < 0, -x, x)
        if op == "uf" and a[0] == "abs" and len(a[2]) == 1:
            x = self.r(a[2][0], env)
            return z3.If(x < 0, -x, x)
        if op == "uf":
            return self.fun("f_" + str(a[0]), [self.i(x, env) for x in a[1]] + [self.r(x, env) for x in a[2]], z3.RealSort())
        return self.opaque(n, env, z3.RealSort())

    def b(self, c, env):
        op, a = c.op, c.a
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "le0":
            return self.i(a[0], env) <= 0
        if op == "eq0":
            return self.i(a[0], env) == 0
        if op == "and":
            return z3.And(*[self.b(x, env) for x in a])
        if op == "not":
            return z3.Not(self.b(a[0], env))
        if op == "req":
            return self.r(a[0], env) == self.r(a[1], env)
        if op == "rlt":
            return self.r(a[0], env) < self.r(a[1], env)
        if op in ("ex", "all"):
            v = z3.FreshInt("q")
            e = dict(env)
            e[a[0]] = v
            rng = z3.And(self.i(a[1], env) <= v, v < self.i(a[2], env))
            body = self.b(a[3], e)
            return z3.Exists([v], z3.And(rng, body)) if op == "ex" else z3.ForAll([v], z3.Implies(rng, body))
        return self.opaque(c, env, z3.BoolSort())


def posfacts(full, terms, env=None):
    pass


def entails(facts, goal, timeout=20000):
    """True if z3 shows facts => goal; otherwise (False, model or None)"""
    f = Full()
    s = z3.Solver()
    s.set("timeout", timeout)
    for x in facts:
        s.add(f.b(x, {}))
    s.add(z3.Not(f.b(goal, {})))
    for x in f.side:
        s.add(x)
    STATS["calls"] += 1
    r = s.check()
    if r == z3.unsat:
        return True, None
    return False, (str(s.model())[:1500] if r == z3.sat else "z3: %s" % s.reason_unknown())
