"""Symbolic derivative of a real term with respect to a real symbol (used by the lemmas only)."""
import terms as T
from sym import Unsupported

RULES = {}  # uninterpreted function -> (index of the real argument it is differentiated in, derivative(iargs, rargs)), stated by a lemma


def diff(t, x):
    """d t / d x for the symbol named x. Sum ranges, conditions and integer arguments must not depend on x."""
    t = T.rl(t)
    memo, deps = {}, {}

    def dep(t):
        r = deps.get(t)
        if r is None:
            if isinstance(t, T.Node):
                r = t.op == "s" and t.a[0] == x or any(dep(y) for y in t.a if isinstance(y, (T.Node, T.I, tuple)))
            elif isinstance(t, tuple):
                r = any(dep(y) for y in t if isinstance(y, (T.Node, T.I, tuple)))
            else:
                r = any(dep(at) for mono, _ in t.t for at in mono)
            deps[t] = r
        return r

    def D(t):
        if not dep(t):
            return T.R0
        r = memo.get(t)
        if r is None:
            r = memo[t] = d1(t)
        return r

    def d1(t):
        op, a = t.op, t.a
        if op == "s":
            return T.R1 if a[0] == x else T.R0
        if op == "add":
            return T.radd(*[D(y) for y in a])
        if op == "mul":
            return T.radd(*[T.rmul(D(y), *(a[:k] + a[k + 1:])) for k, y in enumerate(a) if dep(y)])
        if op == "pow":
            if dep(a[1]):
                raise Unsupported("derivative of an exponent")
            return T.rmul(T.rl(a[1]), T.rpow(a[0], a[1] - 1), D(a[0]))
        if op == "exp":
            return T.rmul(t, D(a[0]))
        if op == "cos":
            return T.rmul(T.rc(-1), T.rfun("sin", a[0]), D(a[0]))
        if op == "sin":
            return T.rmul(T.rfun("cos", a[0]), D(a[0]))
        if op == "ite":
            if dep(a[0]):
                raise Unsupported("derivative of a condition")
            return T.rite(a[0], D(a[1]), D(a[2]))
        if op == "sum":
            if dep(a[1]) or dep(a[2]):
                raise Unsupported("derivative of a range")
            v = T.fresh("b")
            return T.close("sum", v, a[1], a[2], D(T.subst(a[3], {a[0]: v})))
        if op == "uf" and a[0] in RULES:
            k, f = RULES[a[0]]
            if any(dep(y) for y in a[1]) or any(dep(y) for q, y in enumerate(a[2]) if q != k):
                raise Unsupported("derivative of %s in another argument" % a[0])
            return T.rmul(T.rl(f(a[1], a[2])), D(a[2][k]))
        raise Unsupported("derivative of %s" % op)
    return D(t)
