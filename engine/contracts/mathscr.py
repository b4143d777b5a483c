"""_mathscr_v: particular solution for the isotropic source, and the lemmas that make it one."""
from . import contract, product


def P(X, q, K, tau):
    """P_q(K, tau) = sum_{r<=q} q!/r! K^-(q-r+1) tau^r, the polynomial solution of y' = K y - tau^q"""
    return X.sum(q + 1, lambda r: X.uf("fact", (q,), conc=fact) / X.uf("fact", (r,), conc=fact) * X.pow(K, r - q - 1) * X.pow(tau, r))


def Q(X, q, K, tau):
    """antiderivative of P_q in tau"""
    return X.sum(q + 1, lambda r: X.uf("fact", (q,), conc=fact) / X.uf("fact", (r,), conc=fact) * X.pow(K, r - q - 1) * X.pow(tau, r + 1) / X.r(r + 1))


def fact(n):
    import math
    return math.factorial(n)


def spec(X, s, n, G, gam, K, tau, scale, anti, NQ, i, l):
    """value at angle i for one depth: s(q), G(i, j), gam(j), K(j) of its layer. The sum over powers r and source orders q >= r is
    written with r = n-1-a, q = r + b"""
    def term(j):
        def inner(a):
            r = n - 1 - a

            def inner2(b):
                q = r + b
                t = s(q) * X.uf("fact", (q,), conc=fact) / X.uf("fact", (r,), conc=fact) * X.pow(K(j), -b - 1)
                if anti:
                    return t * X.pow(tau, r + 1) / X.r(r + 1) / scale
                return t * X.pow(tau, r)
            return X.sum(a + 1, inner2)
        return G(i, j) * gam(j) * X.sum(n, inner)
    return X.sum(NQ, term)


@contract("mathscr_v", ["C01", "C03", "C04", "C05", "C13", "C16", "C20"], "subroutines._mathscr_v",
          product(n=(1, 2, 3, "n"), anti=(False, True), ag=(False, True)))
def mathscr_v(X, n, anti, ag):
    NL, NQ, NT = X.int("NL", 1), X.int("NQ", 1), X.int("NT", 1)
    NQ2 = X.int("NQ2", 1)  # rows of G: may be half of the angles
    if n == "n":
        n = X.int("NS", 3)
    if not X.concrete:
        fact_rules(X)
    tau, sc = X.arr("tau", (NT,), pos=True), X.arr("scale", (NT,), pos=True)
    l = X.arr("l", (NT,), "i", hi=NL)
    s, G, K, g = X.arr("s", (NL, n)), X.arr("G", (NL, NQ2, NQ)), X.arr("K", (NL, NQ), pos=True), X.arr("gam", (NL, NQ))
    if X.concrete and ag:
        try:
            import autograd  # noqa
        except ImportError:
            ag = False
    out = X.call(X.fn("subroutines", "_mathscr_v"), tau, sc, l, n, s, G, K, g, anti, ag)
    X.shape("result has axes angle, depth", out, (NQ2, NT))

    def body(i, t):
        lt = l(t)
        X.eq("value is the closed-form particular solution" + (" antiderivative" if anti else ""), X.at(out, i, t),
             spec(X, lambda q: s(lt, q), n, lambda i, j: G(lt, i, j), lambda j: g(lt, j), lambda j: K(lt, j), tau(t), sc(t), anti, NQ, i, lt))
    X.forall((NQ2, NT), body)
    X.frame()
    X.side()


def fact_rules(X):
    T, S = X.T, X.S

    def simp(ia, ra, ctx):
        c = ia[0].const()
        if c is not None and 0 <= c < 40:
            import math
            return T.rc(math.factorial(c))
        k = ia[0].t and next((x for m, x in ia[0].t if not m), 0)
        if k and 0 < k < 4:  # (n + 1)! = (n + 1) n!
            return T.rmul(T.rl(ia[0]), T.ruf("fact", (ia[0] - 1,)))
        return None
    S.UF_SIMP["fact"] = simp
