"""_solve_for_gen_and_part_sols: eigenpairs of the system matrix, particular solution for the beam, inverse eigenvector matrix."""
from . import contract, product

PAR = ("NFourier scaled_omega_arr mu_arr_pos M_inv W N NQuad NLeg NLayers weighted_scaled_Leg_coeffs mu0 I0_div_4pi there_is_beam_source "
       "there_is_iso_source").split()


def _lpmv(m, v, x):
    import scipy.special as sp
    return float(sp.lpmv(m, v, x))


def _poch(a, b):
    import scipy.special as sp
    return float(sp.poch(a, b))


def system(X, N, NLeg, om, wl, mu, mu0, Mi, W, I04):
    """the discrete-ordinate system of mode m in layer l, A = [[-alpha, -beta], [beta, alpha]], and its beam source: AV is row i of
    half s (0: upward, 1: downward streams) of A times a vector, Xv the entry of the source"""
    lp = lambda m, q, z: X.uf("lpmv", (m, m + q), (z,), conc=_lpmv)
    po = lambda m, q: X.uf("poch", (2 * m + q + 1, -2 * m), (), conc=_poch) if X.concrete else X.T.ruf("poch", (2 * m + q + 1, -2 * m))
    sg = lambda q: X.ite(X.ieq(X.mod2(q), 0), X.r(1), X.r(-1))
    n = lambda m: NLeg - m
    Dp = lambda m, l, i, j: om(l) / 2 * X.sum(n(m), lambda q: wl(l, m + q) * po(m, q) * lp(m, q, mu(i)) * lp(m, q, mu(j)))
    Dn = lambda m, l, i, j: om(l) / 2 * X.sum(n(m), lambda q: wl(l, m + q) * po(m, q) * lp(m, q, mu(i)) * lp(m, q, mu(j)) * sg(q))
    dl = lambda i, j: X.ite(X.ieq(i, j), X.r(1), X.r(0))
    al = lambda m, l, i, j: Mi(i) * (Dp(m, l, i, j) * W(j) - dl(i, j))
    be = lambda m, l, i, j: Mi(i) * Dn(m, l, i, j) * W(j)
    two = lambda m: X.ite(X.ieq(m, 0), X.r(1), X.r(2))
    Xs = lambda m, l, i, s: I04 * two(m) * om(l) * X.sum(n(m), lambda q: wl(l, m + q) * po(m, q) * lp(m, q, mu(i)) * lp(m, q, -mu0) * (sg(q) if s else X.r(1)))

    def AV(m, l, s, i, V):
        """row i (of half s) of A times the vector V"""
        up = X.sum(N, lambda j: al(m, l, i, j) * V(j + (N if s else 0)) + be(m, l, i, j) * V(j + (0 if s else N)))
        return up if s else -up

    def Xv(m, l, i, s):
        return (-1 if s else 1) * Mi(i) * Xs(m, l, i, s)
    from types import SimpleNamespace
    return SimpleNamespace(lp=lp, po=po, sg=sg, n=n, dl=dl, al=al, be=be, AV=AV, Xv=Xv, two=two)


@contract("eigen", ["C01", "C02", "C03", "C05", "C06", "C08", "C13", "C20"], "_solve_for_gen_and_part_sols",
          [v for v in product(beam=(True, False), iso=(True, False), part=("pairs", "beam", "inverse", "trivial"))
           if (v["beam"] or v["part"] != "beam") and (v["iso"] or v["part"] != "inverse")])
def eigen(X, beam, iso, part):
    import numpy as np
    N, NL = X.int("N", 1), X.int("NL", 1)
    NF = X.int("NF", 1)
    NQ = 2 * N
    NLeg = X.int("NLeg", 1)
    if X.concrete:
        NLeg = min(NF + NLeg - 1, 2 * N)
        NF = min(NF, NLeg)
    else:
        X.assume(X.le(NF, NLeg))
        X.cuts((2 * N, N))
        X.atomic("NLeg")
    x = np.polynomial.legendre.leggauss(N) if X.concrete else None
    om = X.arr("omega", (NL,), gen=lambda r, s: r.uniform(0.1, 0.9, s) * (r.random(s) < 0.75))
    mu = X.arr("mu", (N,), pos=True, gen=lambda r, s: (1 + x[0]) / 2)
    W = X.arr("W", (N,), pos=True, gen=lambda r, s: x[1] / 2)
    Mi = X.arr("Minv", (N,), pos=True, gen=lambda r, s: 2 / (1 + x[0]))
    wl = X.arr("wleg", (NL, NLeg), gen=lambda r, s: (2 * np.arange(s[1]) + 1) * r.uniform(0.2, 0.8) ** np.arange(s[1]) * np.ones(s))
    mu0 = X.real("mu0", pos=True, lo=0.31, hi=0.93)
    I04 = X.real("I0d", pos=True)
    a = dict(NFourier=NF, scaled_omega_arr=om, mu_arr_pos=mu, M_inv=Mi, W=W, N=N, NQuad=NQ, NLeg=NLeg, NLayers=NL, weighted_scaled_Leg_coeffs=wl,
             mu0=mu0 if beam else 0, I0_div_4pi=I04 if beam else 0, there_is_beam_source=beam, there_is_iso_source=iso)
    out = X.call(X.fn("_solve_for_gen_and_part_sols", "_solve_for_gen_and_part_sols"), **{p: a[p] for p in PAR})
    X.holds("number of results", len(out) == 2 + beam + iso)
    G, K = out[0], out[1]
    B = out[2] if beam else None
    Gi = out[-1] if iso else None
    X.shape("shape of G", G, (NF, NL, NQ, NQ))
    X.shape("shape of K", K, (NF, NL, NQ))
    if beam:
        X.shape("shape of B", B, (NF, NL, NQ))
    if iso:
        X.shape("shape of the inverse", Gi, (NL, NQ, NQ))

    # ---- specification
    y = system(X, N, NLeg, om, wl, mu, mu0, Mi, W, I04)
    dl, AV, Xv = y.dl, y.AV, y.Xv
    small = 1e-8
    sig = lambda m, l: X.any(NLeg - m, lambda q: X.rlt(small, X.abs(om(l) / 2 * wl(l, m + q))))

    def under(c, body):
        if X.concrete:
            if c:
                body()
            return
        old = X.sym.ST.ctx
        X.assume(c)
        if X.sym.ST.ctx.feasible():
            body()
        X.sym.ST.ctx = old
    g = lambda m, l, i, c: X.at(G, m, l, i, c)
    k = lambda m, l, c: X.at(K, m, l, c)
    b = lambda m, l, i: X.at(B, m, l, i)
    halves = [("upper", 0), ("lower", 1)]

    def eigcert(m, l, t, i, c):
        """the row (i, c) of the eigenvalue contract, times the factor with which it enters A G - G diag(K)"""
        out = []
        for f, lv, p in X.calls("eig", k(m, l, c + N), ".w"):
            w = X.T.ruf(f["name"] + ".w", lv + p + (c,))
            v = lambda a, b: X.T.ruf(f["name"] + ".v", lv + p + (a, b))
            F = X.sum(N, lambda q: X.T.rl(f["m"](*p, i, q)) * v(q, c)) - w * v(i, c)
            out.append((-1 if t else 1) * F / (2 * X.T.rfun("sqrt", w)))
        return out

    def scattering(m, l):
        if part == "pairs":
            for nm, s in halves:
                o = N if s else 0
                for cn, t in halves:
                    p = N if t else 0
                    X.forall((N, N), lambda i, c: X.eqmod("eigenpairs: A G = G diag(K) (%s rows, %s columns)" % (nm, cn), AV(m, l, s, i, lambda j: g(m, l, j, c + p)),
                                                          k(m, l, c + p) * g(m, l, i + o, c + p), lambda: eigcert(m, l, t, i, c)))
            X.forall((N,), lambda c: X.eq("eigenvalues come in pairs, the negative ones first", k(m, l, c), -k(m, l, c + N)))
            X.forall((N,), lambda c: X.holds("eigenvalues of the second half are positive", X.rlt(0, k(m, l, c + N))))
        if part == "beam":
            beameq(m, l)
        if part == "inverse":
            X.case(X.ieq(m, 0), lambda: inverse(m, l))

    def beameq(m, l):
        for nm, s in halves:
            o = N if s else 0
            name = "beam particular solution: (A + 1/mu0) B = X (%s rows)" % nm
            direct = lambda i: X.eqmod(name, AV(m, l, s, i, lambda j: b(m, l, j)) + b(m, l, i + o) / mu0, Xv(m, l, i, s), lambda: beamcert(m, l, s, i))
            GX = lambda c: X.sum(N, lambda j: X.at(Gi, l, c, j) * Xv(m, l, j, 0)) + X.sum(N, lambda j: X.at(Gi, l, c, j + N) * Xv(m, l, j, 1))
            form = lambda i: X.eq(name + ", as G (K + 1/mu0)^-1 G^-1 X", b(m, l, i + o), X.sum(NQ, lambda c: g(m, l, i + o, c) / (1 / mu0 + k(m, l, c)) * GX(c)))
            X.forall((N,), lambda i: X.either(lambda: direct(i), *([lambda: form(i)] if iso else [])))

    def beamcert(m, l, s, i):
        """the row of the contract of the linear solver"""
        out = []
        for f, lv, p in X.calls("solve", b(m, l, i + (N if s else 0))):
            x = lambda j: X.T.ruf(f["name"], lv + p + ((j,) if f["vec"] else (j, 0)))
            r = i + (N if s else 0)
            rhs = f["b"](*p, r) if f["vec"] else f["b"](*p, r, 0)
            out.append(X.T.rl(rhs) - X.sum(N, lambda j: X.T.rl(f["a"](*p, r, j)) * x(j)) - X.sum(N, lambda j: X.T.rl(f["a"](*p, r, j + N)) * x(j + N)))
        return out

    def inverse(m, l):
        for nm, s in halves:
            o = N if s else 0
            for cn, t in halves:
                p = N if t else 0
                X.forall((N, N), lambda i, c: X.eqmod("inverse eigenvector matrix: G^-1 G = I (%s rows, %s columns)" % (nm, cn),
                                                      X.sum(N, lambda j: X.at(Gi, l, i + o, j) * g(m, l, j, c + p)) + X.sum(N, lambda j: X.at(Gi, l, i + o, j + N) * g(m, l, j + N, c + p)),
                                                      dl(i, c) if s == t else X.r(0), lambda: invcert(l, i + o, c + p, dl(i, c) if s == t else X.r(0))))

    def invcert(l, i, c, d):
        out = []
        for f, lv, p in X.calls("inv", X.at(Gi, l, i, c)):
            y = lambda a, b: X.T.ruf(f["name"], lv + p + (a, b))
            out.append(d - X.sum(N, lambda j: y(i, j) * X.T.rl(f["m"](*p, j, c))) - X.sum(N, lambda j: y(i, j + N) * X.T.rl(f["m"](*p, j + N, c))))
        return out

    def trivial(m, l):
        X.forall((N, N), lambda i, c: X.eq("eigenvectors without scattering: first block", g(m, l, i, c), X.r(0)))
        X.forall((N, N), lambda i, c: X.eq("eigenvectors without scattering: second block", g(m, l, i, c + N), dl(i, c)))
        X.forall((N, N), lambda i, c: X.eq("eigenvectors without scattering: third block", g(m, l, i + N, c), dl(i, c)))
        X.forall((N, N), lambda i, c: X.eq("eigenvectors without scattering: fourth block", g(m, l, i + N, c + N), X.r(0)))
        X.forall((N,), lambda c: X.eq("eigenvalues without scattering, first half", k(m, l, c), -Mi(c)))
        X.forall((N,), lambda c: X.eq("eigenvalues without scattering, second half", k(m, l, c + N), Mi(c)))
        if beam:
            X.forall((NQ,), lambda i: X.eq("no beam source without scattering", b(m, l, i), X.r(0)))
        if iso:
            X.case(X.ieq(m, 0), lambda: inverse0(l))

    def inverse0(l):
        gi = lambda i, c: X.at(Gi, l, i, c)
        X.forall((N, N), lambda i, c: X.eq("inverse without scattering: first block", gi(i, c), X.r(0)))
        X.forall((N, N), lambda i, c: X.eq("inverse without scattering: second block", gi(i, c + N), dl(i, c)))
        X.forall((N, N), lambda i, c: X.eq("inverse without scattering: third block", gi(i + N, c), dl(i, c)))
        X.forall((N, N), lambda i, c: X.eq("inverse without scattering: fourth block", gi(i + N, c + N), X.r(0)))

    if part == "trivial":
        X.modes(NF, lambda m: X.forall((NL,), lambda l: under(X.not_(sig(m, l)), lambda: trivial(m, l))))
    else:
        X.modes(NF, lambda m: X.forall((NL,), lambda l: under(sig(m, l), lambda: scattering(m, l))))
    X.frame()
    X.side()
