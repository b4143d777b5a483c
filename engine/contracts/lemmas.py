"""Lemmas over the contracts: what the formulas in the postconditions of the functions amount to.

No lemma looks at code. Each states its hypotheses as terms that are zero by a contract (certificates), and the formulas are the
same Python functions the contracts use."""
from . import contract, product
from .assemble import Prob, mv
from .coeffs import equations
from .eigen import system
from .mathscr import P, Q, spec, fact, fact_rules


def d(X, f, name="st"):
    """derivative of f(x) at the symbol x"""
    import calculus
    x = X.T.rsym(name)
    return calculus.diff(X.T.rl(f(x)), name), x


def mv_rules():
    """P_q' = K P_q - tau^q and Q_q' = P_q: proved by the lemma 'poly'"""
    import calculus
    import terms as T
    calculus.RULES.clear()
    calculus.RULES["mvP"] = (1, lambda ia, ra: ra[0] * T.ruf("mvP", ia, ra) - T.rpow(ra[1], ia[0]))
    calculus.RULES["mvQ"] = (1, lambda ia, ra: T.ruf("mvP", ia, ra))


def induct(X, name, lhs, rhs, certs=lambda n: [], cut=None):
    """lhs(n) = rhs(n) for all n >= 0, by induction; returns the identity as a term that is zero"""
    X.eq(name + " (base)", lhs(X.T.I.of(0)), rhs(X.T.I.of(0)))
    n = X.T.fresh("n")
    old = X.sym.ST.ctx
    X.assume(X.le(0, n))
    if cut:
        X.cuts(cut(n))
    X.eqmod(name + " (step)", lhs(n + 1), rhs(n + 1), lambda: [rhs(n) - lhs(n)] + certs(n))
    X.sym.ST.ctx = old


def telescope(X, F, n):
    """sum_{r<n} (F(r+1) - F(r)) - F(n) + F(0), zero by the lemma 'sums'"""
    return X.sum(n, lambda r: F(r + 1) - F(r)) - F(n) + F(X.T.I.of(0))


def head(X, F, n):
    """sum_{r<n+1} F(r) - F(0) - sum_{r<n} F(r+1), zero by the lemma 'sums'"""
    return X.sum(n + 1, F) - F(X.T.I.of(0)) - X.sum(n, lambda r: F(r + 1))


def reverse(X, F, n):
    """sum_{r<n} F(r) - sum_{r<n} F(n-1-r), zero by the lemma 'sums'"""
    return X.sum(n, F) - X.sum(n, lambda r: F(n - 1 - r))


def triangle(X, F, n):
    """sum_{q<n} sum_{r<=q} F(r, q) - sum_{r<n} sum_{b<n-r} F(r, r+b), zero by the lemma 'sums'"""
    return X.sum(n, lambda q: X.sum(q + 1, lambda r: F(r, q))) - X.sum(n, lambda r: X.sum(n - r, lambda b: F(r, r + b)))


@contract("lemma.sums", ["C01", "C03", "C04", "C13"], "lemma: finite sums (shift, reversal, exchange of a triangular double sum), by induction", conc=False)
def sums(X):
    """stated for uninterpreted functions, so they hold for every F"""
    u = lambda *x: X.T.ruf("F", x)
    z = X.r(0)
    induct(X, "telescoping sum", lambda n: telescope(X, u, n), lambda n: z)
    induct(X, "first term split off", lambda n: head(X, u, n), lambda n: z)
    induct(X, "order of terms reversed", lambda n: X.sum(n, u), lambda n: X.sum(n, lambda r: u(n - 1 - r)), lambda n: [head(X, lambda r: u(n - r), n)])
    last = lambda n, r: X.sum(n + 1 - r, lambda b: u(r, r + b)) - X.sum(n - r, lambda b: u(r, r + b)) - u(r, n)
    n = X.int("n", 0)
    X.forall((n,), lambda r: X.eq("last term split off", last(n, r), z))
    NQ = X.int("NQ", 1)
    induct(X, "sum over the unknowns as a sum over layers and streams", lambda n: X.sum(n * NQ, u), lambda n: X.sum(n, lambda l: X.sum(NQ, lambda c: u(NQ * l + c))),
           cut=lambda n: (n * NQ + NQ, n * NQ))
    induct(X, "triangular sum exchanged", lambda n: triangle(X, u, n), lambda n: z, lambda n: [X.sum(n, lambda r: last(n, r))])


@contract("lemma.poly", ["C01", "C03", "C04", "C13"], "lemma over contracts: the polynomial particular solution (mathscr_v)", conc=False)
def poly(X):
    fact_rules(X)
    q = X.int("q", 0)
    K = X.real("K")
    f = lambda n: X.uf("fact", (n,), conc=fact)
    t = X.T.rsym("st")
    F = lambda r: -X.r(r) * f(q) / f(r) * X.pow(K, r - q - 1) * X.pow(t, r - 1)
    dP, _ = d(X, lambda t: P(X, q, K, t))
    X.eqmod("P_q' = K P_q - tau^q", dP, K * P(X, q, K, t) - X.pow(t, q), lambda: [-telescope(X, F, q + 1)])
    dQ, _ = d(X, lambda t: Q(X, q, K, t))
    X.eq("Q_q' = P_q", dQ, P(X, q, K, t))
    # the double sum of the contract of _mathscr_v is the sum over source orders that its callers use
    n, NQ = X.int("NS", 1), X.int("NQ", 1)
    s, G, g, Kj, sc = X.arr("s", (n,)), X.arr("G", (NQ, NQ)), X.arr("gam", (NQ,)), X.arr("K", (NQ,)), X.real("scale")
    i = X.int("i", 0)
    for anti in (False, True):
        def h(j):
            def F(r, q):
                w = s(q) * f(q) / f(r) * X.pow(Kj(j), r - q - 1)
                return w * X.pow(t, r + 1) / X.r(r + 1) if anti else w * X.pow(t, r)
            row = lambda r: X.sum(n - r, lambda b: F(r, r + b))
            return triangle(X, F, n) + reverse(X, row, n)
        a = spec(X, s, n, G, g, Kj, t, sc, anti, NQ, i, 0)
        b = X.sum(NQ, lambda j: G(i, j) * g(j) * X.sum(n, lambda q: s(q) * (Q if anti else P)(X, q, Kj(j), t)))
        X.eqmod("_mathscr_v is the sum of the particular solutions of all source orders" + (" (antiderivative)" if anti else ""),
                a * sc if anti else a, b, lambda: [X.sum(NQ, lambda j: G(i, j) * g(j) * h(j))])


def layer_problem(X, beam, iso, scaled=True):
    """the quantities of assemble.Prob with the structure the callees' contracts give them: GC = G diag(C), K = [-kp, kp]"""
    p = Prob(X, beam, iso, scaled)
    N = p.N
    X.S.UF_SIMP["bound"] = lambda ia, ra, ctx: X.T.rl(0) if ia[0].const() == 0 else None
    p.st0 = X.defarr((p.NL + 1,), lambda l: X.T.ruf("bound", (X.T.I.of(l),)))
    p.kp = X.arr("kp", (p.NF, p.NL, N), pos=True)
    p.K = X.defarr((p.NF, p.NL, 2 * N), lambda m, l, c: X.ite(X.lt(c, N), -p.kp(m, l, c), p.kp(m, l, c - N)))
    p.C = X.arr("C", (p.NF, p.NL, 2 * N))
    p.GC = X.defarr((p.NF, p.NL, 2 * N, 2 * N), lambda m, l, i, c: p.G(m, l, i, c) * p.C(m, l, c))
    p.g = X.arr("gamma", (p.NL, 2 * N))  # G^-1 (1/mu)
    p.gam = lambda l, j: p.g(l, j)
    mv_rules()
    return p


@contract("lemma.rte", ["C01", "C03", "C05", "C06", "C20"], "lemma over contracts: the intensity modes solve the discrete-ordinate equation in every layer",
          product(beam=(True, False), iso=(True, False)), conc=False)
def rte(X, beam, iso):
    """Hypotheses: A G = G diag(K) and (A + 1/mu0) B = S (contract of _solve_for_gen_and_part_sols), GC = G diag(C) (contract of
    _solve_for_coeffs), G gamma = 1/mu (its definition as G^-1 (1/mu), with G G^-1 = I)."""
    X.assumed.append("lemma.rte: G G^-1 = I follows from the proved G^-1 G = I (square matrices)")
    p = layer_problem(X, beam, iso)
    N, NQ = p.N, 2 * p.N
    A = lambda m, l, i, j: X.T.ruf("A", (m, l, i, j))
    S = lambda m, l, i: X.T.ruf("S", (m, l, i))
    N1 = lambda i: X.ite(X.lt(i, N), p.Minv(i), -p.Minv(i - N))  # 1/mu
    e = lambda m, l, c, st: X.exp(p.K(m, l, c) * (st - X.ite(X.lt(c, N), p.st0(l), p.st0(l + 1))))
    st = X.T.rsym("st")
    eig = lambda m, l, i, c: X.sum(NQ, lambda j: A(m, l, i, j) * p.G(m, l, j, c)) - p.G(m, l, i, c) * p.K(m, l, c)
    beamrow = lambda m, l, i: X.sum(NQ, lambda j: A(m, l, i, j) * p.B(m, l, j)) + p.B(m, l, i) / p.mu0 - S(m, l, i)
    inv = lambda l, i: X.sum(NQ, lambda c: p.G(0, l, i, c) * p.g(l, c)) - N1(i)
    src = lambda l: X.sum(p.NS, lambda q: p.s(l, q) * X.pow(st, q))

    def mode(m):
        def value(i, l, t):
            r = p.um_at(m, l, i, t, False)
            return r + p.v_at(l, i, t, False) if iso and m is X.T.ZERO else r

        def row(l, i):
            du, _ = d(X, lambda t: value(i, l, t))
            rhs = X.sum(NQ, lambda j: A(m, l, i, j) * value(j, l, st))
            if beam:
                rhs = rhs - S(m, l, i) * X.exp(-st / p.mu0)
            thermal = iso and m is X.T.ZERO
            if thermal:
                rhs = rhs - N1(i) * src(l)

            def certs():
                w = lambda c: p.C(m, l, c) * e(m, l, c, st) + (p.g(l, c) * X.sum(p.NS, lambda q: p.s(l, q) * mv(X, False, q, p.K(0, l, c), st)) if thermal else X.r(0))
                out = [X.sum(NQ, lambda c: eig(m, l, i, c) * w(c))]
                if beam:
                    out.append(beamrow(m, l, i) * X.exp(-st / p.mu0))
                if thermal:
                    out.append(inv(l, i) * src(l))
                return out
            X.eqmod("d u / d tau = A u - beam source - thermal source", du, rhs, certs)
        X.forall((p.NL, NQ), row)
    X.modes(p.NF, mode)


@contract("lemma.boundary", ["C02", "C01", "C15", "C08"], "lemma over contracts: the intensity modes meet the boundary conditions and are continuous across layers",
          product(beam=(True, False), iso=(True, False), bdrf=(False, True)), conc=False)
def boundary(X, beam, iso, bdrf):
    """Hypotheses: the rows of the linear system (contract of _solve_for_coeffs) and the formulas of the evaluation functions
    (contract of _assemble_intensity_and_fluxes). The sum over all unknowns is one over layers and streams by the lemma 'sums'."""
    p = layer_problem(X, beam, iso)
    N, NL, NQ = p.N, p.NL, 2 * p.N
    NB = X.int("NBDRF", 1)
    has = (lambda m: X.lt(m, NB)) if bdrf else (lambda m: False)
    rho = lambda m, a, b: X.T.ruf("rho", (X.T.I.of(m),), (X.T.rl(a), X.T.rl(b)))
    mw = lambda i: p.mu(i) * p.W(i)
    bp, bn = X.arr("bpos", (p.NF, N)), X.arr("bneg", (p.NF, N))
    I04 = p.I0 / (4 * X.pi) if beam else 0
    L = NL - 1
    z = X.T.ZERO

    def go(multi):
        rows = {r[0]: r for r in equations(X, N, NL, multi, beam, iso, p.G, p.kp, p.K, p.B, p.g, p.s, p.NS, p.st0, p.mu, mw, p.mu0, I04, rho, has, bp, bn)}

        def cert(name, m, *i):
            _, _, _, co, rhs = rows[name]
            return X.sum(NL, lambda l: X.sum(NQ, lambda c: co(m, *i, l, c) * p.C(m, l, c))) - rhs(m, *i)

        def value(m, l, i, t):
            r = p.um_at(m, l, i, t, False)
            return r + X.ite(X.ieq(m, 0), p.v_at(l, i, t, False), X.r(0)) if iso else r
        bot = p.st0(NL)

        def surface(m, i):
            """reflected diffuse and direct radiation"""
            r = X.sum(N, lambda q: X.ite(X.ieq(m, 0), X.r(2), X.r(1)) * rho(m, p.mu(i), p.mu(q)) * mw(q) * value(m, L, N + q, bot))
            if beam:
                r = r + p.mu0 * p.I0 / X.pi * X.exp(-bot / p.mu0) * rho(m, p.mu(i), p.mu0)
            return X.ite(has(m), r, X.r(0)) if bdrf else X.r(0)
        X.forall((p.NF, N), lambda m, i: X.eqmod("top of the atmosphere: downward intensity is b_neg", value(m, z, N + i, X.r(0)), bn(m, i), lambda: [-cert("top boundary", m, i)]))
        X.forall((p.NF, N), lambda m, i: X.eqmod("surface: upward intensity is b_pos plus the reflected radiation", value(m, L, i, bot), bp(m, i) + surface(m, i), lambda: [-cert("bottom boundary", m, i)]))
        if multi:
            X.forall((p.NF, NL - 1, NQ), lambda m, k, i: X.eqmod("intensity is continuous between layers", value(m, k, i, p.st0(k + 1)), value(m, k + 1, i, p.st0(k + 1)),
                                                                lambda: [-cert("continuity between layers", m, k, i)]))
    go(True)


@contract("lemma.antiderivative", ["C04"], "lemma over contracts: the antiderivatives differentiate to the values inside every layer",
          product(beam=(True, False), iso=(True, False)), conc=False)
def antiderivative(X, beam, iso):
    """of the formulas in the contracts of u, u0, flux_up and flux_down, in the user's optical depth"""
    p = layer_problem(X, beam, iso)
    N, NQ = p.N, 2 * p.N
    l = X.int("l", 0)
    X.assume(X.lt(l, p.NL))
    p.lay = lambda tau: l  # the layer does not change inside a layer
    i = X.int("i", 0)
    X.assume(X.lt(i, NQ))
    phi = X.real("phi")

    def both(name, f):
        da, t = d(X, lambda t: f(t, True), "tau")
        X.eq("d/dtau of the antiderivative of " + name + " is " + name, da, f(t, False))
    m = X.int("m", 0)
    X.assume(X.lt(m, p.NF))
    both("a Fourier mode", lambda t, a: p.um(m, i, t, a))
    both("u0", lambda t, a: p.u0(i, t, a))
    both("u", lambda t, a: p.u(i, t, phi, a))
    both("the direct beam", lambda t, a: p.direct(t, a))
    both("the beam at scaled depth", lambda t, a: p.direct_scaled(t, a))
    both("the upward flux", lambda t, a: 2 * X.pi * X.sum(N, lambda k: p.mu(k) * p.W(k) * p.u0(k, t, a)))
    both("the downward diffuse flux", lambda t, a: 2 * X.pi * X.sum(N, lambda k: p.mu(k) * p.W(k) * p.u0(k + N, t, a)) + p.mu0 * (p.direct_scaled(t, a) - p.direct(t, a)))


@contract("lemma.operator", ["C01", "C20"], "lemma over contracts: the system matrix is the discrete-ordinate form of the radiative transfer equation",
          product(beam=(True, False)), conc=False)
def operator(X, beam):
    """mu_i (A u - S e) = u_i - omega/2 sum_j w_j sum_k (2k+1) g_k (k-m)!/(k+m)! P_k^m(mu_i) P_k^m(mu_j) u_j - beam source, the sum over
    all 2N signed angles. Hypotheses: 1/mu is what pydisort passes (pydisort.args); P_k^m(-x) = (-1)^(k+m) P_k^m(x)."""
    X.assumed.append("lemma.operator: parity of the associated Legendre functions, P_k^m(-x) = (-1)^(k+m) P_k^m(x)")
    N, NL, NF, NLeg = X.int("N", 1), X.int("NL", 1), X.int("NF", 1), X.int("NLeg", 1)
    X.assume(X.le(NF, NLeg))
    X.cuts((2 * N, N))
    X.atomic("NLeg")
    om, mu, W, wl = X.arr("omega", (NL,)), X.arr("mu", (N,), pos=True), X.arr("W", (N,), pos=True), X.arr("wleg", (NL, NLeg))
    Mi = X.defarr((N,), lambda i: X.r(1) / mu(i))
    mu0, I0 = X.real("mu0", pos=True), X.real("I0", pos=True)
    y = system(X, N, NLeg, om, wl, mu, mu0, Mi, W, I0 / (4 * X.pi))
    u = lambda j: X.T.ruf("u", (X.T.I.of(j),))
    lps = lambda m, q, i, s: y.lp(m, q, mu(i)) * (y.sg(q) if s else X.r(1))

    def go(m):
        for nm, s in (("upward", 0), ("downward", 1)):
            def row(l, i):
                kern = lambda j, t: X.sum(y.n(m), lambda q: wl(l, m + q) * y.po(m, q) * lps(m, q, i, s) * lps(m, q, j, t))
                rhs = u(i + N * s) - om(l) / 2 * X.sum(N, lambda j: W(j) * (kern(j, 0) * u(j) + kern(j, 1) * u(j + N)))
                sm = -mu(i) if s else mu(i)
                X.eq("transport operator (%s streams)" % nm, sm * y.AV(m, l, s, i, u), rhs)
                if beam:
                    q0 = X.sum(y.n(m), lambda q: wl(l, m + q) * y.po(m, q) * lps(m, q, i, s) * y.lp(m, q, -mu0))
                    X.eq("beam source (%s streams)" % nm, sm * y.Xv(m, l, i, s), om(l) * I0 / (4 * X.pi) * y.two(m) * q0)
            X.forall((NL, N), row)
    X.modes(NF, go)


@contract("lemma.energy", ["C20"], "lemma over contracts: the divergence of the net flux is what is absorbed minus what is emitted",
          product(beam=(True, False), iso=(True, False)), conc=False)
def energy(X, beam, iso):
    """Hypotheses: the zeroth mode solves the radiative transfer equation (lemmas 'rte' and 'operator'); g_0 = 1 (pydisort.args);
    the N-point Gauss rule on (0, 1) integrates the even Legendre polynomials below degree 2N exactly."""
    X.assumed.append("lemma.energy: the N-point Gauss-Legendre rule is exact below degree 2N (numpy leggauss)")
    import calculus
    p = Prob(X, beam, iso, True)
    N, NLeg = p.N, p.a["NLeg"]
    l = X.int("l", 0)
    X.assume(X.lt(l, p.NL))
    p.lay = lambda tau: l
    om = p.a["scaled_omega_arr"]
    wr = p.a["weighted_scaled_Leg_coeffs"]
    wl = lambda l, q: X.ite(X.ieq(q, 0), X.r(1), wr(l, q))
    sg = lambda q: X.T.ruf("parity", (q,))  # (-1)^q
    X.S.UF_SIMP["parity"] = lambda ia, ra, ctx: X.T.rl(1) if ia[0].const() == 0 else None
    X.S.UF_SIMP["lpmv"] = lambda ia, ra, ctx: X.T.rl(1) if ia[0].const() == 0 and ia[1].const() == 0 else None
    try:
        lp = lambda q, i: X.T.ruf("lpmv", (0, q), (p.mu(i),))
        lps = lambda q, i, s: lp(q, i) * (sg(q) if s else X.r(1))
        u = lambda i, st: X.T.ruf("u", (X.T.I.of(i),), (st,))
        du = lambda i, st: X.T.ruf("du", (X.T.I.of(i),), (st,))
        calculus.RULES.clear()
        calculus.RULES["u"] = (1 - 1, lambda ia, ra: X.T.ruf("du", ia, ra))
        p.u0 = lambda i, tau, anti: u(i, p.stau(tau, l))
        dF, t = d(X, lambda t: 2 * X.pi * X.sum(N, lambda k: p.mu(k) * p.W(k) * p.u0(k, t, False))
                  - 2 * X.pi * X.sum(N, lambda k: p.mu(k) * p.W(k) * p.u0(k + N, t, False)) - p.mu0 * (p.direct_scaled(t, False) - p.direct(t, False))
                  - p.mu0 * p.direct(t, False), "tau")
        st = p.stau(t, l)
        e = X.exp(-st / p.mu0)
        I04 = p.I0 / (4 * X.pi) if beam else X.r(0)
        src = X.sum(p.NS, lambda q: p.s(l, q) * X.pow(st, q)) if iso else X.r(0)

        def scatter(f):
            """omega/2 sum_j w_j sum_k (2k+1) g_k f(k) P_k(mu_j) u_j + beam source"""
            r = om(l) / 2 * X.sum(N, lambda j: p.W(j) * X.sum(NLeg, lambda q: wl(l, q) * f(q) * (lps(q, j, 0) * u(j, st) + lps(q, j, 1) * u(j + N, st))))
            if beam:
                r = r + om(l) * I04 * X.sum(NLeg, lambda q: wl(l, q) * f(q) * X.T.ruf("lpmv", (0, q), (-p.mu0,))) * e
            return r
        # radiative transfer equation of stream i, half s
        rte = lambda i, s: (-p.mu(i) if s else p.mu(i)) * du(i + N * s, st) - (u(i + N * s, st) - scatter(lambda q: lps(q, i, s)) - src)
        exact = lambda q: X.sum(N, lambda i: p.W(i) * lp(q, i) * (1 + sg(q))) - X.ite(X.ieq(q, 0), X.r(2), X.r(0))
        unit = X.sum(N, p.W) - 1
        mean = X.sum(N, lambda j: p.W(j) * (u(j, st) + u(j + N, st)))
        absorbed = 2 * X.pi * (1 - om(l)) * mean + (1 - om(l)) * (p.I0 * e if beam else X.r(0))
        X.eqmod("d(net flux)/dtau = (1 - omega) (2 pi sum w u + direct beam) - 4 pi s", dF, p.scale(l) * (absorbed - 4 * X.pi * src), lambda: [
            -2 * X.pi * p.scale(l) * X.sum(N, lambda i: p.W(i) * (rte(i, 0) + rte(i, 1))),
            2 * X.pi * p.scale(l) * scatter(exact), 4 * X.pi * p.scale(l) * src * unit])
    finally:
        X.S.UF_SIMP.pop("lpmv", None)
        X.S.UF_SIMP.pop("parity", None)


@contract("lemma.mean", ["C05", "C20"], "lemma over contracts: the zeroth mode is the azimuthal mean of the intensity", product(beam=(True, False), iso=(True, False)), conc=False)
def mean(X, beam, iso):
    """by an antiderivative in azimuth and sin(m (phi0 - 2 pi)) = sin(m phi0)"""
    p = layer_problem(X, beam, iso)
    i, t = X.int("i", 0), X.real("tau", pos=True)
    X.assume(X.lt(i, 2 * p.N))
    l = X.int("l", 0)
    X.assume(X.lt(l, p.NL))
    p.lay = lambda tau: l
    um = lambda m: p.um(m, i, t, False)
    F = lambda phi: p.u0(i, t, False) * phi - X.sum(p.NF - 1, lambda m: um(m + 1) * X.sin(X.r(m + 1) * (p.phi0 - phi)) / X.r(m + 1))
    dF, phi = d(X, F, "phi")
    X.eqmod("the antiderivative in azimuth differentiates to the intensity", dF, p.u(i, t, phi, False), lambda: [
        head(X, lambda m: um(m) * X.cos(X.r(m) * (p.phi0 - phi)), p.NF - 1)])
    per = lambda m: X.sin(X.r(m) * (p.phi0 - 2 * X.pi)) - X.sin(X.r(m) * p.phi0)
    X.eqmod("integral over azimuth = 2 pi u0", F(2 * X.pi) - F(X.r(0)), 2 * X.pi * p.u0(i, t, False), lambda: [X.sum(p.NF - 1, lambda m: um(m + 1) * per(m + 1) / X.r(m + 1))])


@contract("lemma.linear", ["C08", "C16"], "lemma over contracts: equations and results are linear and homogeneous in the sources",
          product(beam=(True, False), iso=(True, False), bdrf=(False, True)), conc=False)
def linear(X, beam, iso, bdrf):
    """I0, b_pos, b_neg and the source polynomial, with the unknowns B and C they determine (the systems are nonsingular)"""
    X.assumed.append("lemma.linear: the linear systems for B and C are nonsingular")
    import copy
    p = layer_problem(X, beam, iso)
    N, NL, NQ = p.N, p.NL, 2 * p.N
    a, b = X.real("alpha"), X.real("beta")
    NB = X.int("NBDRF", 1)
    has = (lambda m: X.lt(m, NB)) if bdrf else (lambda m: False)
    rho = lambda m, x, y: X.T.ruf("rho", (X.T.I.of(m),), (X.T.rl(x), X.T.rl(y)))
    mw = lambda i: p.mu(i) * p.W(i)

    def variant(k):
        q = copy.copy(p)
        q.C = X.arr("C%d" % k, (p.NF, NL, NQ))
        q.B = X.arr("B%d" % k, (p.NF, NL, NQ)) if beam else None
        q.s = X.arr("s%d" % k, (NL, p.NS))
        q.I0 = X.real("I0%d" % k) if beam else 0
        q.bp, q.bn = X.arr("bp%d" % k, (p.NF, N)), X.arr("bn%d" % k, (p.NF, N))
        return q
    u, v = variant(1), variant(2)
    w = copy.copy(p)
    mix = lambda f, g: (lambda *i: a * f(*i) + b * g(*i)) if f is not None else None
    for n in ("C", "B", "s", "bp", "bn"):
        setattr(w, n, mix(getattr(u, n), getattr(v, n)))
    w.I0 = a * u.I0 + b * v.I0 if beam else 0
    l, t, phi, i = X.int("l", 0), X.real("tau", pos=True), X.real("phi"), X.int("i", 0)
    X.assume(X.lt(l, NL))
    X.assume(X.lt(i, NQ))
    for q in (u, v, w):
        q.GC = lambda m, l, i, c, q=q: q.G(m, l, i, c) * q.C(m, l, c)
        q.lay = lambda tau: l
        q.rows = equations(X, N, NL, True, beam, iso, q.G, q.kp, q.K, q.B, q.g, q.s, q.NS, q.st0, q.mu, mw, q.mu0, q.I0 / (4 * X.pi) if beam else 0, rho, has, q.bp, q.bn)
    for k in range(3):
        name, sh = u.rows[k][:2]

        def res(q, m, *i):
            # one layer's unknowns at a time: the others enter in the same way
            co, rhs = q.rows[k][3:]
            return X.sum(NL, lambda l: X.sum(NQ, lambda c: co(m, *i, l, c) * q.C(m, l, c))) - rhs(m, *i)
        X.forall((p.NF,) + sh, lambda m, *i: X.eq("equations: " + name, res(w, m, *i), a * res(u, m, *i) + b * res(v, m, *i)))
    if beam:
        NLeg = p.a["NLeg"]
        X.assume(X.le(p.NF, NLeg))
        X.atomic("NLeg")
        om, wl = p.a["scaled_omega_arr"], p.a["weighted_scaled_Leg_coeffs"]
        ys = {q: system(X, N, NLeg, om, wl, p.mu, p.mu0, p.Minv, p.W, q.I0 / (4 * X.pi)) for q in (u, v, w)}

        def beq(q, m, i, s):
            y = ys[q]
            return y.AV(m, l, s, i, lambda j: q.B(m, l, j)) + q.B(m, l, i + (N if s else 0)) / p.mu0 - y.Xv(m, l, i, s)
        for s in (0, 1):
            X.modes(p.NF, lambda m: X.forall((N,), lambda i: X.eq("equations: beam particular solution", beq(w, m, i, s), a * beq(u, m, i, s) + b * beq(v, m, i, s))))
    for anti in (False, True):
        nm = " (antiderivative)" if anti else ""
        X.eq("intensity" + nm, w.u(i, t, phi, anti), a * u.u(i, t, phi, anti) + b * v.u(i, t, phi, anti))
        X.eq("zeroth mode" + nm, w.u0(i, t, anti), a * u.u0(i, t, anti) + b * v.u0(i, t, anti))
        X.eq("direct beam" + nm, w.direct(t, anti), a * u.direct(t, anti) + b * v.direct(t, anti))
        X.eq("beam at scaled depth" + nm, w.direct_scaled(t, anti), a * u.direct_scaled(t, anti) + b * v.direct_scaled(t, anti))


@contract("lemma.scaling", ["C06", "C13", "C20"], "lemma over contracts: delta-M scaling is a change of variable to the explicitly scaled problem", product(beam=(True, False), iso=(True, False)), conc=False)
def scaling(X, beam, iso):
    import copy
    p = layer_problem(X, beam, iso)
    l, t, phi, i = X.int("l", 0), X.real("tau", pos=True), X.real("phi"), X.int("i", 0)
    X.assume(X.lt(l, p.NL))
    X.assume(X.lt(i, 2 * p.N))
    q = copy.copy(p)
    q.scale = lambda l: X.r(1)
    q.tau_arr = lambda l: p.st0(l + 1)
    p.lay = q.lay = lambda tau: l
    ts = p.stau(t, l)
    X.eq("zeroth mode at the scaled depth of the scaled problem", p.u0(i, t, False), q.u0(i, ts, False))
    X.eq("intensity at the scaled depth of the scaled problem", p.u(i, t, phi, False), q.u(i, ts, phi, False))
    F = lambda p, t, o: 2 * X.pi * X.sum(p.N, lambda k: p.mu(k) * p.W(k) * p.u0(k + o, t, False))
    X.eq("upward flux", F(p, t, 0), F(q, ts, 0))
    down = lambda p, t: F(p, t, p.N) + p.mu0 * (p.direct_scaled(t, False) - p.direct(t, False)) + p.mu0 * p.direct(t, False)
    X.eq("total downward flux", down(p, t), down(q, ts))
    om, f = X.real("om"), X.real("f")
    X.eq("absorption per unscaled depth is unchanged", (1 - om * f) * (1 - (1 - f) * om / (1 - om * f)), 1 - om)


@contract("lemma.binomial", ["C06", "C13"], "lemma over contracts: the scaled source polynomial is the same source at the unscaled depth", conc=False)
def binomial(X):
    """binomial theorem by induction, from choose(n+1, i+1) = choose(n, i) + choose(n, i+1), choose(n, 0) = 1, choose(n, n+1) = 0"""
    I = X.T.I.of
    ch = lambda n, i: X.T.ruf("choose", (I(n), I(i)))
    x, y = X.real("x"), X.real("y")
    B = lambda n: X.sum(n + 1, lambda i: ch(n, i) * X.pow(x, i) * X.pow(y, n - i))
    theorem = lambda n: B(n) - X.pow(x + y, n)
    z = X.T.ZERO
    X.eqmod("binomial theorem (base)", B(I(0)), X.r(1), lambda: [1 - ch(0, 0)])
    n = X.int("n", 0)
    pascal = lambda i: ch(n + 1, i + 1) - ch(n, i) - ch(n, i + 1)
    term = lambda n, i: ch(n, i) * X.pow(x, i) * X.pow(y, n - i)
    X.eqmod("binomial theorem (step)", B(n + 1), X.pow(x + y, n + 1), lambda: [
        -head(X, lambda i: term(n + 1, i), n + 1),                       # B(n+1) = first term + shifted rest
        -X.sum(n + 1, lambda i: pascal(i) * X.pow(x, i + 1) * X.pow(y, n - i)),
        -(ch(n + 1, 0) - 1) * X.pow(y, n + 1) + (ch(n, 0) - 1) * X.pow(y, n + 1),
        y * head(X, lambda i: term(n, i), n),                            # y B(n) likewise
        -ch(n, n + 1) * X.pow(x, n + 1),
        X.pow(x + y, n + 1) - (x + y) * X.pow(x + y, n),                 # definition of the power
        -(x + y) * theorem(n)])
    NS = X.int("NS", 1)
    p, a, b, t = X.arr("p", (NS,)), X.real("a", pos=True), X.real("b"), X.real("t")
    new = lambda i: X.sum(NS, lambda j: X.ite(X.le(i, j), ch(j, i) * X.pow(1 / a, j) * X.pow(-b, j - i) * p(j), X.r(0)))
    th = lambda j: X.sum(j + 1, lambda i: ch(j, i) * X.pow(t, i) * X.pow(-b, j - i)) - X.pow(t - b, j)
    X.eqmod("new polynomial at t is the old one at (t - b) / a", X.sum(NS, lambda i: new(i) * X.pow(t, i)), X.sum(NS, lambda j: p(j) * X.pow((t - b) / a, j)),
            lambda: [-X.sum(NS, lambda j: p(j) * X.pow(1 / a, j) * th(j)),
                     triangle(X, lambda i, j: ch(j, i) * X.pow(1 / a, j) * X.pow(-b, j - i) * p(j) * X.pow(t, i), NS)])


@contract("lemma.corrections", ["C07", "C04"], "lemma over contracts: the TMS term solves the single-scattering equation of the phase-function difference; antiderivatives of the corrections", conc=False)
def corrections(X):
    """of the formulas in the contract of u_corrected, in every layer"""
    from .pyd import In, NT
    p = In(X, True, False, True, nleg=True, nf=True, nt=True, NL=X.int("NL", 2), corr=True, N=X.int("N", 2))
    NL, mu0 = p.NL, p.mu0
    ph = X.real("phi")
    nt = NT(X, p, X.real("rescale", pos=True), lambda q: ph, True)
    l, m = X.int("l", 0), X.real("mu", pos=True)
    X.assume(X.lt(l, NL))
    # (the phase functions enter as one number per layer)
    nt.source = lambda k, m_, q: X.T.ruf("source", (X.T.I.of(k),), (m_,))
    for nm, f, s in (("upward", nt.up, 1), ("downward", nt.down, -1)):
        dT, x = d(X, lambda x: f(l, m, x, 0, False), "x")
        X.eq("TMS (%s): mu dT/dtau = T - S exp(-tau/mu0)" % nm, s * m * dT, f(l, m, x, 0, False) - nt.source(l, s * m, 0) * X.exp(-x / mu0))

        def inner(l):
            x = p.st(l + 1)
            F = lambda w: nt.from_below(l + 1 + w, l, m, x, 0, False)
            X.eqmod("TMS (%s) is continuous between layers" % nm, f(l, m, x, 0, False), f(l + 1, m, x, 0, False), lambda: [-head(X, F, NL - l - 2)] if s > 0 else [])
        X.forall((NL - 1,), inner)
        dA, t = d(X, lambda t: f(l, m, p.st(l + 1) - (p.tau(l) - t) * p.scale(l), 0, True), "tau")
        X.eq("TMS (%s): antiderivative in the user's optical depth" % nm, dA, f(l, m, p.st(l + 1) - (p.tau(l) - t) * p.scale(l), 0, False))
    X.eq("no TMS term enters at the surface", nt.up(NL - 1, m, p.st(NL), 0, False), X.r(0))
    X.eq("no TMS term enters at the top", nt.down(X.T.ZERO, m, X.r(0), 0, False), X.r(0))
    nt.smu0 = X.real("smu0", pos=True)
    dc, t = d(X, lambda t: nt.chi(m, t, True), "tau")
    X.eq("IMS: antiderivative", dc, nt.chi(m, t, False))
