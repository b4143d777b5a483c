"""Contracts of the public helpers in subroutines.py"""
from . import contract, product

M = "subroutines"


@contract("prepend", ["C17", "C06", "C13"], "subroutines.prepend", public=True)
def prepend(X):
    n = X.int("n", 1)
    a, v = X.arr("a", (n,)), X.real("v")
    o = X.call(X.fn(M, "prepend"), a, n, v)
    X.shape("one entry longer", o, (n + 1,))
    X.eq("the value comes first", X.at(o, 0), v)
    X.forall((n,), lambda i: X.eq("then the array", X.at(o, i + 1), a(i)))
    X.frame()
    X.side()
    X.fresh_result("result owns its memory", o)


@contract("transform_interval", ["C12"], "subroutines.transform_interval", product(mode=("array", "scalar")), public=True)
def transform_interval(X, mode):
    n = X.int("n", 1)
    c, d, a, b = X.real("c"), X.real("d"), X.real("a"), X.real("b")
    f = X.fn(M, "transform_interval")
    if mode == "scalar":
        x = X.real("x")
        o = X.call(f, x, c, d, a, b)
        X.eq("affine map", X.at(o), c + (d - c) * (x - a) / (b - a))
    else:
        x = X.arr("x", (n,))
        o = X.call(f, x, c, d, a, b)
        X.shape("shape kept", o, (n,))
        X.forall((n,), lambda i: X.eq("affine map", X.at(o, i), c + (d - c) * (x(i) - a) / (b - a)))
    X.eq("a goes to c", X.at(X.call(f, a, c, d, a, b)), c)
    X.eq("b goes to d", X.at(X.call(f, b, c, d, a, b)), d)
    X.frame()


@contract("transform_weights", ["C12"], "subroutines.transform_weights", public=True)
def transform_weights(X):
    n = X.int("n", 1)
    c, d, a, b = X.real("c"), X.real("d"), X.real("a"), X.real("b")
    w = X.arr("w", (n,))
    o = X.call(X.fn(M, "transform_weights"), w, c, d, a, b)
    X.shape("shape kept", o, (n,))
    X.forall((n,), lambda i: X.eq("weights scale with the length", X.at(o, i), w(i) * (d - c) / (b - a)))
    X.frame()


@contract("calculate_nu", ["C18", "C07"], "subroutines.calculate_nu", product(s=[(a, b, c, d) for a in "av" for b in "av" for c in "av" for d in "av"]), public=True)
def calculate_nu(X, s):
    ns = [X.int("n%d" % k, 2) for k in range(4)]
    names = ("mu", "phi", "mup", "phip")
    args, get = [], []
    for k in range(4):
        if s[k] == "a":
            a = X.arr(names[k], (ns[k],), gen=(lambda r, sh, k=k: r.uniform(-1, 1, sh) * (1 if k % 2 == 0 else 6)))
            args.append(a)
            get.append(a)
        else:
            v = X.real(names[k], lo=-0.99, hi=0.99)
            args.append(v)
            get.append(lambda i, v=v: v)
    o = X.call(X.fn(M, "calculate_nu"), *args)
    ax = [k for k in range(4) if s[k] == "a"]
    X.shape("axes mu, phi, mu', phi' without those of length one", o, tuple(ns[k] for k in ax))

    def body(*i):
        j = [0] * 4
        for k, v in zip(ax, i):
            j[k] = v
        mu, phi, mup, phip = (get[k](j[k]) for k in range(4))
        X.eq("cosine of the scattering angle", X.at(o, *i),
             mu * mup + X.sqrt(1 - mu * mu) * X.sqrt(1 - mup * mup) * X.cos(phi - phip))
    X.forall(tuple(ns[k] for k in ax), body)
    X.frame()
    X.side()


@contract("Gauss_Legendre_quad", ["C12", "C05", "C16"], "subroutines.Gauss_Legendre_quad", product(dflt=(False, True)), public=True)
def gauss(X, dflt):
    N = X.int("N", 1)
    f = X.fn(M, "Gauss_Legendre_quad")
    x, w = X.gl(N)
    if dflt:
        c, d = X.r(0), X.r(1)
        o = X.call(f, N)
    else:
        c, d = X.real("c"), X.real("d")
        o = X.call(f, N, c, d)
    X.shape("N nodes", o[0], (N,))
    X.shape("N weights", o[1], (N,))
    X.forall((N,), lambda i: X.eq("nodes: Gauss-Legendre nodes mapped from [-1,1] to [c,d]", X.at(o[0], i), c + (d - c) * (x(i) + 1) / 2))
    X.forall((N,), lambda i: X.eq("weights: scaled by (d-c)/2", X.at(o[1], i), w(i) * (d - c) / 2))
    X.side()


@contract("Clenshaw_Curtis_quad", ["C12"], "subroutines.Clenshaw_Curtis_quad", product(n=(1, 2, "m")), public=True)
def clenshaw(X, n):
    """Nphi = 2 m + 1 nodes; weights are those of the interpolatory rule on the Chebyshev extrema, in Waldvogel's cosine-sum form"""
    m = X.int("m", 3) if n == "m" else n
    c, d = X.real("c"), X.real("d")
    o = X.call(X.fn(M, "Clenshaw_Curtis_quad"), 2 * m + 1, c, d)
    X.shape("nodes", o[0], (2 * m + 1,))
    X.shape("weights", o[1], (2 * m + 1,))
    mp = lambda x: c + (d - c) * (x + 1) / 2
    R = X.r
    ang = lambda i: X.cos(X.pi * R(i) / R(2 * m))
    X.forall((m,), lambda i: X.eq("lower nodes", X.at(o[0], i), mp(-ang(i))))
    X.eq("middle node", X.at(o[0], m), mp(X.r(0)))
    X.forall((m,), lambda i: X.eq("upper nodes", X.at(o[0], 2 * m - i), mp(ang(i))))

    def w(k):
        v = (2 + X.ite(X.ieq(X.mod2(k), 0), R(1), R(-1)) * 2 / (1 - 4 * R(m) * R(m))
             + 2 * X.sum(m, lambda j: 2 / (1 - 4 * R(j) * R(j)) * X.cos(X.pi * R(j) * R(k) / R(m)), lo=1)) / (2 * R(m))
        return X.ite(X.ieq(k, 0), v / 2, v) * (d - c) / 2
    X.forall((m + 1,), lambda k: X.eq("weights", X.at(o[1], k), w(k)))
    X.forall((m + 1,), lambda k: X.eq("weights are symmetric", X.at(o[1], 2 * m - k), X.at(o[1], k)))
    X.side()


@contract("Clenshaw_Curtis_quad.reject", ["C12", "C09"], "subroutines.Clenshaw_Curtis_quad (input check)", public=True, conc=False)
def clenshaw_reject(X):
    n = X.int("n", -5)
    X.call(X.fn(M, "Clenshaw_Curtis_quad"), n, X.real("c"), X.real("d"))
    X.raises("number of nodes", [X.le(n, 2), X.ieq(X.mod2(n), 0)])


@contract("generate_FD_mat", ["C17"], "subroutines.generate_FD_mat", public=True)
def fd(X):
    n = X.int("n", 4)
    a, b = X.real("a"), X.real("b")
    o = X.call(X.fn(M, "generate_FD_mat"), n, a, b)
    x = lambda i: a + (b - a) * X.r(i) / X.r(n - 1)
    X.shape("grid", o[0], (n,))
    X.forall((n,), lambda i: X.eq("equispaced grid", X.at(o[0], i), x(i)))
    D = X.sym.NP_dense(o[1]) if hasattr(X, "sym") and hasattr(X.sym, "NP_dense") else X.call(X.pyfunc("def dense(s):\n    return s.toarray()\n", "dense"), o[1])
    X.shape("square matrix", D, (n, n))
    p0, p1, p2 = X.real("p0"), X.real("p1"), X.real("p2")
    p = lambda t: p0 + p1 * t + p2 * t * t
    h = (b - a) / X.r(n - 1)
    i2 = lambda i, j: X.at(D, i, j)
    X.eq("second-order one-sided difference at the first point (exact on quadratics)",
         X.sum(n, lambda j: i2(0, j) * p(x(j))), p1 + 2 * p2 * x(0))
    X.eq("second-order one-sided difference at the last point (exact on quadratics)",
         X.sum(n, lambda j: i2(n - 1, j) * p(x(j))), p1 + 2 * p2 * x(n - 1))
    X.forall((n - 2,), lambda i: X.eq("central difference inside (exact on quadratics)",
             X.sum(n, lambda j: i2(i + 1, j) * p(x(j))), p1 + 2 * p2 * x(i + 1)))
    X.forall((n, n), lambda i, j: X.eq("entries", i2(i, j), X.ite(X.ieq(i, 0), X.ite(X.ieq(j, 0), -3 / (2 * h), X.ite(X.ieq(j, 1), 2 / h, X.ite(X.ieq(j, 2), -1 / (2 * h), X.r(0)))),
             X.ite(X.ieq(i, n - 1), X.ite(X.ieq(j, n - 1), 3 / (2 * h), X.ite(X.ieq(j, n - 2), -2 / h, X.ite(X.ieq(j, n - 3), 1 / (2 * h), X.r(0)))),
                   X.ite(X.ieq(j, i + 1), 1 / (2 * h), X.ite(X.ieq(j, i - 1), -1 / (2 * h), X.r(0)))))))
    X.side()


@contract("atleast_2d_append", ["C17"], "subroutines.atleast_2d_append", product(r=[(0,), (1,), (2,), (3,), (0, 1, 2), (1, 1)]), public=True)
def atleast(X, r):
    n, m, k = X.int("n", 1), X.int("m", 1), X.int("k", 1)
    sh = {1: (n,), 2: (n, m), 3: (n, m, k)}
    args = [X.real("x%d" % i) if q == 0 else X.arr("a%d" % i, sh[q]) for i, q in enumerate(r)]
    o = X.call(X.fn(M, "atleast_2d_append"), *args)
    outs = [o] if len(r) == 1 else o
    X.holds("one result per argument", len(outs) == len(r))
    for q, a, v in zip(r, args, outs):
        if q == 0:
            X.shape("scalar becomes 1 x 1", v, (1, 1))
            X.eq("scalar value", X.at(v, 0, 0), a)
        elif q == 1:
            X.shape("vector becomes a column", v, (n, 1))
            X.forall((n,), lambda i: X.eq("vector entries", X.at(v, i, 0), a(i)))
        else:
            X.shape("matrix shape kept", v, sh[q])
            X.forall(sh[q], lambda *i: X.eq("matrix entries", X.at(v, *i), a(*i)))
    X.frame()
    X.side()


@contract("diff_act_flux", ["C16", "C05", "C10"], "subroutines.generate_diff_act_flux_funcs", product(mode=("array", "scalar"), anti=(False, True), rt=(False, True)), public=True)
def actinic(X, mode, anti, rt):
    N, n = X.int("N", 1), X.int("NT", 2)
    _, w = X.gl(N)
    U = X.arr("U", (2 * N, n) if mode == "array" else (2 * N,))
    U0 = X.arr("U0", (2 * N,))
    rc = X.arr("reclass", (n,)) if mode == "array" else X.real("reclass")
    tau = X.arr("tau", (n,), pos=True) if mode == "array" else X.real("tau", pos=True)
    tarr = X.arr("tau_arr", (X.int("NL", 1),))
    seen = []

    def cb(t, a, r, act):
        if isinstance(t, int) and t == 0:
            return X.fresh_out(U0)
        seen.append((t, a, act))
        out = (X.fresh_out(U),)
        if r:
            out += (X.fresh_out(tarr),)
        if act:
            out += (X.fresh_out(rc) if mode == "array" else rc,)
        return out[0] if len(out) == 1 else out
    u0 = X.pyfunc("def u0(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False, *, _return_act_dscale_for_reclass=False):\n"
                  "    return _cb(tau, is_antiderivative_wrt_tau, return_tau_arr, _return_act_dscale_for_reclass)\n", "u0", _cb=cb)
    up, dn = X.call(X.fn(M, "generate_diff_act_flux_funcs"), u0)
    kw = {"return_tau_arr": True} if rt else {}
    for nm, f, off in (("upward", up, 0), ("downward diffuse", dn, N)):
        o = X.pcall(f, tau, anti, **kw)
        if rt:
            X.same(nm + ": layer boundaries returned", o[1], tarr)
            o = o[0]
        X.shape(nm + ": shape", o, (n,) if mode == "array" else ())
        for t in ([0] if mode != "array" else [None]):
            def body(*i):
                s = 2 * X.pi * X.sum(N, lambda k: w(k) / 2 * U(k + off, *i))
                if nm != "upward":
                    s = s + (rc(*i) if mode == "array" else rc)
                X.eq(nm + " actinic flux is the quadrature of the zeroth mode" + ("" if nm == "upward" else " plus the reclassified part"), X.at(o, *i), s)
            X.forall((n,) if mode == "array" else (), body)
    for t, a, act in seen:
        X.same("evaluated at the requested depth", t, tau)
        X.holds("antiderivative switch passed through", a is anti or a == anti)
    X.pure()
    X.frame()
    X.side()


@contract("Planck", ["C13"], "subroutines.Planck", product(mode=("array", "scalar")), public=True)
def planck(X, mode):
    n = X.int("n", 2)
    h, c, k = X.const("h"), X.const("c"), X.const("k")
    nu = X.real("nu", lo=200.0, hi=2000.0)
    import numpy as np
    gen = lambda r, s: np.where(r.uniform(size=s) < 0.4, 0.0, r.uniform(150, 400, s))
    if mode == "array":
        T = X.arr("T", (n,), gen=gen)
        t = T
    else:
        T = X.real("T", lo=150.0, hi=400.0)
        t = lambda: T
    o = X.call(X.fn(M, "Planck"), T, nu)
    X.shape("shape of T", o, (n,) if mode == "array" else ())

    def body(*i):
        e = X.exp(-(100 * h * c * nu / (k * t(*i)))) if not X.concrete or t(*i) != 0 else 0.0
        X.eq("black-body radiance at wavenumber nu (zero at zero temperature)", X.at(o, *i) , X.ite(X.req(t(*i), 0), X.r(0), 2 * X.r(10 ** 8) * h * c * c * nu * nu * nu * e / (1 - e)))
    X.forall((n,) if mode == "array" else (), body)
    X.frame()
    X.side()


def planck_of(X):
    h, c, k = X.const("h"), X.const("c"), X.const("k")

    def P(T, nu):
        if X.concrete and T == 0:
            return 0.0
        e = X.exp(-(100 * h * c * nu / (k * T)))
        return X.ite(X.req(T, 0), X.r(0), 2 * X.r(10 ** 8) * h * c * c * nu * nu * nu * e / (1 - e))
    return P


def planck_stub(X):
    P = planck_of(X)
    if X.concrete:
        return

    def model(d):
        a = X.sym.arr_of(d["T"])
        f = a.fn()
        if a.ndim == 0:
            return X.uf("PlanckB", (), (f(), d["WVNM"]))
        return X.sym.new(a.shape, lambda *i: X.uf("PlanckB", (), (f(*i), d["WVNM"])))
    X.stub("Planck", model)


def B(X):
    P = planck_of(X)
    return lambda T, nu: X.uf("PlanckB", (), (T, nu), conc=P)


@contract("blackbody_contrib_to_BCs", ["C13"], "subroutines.blackbody_contrib_to_BCs", product(mode=("array", "scalar")), public=True)
def bbc(X, mode):
    n = X.int("n", 2)
    lo, hi = X.real("lo", lo=300.0, hi=700.0), X.real("hi", lo=800.0, hi=1500.0)
    T = X.arr("T", (n,), gen=lambda r, s: r.uniform(150, 400, s)) if mode == "array" else X.real("T", lo=150.0, hi=400.0)
    planck_stub(X)
    o = X.call(X.fn(M, "blackbody_contrib_to_BCs"), T, lo, hi)
    X.shape("shape of T", o, (n,) if mode == "array" else ())
    b = B(X)
    X.forall((n,) if mode == "array" else (), lambda *i: X.eq("integral of the Planck function over the band", X.at(o, *i), X.integral(lambda w: b(T(*i) if mode == "array" else T, w), lo, hi)))
    X.frame()


@contract("linear_spline_coefficients", ["C13"], "subroutines.linear_spline_coefficients", product(chk=(True, False)), public=True)
def spline(X, chk):
    import numpy as np
    n = X.int("n", 2)
    x, y = X.arr("x", (n,), gen=lambda r, s: np.cumsum(r.uniform(0.2, 1, s))), X.arr("y", (n,))
    o = X.call(X.fn(M, "linear_spline_coefficients"), x, y, chk)
    X.shape("one linear piece per interval", o, (n - 1, 2))
    X.forall((n - 1,), lambda i: X.eq("piece passes through its left point", X.at(o, i, 0) + X.at(o, i, 1) * x(i), y(i)))
    X.forall((n - 1,), lambda i: X.eq("piece passes through its right point", X.at(o, i, 0) + X.at(o, i, 1) * x(i + 1), y(i + 1)))
    if chk:
        X.raises("input check", [X.any(n - 1, lambda i: X.not_(X.rlt(X.r(0), x(i + 1) - x(i))))])
    X.frame()
    X.side()


@contract("linear_spline_coefficients.lengths", ["C13", "C09"], "subroutines.linear_spline_coefficients (input check)", public=True, conc=False)
def spline_len(X):
    n, m = X.int("n", 0), X.int("m", 0)
    x, y = X.arr("x", (n,)), X.arr("y", (m,))
    X.call(X.fn(M, "linear_spline_coefficients"), x, y)
    X.raises("input check", [X.le(n, 1), X.not_(X.ieq(n, m)), X.any(n - 1, lambda i: X.not_(X.rlt(X.r(0), x(i + 1) - x(i))))])


@contract("generate_s_poly_coeffs", ["C13"], "subroutines.generate_s_poly_coeffs", product(mode=("array", "scalar")), public=True)
def spoly(X, mode):
    import numpy as np
    n = X.int("n", 1) if mode == "array" else 1
    lo, hi = X.real("lo", lo=300.0, hi=700.0), X.real("hi", lo=800.0, hi=1500.0)
    if mode == "array":
        tau = X.arr("tau", (n,), pos=True, gen=lambda r, s: np.cumsum(r.uniform(0.2, 1, s)))
        t = tau
    else:
        tau = X.real("tau", pos=True)
        t = lambda i: tau
    T = X.arr("T", (n + 1,), gen=lambda r, s: r.uniform(150, 400, s))
    planck_stub(X)
    o = X.call(X.fn(M, "generate_s_poly_coeffs"), tau, T, lo, hi)
    X.shape("one linear source per layer", o, (n, 2))
    b = B(X)
    E = lambda i: X.integral(lambda w: b(T(i), w), lo, hi)
    top = lambda i: X.ite(X.ieq(i, 0), X.r(0), t(i - 1 if not X.concrete else max(i - 1, 0)))
    X.forall((n,), lambda i: X.eq("source at the top of the layer is the emission at that boundary", X.at(o, i, 0) + X.at(o, i, 1) * top(i), E(i)))
    X.forall((n,), lambda i: X.eq("source at the bottom of the layer is the emission at that boundary", X.at(o, i, 0) + X.at(o, i, 1) * t(i), E(i + 1)))
    X.frame()
    X.side()


@contract("generate_s_poly_coeffs.lengths", ["C13", "C09"], "subroutines.generate_s_poly_coeffs (input check)", public=True, conc=False)
def spoly_len(X):
    n, m = X.int("n", 1), X.int("m", 0)
    planck_stub(X)
    X.call(X.fn(M, "generate_s_poly_coeffs"), X.arr("tau", (n,)), X.arr("T", (m,)), X.real("lo"), X.real("hi"))
    X.raises("input check", [X.not_(X.ieq(m, n + 1))])


@contract("generate_emissivity_from_BDRF", ["C15"], "subroutines.generate_emissivity_from_BDRF", product(kind=("scalar", "function")), public=True)
def emissivity(X, kind):
    N = X.int("N", 1)
    f = X.fn(M, "generate_emissivity_from_BDRF")
    if kind == "scalar":
        r = X.real("rho")
        X.eq("one minus the albedo", X.at(X.call(f, N, r)), 1 - r)
        return
    o = X.call(f, N, bdrf(X, "rho"))
    x, w = X.gl(N)
    mu = lambda i: (x(i) + 1) / 2
    X.shape("one value per direction", o, (N,))
    X.forall((N,), lambda i: X.eq("Kirchhoff: one minus the hemispherical reflectance", X.at(o, i),
             1 - 2 * X.sum(N, lambda j: rho(X, "rho", mu(i), mu(j)) * mu(j) * w(j) / 2)))
    X.side()


def rho(X, name, a, b):
    return X.uf(name, (), (a, b), conc=lambda a, b: 0.3 + 0.2 * a - 0.1 * b + 0.15 * a * b * (len(name)))


def bdrf(X, name):
    """a caller's BDRF mode: maps (mu, mu') to the matrix rho(mu_i, mu'_j)"""
    def f(mu, mup):
        (a, s), (b, t) = X.elements(mu), X.elements(mup)
        return X.array((s[0], t[0]), lambda i, j: rho(X, name, a(i), b(j)))
    return X.pyfunc("def rho(mu, neg_mup):\n    return _f(mu, neg_mup)\n", "rho", _f=f)


@contract("cache_BDRF_Fourier_modes", ["C15"], "subroutines.cache_BDRF_Fourier_modes", product(beam=(True, False), one=(False, True)), public=True)
def cache(X, beam, one):
    N = 1 if one else X.int("N", 2)
    x, w = X.gl(N)
    mu = lambda i: (x(i) + 1) / 2
    mu0 = X.real("mu0", lo=0.3, hi=0.9)
    s = X.real("scal")
    modes = [bdrf(X, "rhoA"), s, bdrf(X, "rhoBB")]
    args = [N, modes]
    if beam:
        X.assume(X.rlt(X.r(0), mu0))
        X.assume(X.not_(X.rlt(X.r(1), mu0)))
        if one:
            X.assume(X.not_(X.req(mu0, X.r(1) / 2)))
        args.append(mu0)
    out = X.call(X.fn(M, "cache_BDRF_Fourier_modes"), *args)
    X.holds("one entry per mode", len(out) == 3)
    nodes = X.array((N,), mu)
    b = X.array((1,), lambda i: mu0)
    for m, nm in ((0, "rhoA"), (2, "rhoBB")):
        o = X.call(out[m], nodes, nodes)
        X.shape("matrix of nodes", o, (N, N))
        X.forall((N, N), lambda i, j: X.eq("cached mode equals the original at the nodes", X.at(o, i, j), rho(X, nm, mu(i), mu(j))))
        o = X.call(out[m], nodes, b)
        X.shape("column for the beam direction", o, (N, 1))
        X.forall((N,), lambda i: X.eq("cached mode equals the original at the beam direction", X.at(o, i, 0), rho(X, nm, mu(i), mu0)))
    X.eq("scalar mode kept", X.at(X.call(out[1], nodes, nodes)), s)
    X.eq("scalar mode kept for the beam", X.at(X.call(out[1], nodes, b)), s)
    X.side()


@contract("affine_transform_poly_coeffs", ["C06"], "subroutines.affine_transform_poly_coeffs", product(n=(1, 2, 3, 4, 5, "n")), public=True)
def affine(X, n):
    NL = X.int("NL", 1)
    sym = n == "n"
    n = X.int("n", 2) if sym else n
    p, a, b = X.arr("p", (NL, n)), X.arr("a", (NL,), pos=True), X.arr("b", (NL,))
    X.assume(X.not_(X.any(NL, lambda i: X.req(a(i), 0))))
    o = X.call(X.fn(M, "affine_transform_poly_coeffs"), p, a, b)
    X.shape("shape kept", o, (NL, n))
    if not sym:
        t = X.real("t")
        pw = lambda x, k: X.r(1) if k == 0 else X.pow(x, k)
        X.forall((NL,), lambda l: X.eq("new polynomial at t is the old one at (t - b) / a", sum((X.at(o, l, k) * pw(t, k) for k in range(n)), X.r(0)),
                 sum((p(l, k) * pw((t - b(l)) / a(l), k) for k in range(n)), X.r(0))))
    else:
        import math
        bi = lambda j, i: X.uf("binom", (j, i), conc=math.comb)
        X.forall((NL, n), lambda l, i: X.eq("binomial expansion", X.at(o, l, i),
                 X.sum(n, lambda j: X.ite(X.le(i, j), bi(j, i) * X.pow(1 / a(l), j) * X.pow(-b(l), j - i if not X.concrete else max(j - i, 0)) * p(l, j), X.r(0)))))
    X.frame()
    X.side()


@contract("affine_transform_poly_coeffs.reject", ["C09"], "subroutines.affine_transform_poly_coeffs (input check)", public=True, conc=False)
def affine_reject(X):
    NL, n = X.int("NL", 1), X.int("n", 2)
    a = X.arr("a", (NL,))
    X.call(X.fn(M, "affine_transform_poly_coeffs"), X.arr("p", (NL, n)), a, X.arr("b", (NL,)))
    X.raises("scale factors", [X.any(NL, lambda i: X.req(a(i), 0))])


@contract("to_diag_ordered_form", ["C17", "C03"], "subroutines.to_diag_ordered_form", public=True)
def diag(X):
    u, l = X.int("u", 1), X.int("l", 1)
    n = X.int("n", 5)
    X.assume(X.lt(u, n))
    X.assume(X.lt(l, n))
    A = X.arr("A", (n, n))
    o = X.call(X.fn(M, "to_diag_ordered_form"), A, u, l)
    X.shape("one row per diagonal", o, (u + l + 1, n))

    def body(i, j):
        if X.concrete:
            if -u <= i - j <= l:
                X.eq("band entry (i, j) is stored in row u + i - j, column j", X.at(o, u + i - j, j), A(i, j))
            return
        old = X.sym.ST.ctx
        X.assume(X.le(j - i, u))
        X.assume(X.le(i - j, l))
        X.eq("band entry (i, j) is stored in row u + i - j, column j", X.at(o, u + i - j, j), A(i, j))
        X.sym.ST.ctx = old
    X.forall((n, n), body)
    X.frame()
    X.side()


@contract("interpolate", ["C14", "C10"], "subroutines.interpolate", product(kind=("u", "u0"), mode=("array", "scalar"), fe=(False, True), rt=(False, True), anti=(False, True)), public=True)
def interpolate(X, kind, mode, fe, rt, anti):
    if kind == "u0" and fe:
        from dual import Skip
        raise Skip()
    N = X.int("N", 2)
    n, k, q = X.int("NT", 2), X.int("NP", 2), X.int("NM", 2)
    rest = (n, k) if kind == "u" else (n,)
    U = X.arr("U", (2 * N,) + rest)
    U0 = X.arr("Ustart", (2 * N,))
    err = X.real("err")
    tarr = X.arr("tau_arr", (X.int("NL", 1),))
    tau, phi = X.arr("tau", (n,), pos=True), X.arr("phi", (k,))
    seen = []

    def cb(t, p, a, f, r):
        if isinstance(t, int) and t == 0:
            return X.fresh_out(U0)
        seen.append((t, p, a))
        out = (X.fresh_out(U),)
        if f:
            out += (err,)
        if r:
            out += (X.fresh_out(tarr),)
        return out[0] if len(out) == 1 else out
    if kind == "u":
        f = X.pyfunc("def u(tau, phi, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False, *, _return_l=False):\n"
                     "    return _cb(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)\n", "u", _cb=cb)
    else:
        f = X.pyfunc("def u0(tau, is_antiderivative_wrt_tau=False, return_tau_arr=False, _return_act_dscale_for_reclass=False):\n"
                     "    return _cb(tau, 0, is_antiderivative_wrt_tau, False, return_tau_arr)\n", "u0", _cb=lambda t, p, a, ff, r: cb(t, None, a, ff, r))
    g = X.call(X.fn(M, "interpolate"), _two(X, f, kind))
    mu = X.arr("mu", (q,), gen=lambda r, s: r.uniform(-1, 1, s)) if mode == "array" else X.real("mu", lo=-0.99, hi=0.99)
    m = (lambda i: mu(i)) if mode == "array" else (lambda *i: mu)
    x, _ = X.gl(N)
    L1 = X.lagrange(N, lambda i: (x(i) + 1) / 2)
    L2 = X.lagrange(N, lambda i: -(x(i) + 1) / 2)
    kw = {}
    if fe:
        kw["return_Fourier_error"] = True
    if rt:
        kw["return_tau_arr"] = True
    args = (mu, tau) + ((phi,) if kind == "u" else ()) + (anti,)
    o = X.pcall(g, *args, **kw)
    if fe or rt:
        X.holds("extra outputs appended in order", len(o) == 1 + fe + rt)
        if fe:
            X.same("Fourier error passed through", o[1], err)
        if rt:
            X.same("layer boundaries passed through", o[-1], tarr)
        o = o[0]
    dims = ((q,) if mode == "array" else ()) + rest
    X.shape("axes mu, tau, phi", o, dims)

    def body(*i):
        mi = m(i[0]) if mode == "array" else mu
        r = i[1:] if mode == "array" else i
        X.eq("polynomial in mu through the quadrature angles of the hemisphere", X.at(o, *i),
             X.ite(X.rlt(X.r(0), mi), X.sum(N, lambda j: L1(j, mi) * U(j, *r)), X.sum(N, lambda j: L2(j, mi) * U(j + N, *r))))
    X.forall(dims, body)
    for t, p, a in seen:
        X.same("evaluated at the requested depth", t, tau)
        if kind == "u":
            X.same("evaluated at the requested azimuth", p, phi)
        X.holds("antiderivative switch passed through", a is anti or a == anti)
    X.pure()
    X.frame()
    X.side()
    if not X.concrete:
        c = [X.any(q, lambda i: X.rlt(X.r(1), X.abs(mu(i))))] if mode == "array" else [X.rlt(X.r(1), X.abs(mu))]
        X.ip.raises and X.raises("mu range", c)


def _two(X, f, kind):
    return f
