"""pydisort: input checks, delta-M scaling, normalisation, what is handed to the solver, and the intensity corrections."""
from . import contract, product
from .assemble import PAR, KEPT
from .subs import rho, bdrf  # noqa


class In:
    """valid arguments of pydisort"""

    def __init__(self, X, beam, iso, f, bp="scalar", bn="scalar", nleg=True, nf=True, only_flux=False, nt=False, ag=False, NL=None, corr=False, N=None):
        import numpy as np
        self.X = X
        N = self.N = X.int("N", 1) if N is None else N
        NL = self.NL = X.int("NL", 1) if NL is None else NL
        A = self.a = {}
        R = X.r
        inc = lambda r, s: np.cumsum(r.uniform(0.2, 1.0, s))
        self.tau = A["tau_arr"] = X.boundaries(NL, gen=inc) if corr else X.arr("tau_arr", (NL,), pos=True, gen=inc)
        self.thick = lambda l: self.tau(l) - X.ite(X.ieq(l, 0), R(0), self.tau(l - 1 if not X.concrete else max(l - 1, 0)))
        self.om = A["omega_arr"] = X.arr("omega", (NL,), pos=True, gen=lambda r, s: r.uniform(0.2, 0.9, s))
        A["NQuad"] = 2 * N
        if nleg:
            self.NLeg = A["NLeg"] = X.int("NLeg", 2 if corr else 1)
            X.assume(X.le(self.NLeg, 2 * N))
        else:
            self.NLeg = 2 * N
        self.NA = X.int("extra", 1 if corr else 0) + self.NLeg
        import numpy as np
        self.leg = A["Leg_coeffs_all"] = X.arr("leg", (NL, self.NA), gen=lambda r, s: np.concatenate((np.ones((s[0], 1)), r.uniform(-0.7, 0.7, (s[0], s[1] - 1))), axis=1))
        X.assume(X.not_(X.any(NL, lambda l: X.not_(X.req(self.om(l) * self.leg(l, 0), self.om(l))))))
        self.mu0 = A["mu0"] = X.real("mu0", pos=True, lo=0.3, hi=0.9)
        self.phi0 = A["phi0"] = X.real("phi0", pos=True, lo=0.3, hi=1.9)
        self.I0 = A["I0"] = X.real("I0", pos=True) if beam else 0
        if only_flux:
            self.NF = 1
            A["only_flux"] = True
        elif nf:
            self.NF = A["NFourier"] = X.int("NF", 1)
            X.assume(X.le(self.NF, self.NLeg))
        else:
            self.NF = 2 * N
            X.assume(X.le(2 * N, self.NLeg))
        self.b = {}
        for nm, kind in (("b_pos", bp), ("b_neg", bn)):
            if kind == "zero":
                self.b[nm] = 0
            elif kind == "scalar":
                self.b[nm] = X.real(nm, pos=True)
            else:
                sh = (N,) if kind == "vector" else (N, self.NF)
                self.b[nm] = X.arr(nm, sh, pos=True)
            A[nm] = self.b[nm]
        self.kind = dict(b_pos=bp, b_neg=bn)
        if f:
            self.f = A["f_arr"] = X.arr("f", (NL,), nonneg=False, gen=lambda r, s: r.uniform(0.05, 0.4, s))
            X.assume(X.any(NL, lambda l: X.rlt(R(0), self.f(l))))
            self.scale = lambda l: 1 - self.om(l) * self.f(l)
        else:
            self.f = lambda l: R(0)
            self.scale = lambda l: R(1)
        self.NS = 0
        if iso:
            self.NS = X.int("NS", 1)
            self.s = A["s_poly_coeffs"] = X.arr("s", (NL, self.NS), gen=lambda r, s: r.uniform(0.1, 1.0, s))
            X.assume(X.any(NL, lambda l: X.any(self.NS, lambda k: X.not_(X.req(self.s(l, k), 0)))))
        self.nband = A["use_banded_solver_NLayers"] = X.int("nband", 3)
        if nt:
            A["NT_cor"] = True
        if ag:
            A["autograd_compatible"] = True
        A["BDRF_Fourier_modes"] = self.modes = ["opaque"]
        x, w = X.gl(N)
        self.mu = lambda i: (x(i) + 1) / 2
        self.w = lambda i: w(i) / 2
        if corr:
            # Gauss_Legendre_quad by its contract (proved in subs.quadrature): positive nodes and weights
            mu, W = self.mu, self.w
            self.mu = X.arr("mu", (N,), pos=True, gen=lambda r, s_: np.array([mu(i) for i in range(s_[0])]))
            self.w = X.arr("W", (N,), pos=True, gen=lambda r, s_: np.array([W(i) for i in range(s_[0])]))
            X.stub("Gauss_Legendre_quad", lambda d: (X.fresh_out(self.mu), X.fresh_out(self.w)))
        self.iso, self.beam, self.fs = iso, beam, f

    def st(self, l):
        """scaled optical depth of boundary l"""
        X = self.X
        if not self.fs:
            return X.ite(X.ieq(l, 0), X.r(0), self.tau(l - 1 if not X.concrete else max(l - 1, 0)))
        return X.sum(l, lambda k: self.scale(k) * self.thick(k))

    def call(self):
        X = self.X
        self.got = {}

        def model(d):
            self.got.update(d)
            return self.result()
        X.stub("_assemble_intensity_and_fluxes", model)
        return X.call(X.fn("pydisort", "pydisort"), **{k: v for k, v in self.a.items()})

    def result(self):
        return ("flux_up", "flux_down", "u0", "u") if not self.a.get("only_flux") else ("flux_up", "flux_down", "u0")


@contract("pydisort.args", ["C01", "C02", "C03", "C05", "C06", "C08", "C10", "C13", "C20"], "pydisort.pydisort",
          product(beam=(True, False), iso=(True, False), f=(False, True), b=(("scalar", "scalar"), ("vector", "matrix"), ("matrix", "vector"), ("zero", "zero"), ("scalar", "vector")), mode=("full", "flux", "default")))
def args(X, beam, iso, f, b, mode):
    if mode != "full" and b not in (("scalar", "scalar"), ("zero", "zero")):
        from dual import Skip
        raise Skip()
    if not beam and not iso and b == ("zero", "zero"):
        pass
    p = In(X, beam, iso, f, b[0], b[1], nleg=mode != "default", nf=mode != "default", only_flux=mode == "flux")
    NL, N = p.NL, p.N
    out = p.call()
    d = p.got
    X.holds("the solver is called", bool(d))
    X.shape("quadrature cosines", out[0], (2 * N,))
    X.forall((N,), lambda i: X.eq("upward cosines are the positive nodes", X.at(out[0], i), p.mu(i)))
    X.forall((N,), lambda i: X.eq("downward cosines are their negatives", X.at(out[0], i + N), -p.mu(i)))
    X.holds("the solver's functions are returned as they are", tuple(out[1:]) == p.result())
    same = lambda n, v: X.same("solver receives " + n, d[n], v)
    same("tau_arr", p.tau)
    same("N", N)
    same("NQuad", 2 * N)
    same("NLeg", p.NLeg)
    same("NFourier", p.NF)
    same("NLayers", NL)
    same("NBDRF", 1)
    same("Nscoeffs", p.NS)
    same("mu0", p.mu0)
    same("phi0", p.phi0)
    same("use_banded_solver_NLayers", p.nband)
    X.holds("solver receives the BDRF modes", list(d["BDRF_Fourier_modes"]) == ["opaque"])
    flag = lambda n, v: X.eq("solver receives " + n, d[n], v)
    flag("there_is_beam_source", beam)
    flag("there_is_iso_source", iso)
    flag("is_atmos_multilayered", X.lt(1, NL))
    flag("only_flux", mode == "flux")
    flag("autograd_compatible", False)
    X.forall((N,), lambda i: X.eq("solver receives mu_arr_pos", X.at(d["mu_arr_pos"], i), p.mu(i)))
    X.forall((N,), lambda i: X.eq("solver receives W", X.at(d["W"], i), p.w(i)))
    X.forall((N,), lambda i: X.eq("solver receives M_inv", X.at(d["M_inv"], i), 1 / p.mu(i)))
    X.shape("shape of scale_tau", d["scale_tau"], (NL,))
    X.forall((NL,), lambda l: X.eq("scale_tau = 1 - omega f", X.at(d["scale_tau"], l), p.scale(l)))
    X.shape("shape of scaled_tau_arr_with_0", d["scaled_tau_arr_with_0"], (NL + 1,))
    X.forall((NL + 1,), lambda l: X.eq("scaled optical depths accumulate the scaled thicknesses from 0", X.at(d["scaled_tau_arr_with_0"], l), p.st(l)))
    X.forall((NL,), lambda l: X.eq("scaled albedo (1 - f) omega / (1 - omega f)", X.at(d["scaled_omega_arr"], l), (1 - p.f(l)) * p.om(l) / p.scale(l)))
    X.shape("shape of the Legendre coefficients", d["weighted_scaled_Leg_coeffs"], (NL, p.NLeg))
    X.forall((NL, p.NLeg), lambda l, k: X.eq("weighted scaled Legendre coefficients (2k+1)(g_k - f)/(1 - f)", X.at(d["weighted_scaled_Leg_coeffs"], l, k),
             (2 * X.r(k) + 1) * (p.leg(l, k) - p.f(l)) / (1 - p.f(l))))
    rf = d["rescale_factor"]
    if not iso and not beam and b == ("zero", "zero"):
        X.eq("no source: the normalisation is 1", rf, X.r(1))
    if beam:
        X.eq("I0 is divided by the normalisation", d["I0"], p.I0 / X.r(rf))
    else:
        X.eq("no beam", d["I0"], X.r(0))
    X.eq("I0_div_4pi", d["I0_div_4pi"], X.r(d["I0"]) / (4 * X.pi))
    for nm in ("b_pos", "b_neg"):
        k = p.kind[nm]
        one = X.ieq(N, 1) if k == "vector" else X.ieq(N * p.NF, 1)
        flag(nm + "_is_scalar", True if k in ("scalar", "zero") else one)
        flag(nm + "_is_vector", X.not_(one) if k == "vector" else False)
        if k == "zero":
            X.eq(nm + " stays zero", d[nm], X.r(0))
        elif k == "scalar":
            X.eq(nm + " is divided by the normalisation", d[nm], p.b[nm] / X.r(rf))
        else:
            sh = (N,) if k == "vector" else (N, p.NF)
            X.shape("shape of " + nm, d[nm], sh)
            X.forall(sh, lambda *i: X.eq(nm + " is divided by the normalisation", X.at(d[nm], *i), p.b[nm](*i) / X.r(rf)))
    if iso:
        import math
        X.shape("shape of the source polynomial", d["scaled_s_poly_coeffs"], (NL, p.NS))
        if not f:
            X.forall((NL, p.NS), lambda l, k: X.eq("source polynomial: absorbed fraction (1 - omega) of s, normalised", X.at(d["scaled_s_poly_coeffs"], l, k), p.s(l, k) * (1 - p.om(l)) / X.r(rf)))
        else:
            bi = lambda j, i: X.uf("binom", (j, i), conc=math.comb)
            sh = lambda l: p.st(l) - p.scale(l) * X.ite(X.ieq(l, 0), X.r(0), p.tau(l - 1 if not X.concrete else max(l - 1, 0)))
            X.forall((NL, p.NS), lambda l, i: X.eq("source polynomial: the same source at the unscaled depth, per scaled depth, normalised", X.at(d["scaled_s_poly_coeffs"], l, i),
                     X.sum(p.NS, lambda j: X.ite(X.le(i, j), bi(j, i) * X.pow(1 / p.scale(l), j) * X.pow(-sh(l), j - i if not X.concrete else max(j - i, 0)) * p.s(l, j), X.r(0)))
                     * (1 - p.om(l)) / p.scale(l) / X.r(rf)))
    X.apart("what the returned functions keep is not the caller's memory", list(p.a.values()), [d[n] for n in KEPT])
    X.apart("the returned cosines are the caller's own", out[:1], [d[n] for n in KEPT])
    X.frame()
    X.side()


def _stub_all(X):
    X.stub("_assemble_intensity_and_fluxes", lambda d: ("a", "b", "c", "d"))


@contract("pydisort.checks.layers", ["C09"], "pydisort.pydisort (input checks)", product(f=(False, True), iso=(False, True)), public=True, conc=False)
def checks_layers(X, f, iso):
    """shapes and ranges of the layer properties"""
    R = X.r
    NL, n1, n2, n3, n4 = X.int("NL", 1), X.int("n1", 1), X.int("n2", 1), X.int("n3", 1), X.int("n4", 1)
    NA, NLeg, NQ, NF = X.int("NA", 1), X.int("NLeg", -3), X.int("NQ", -3), X.int("NF", -3)
    tau, om, leg = X.arr("tau", (NL,)), X.arr("omega", (n1,)), X.arr("leg", (n2, NA))
    X.assume(X.not_(X.any(n1, lambda l: X.not_(X.req(om(l) * leg(l, 0), om(l))))))
    kw = {}
    docs = [X.any(NL, lambda i: X.not_(X.rlt(R(0), tau(i)))),
            X.any(NL, lambda i: X.not_(X.rlt(R(0), X.ite(X.ieq(i, 0), tau(0), tau(i) - tau(i - 1))))),
            X.any(n1, lambda i: X.rlt(om(i), R(0))), X.any(n1, lambda i: X.not_(X.rlt(om(i), R(1)))),
            X.le(NLeg, 0), X.lt(NA, NLeg), X.not_(X.ieq(n1, NL)), X.not_(X.ieq(n2, NL)),
            X.any(n2, lambda l: X.any(NA - 1, lambda k: X.not_(X.rlt(R(-1), leg(l, k + 1))))),
            X.any(n2, lambda l: X.any(NA - 1, lambda k: X.not_(X.rlt(leg(l, k + 1), R(1))))),
            X.lt(NQ, 2), X.not_(X.ieq(X.mod2(NQ), 0)), X.le(NF, 0), X.lt(NLeg, NF), X.lt(NQ, NLeg)]
    if f:
        fa = kw["f_arr"] = X.arr("f", (n3,))
        X.assume(X.any(n3, lambda i: X.not_(X.req(fa(i), 0))))
        docs += [X.not_(X.ieq(n3, NL)), X.any(n3, lambda i: X.rlt(fa(i), R(0))), X.any(n3, lambda i: X.not_(X.rlt(fa(i), R(1))))]
    if iso:
        NS = X.int("NS", 1)
        s = kw["s_poly_coeffs"] = X.arr("s", (n4, NS))
        X.assume(X.any(n4, lambda l: X.any(NS, lambda k: X.not_(X.req(s(l, k), 0)))))
        docs += [X.not_(X.ieq(n4, NL))]
    _stub_all(X)
    X.call(X.fn("pydisort", "pydisort"), tau, om, NQ, leg, X.real("mu0", pos=True), 0, 0, NLeg=NLeg, NFourier=NF, **kw)
    X.raises("layer inputs", docs)
    X.frame()


@contract("pydisort.checks.sources", ["C09"], "pydisort.pydisort (input checks)", product(b=("scalar", "vector", "matrix", "cube"), nt=(False, True)), public=True, conc=False)
def checks_sources(X, b, nt):
    """beam, boundary and option arguments"""
    R = X.r
    p = In(X, False, False, False, nleg=True, nf=True)
    N, NF = p.N, p.NF
    X.assume(X.not_(X.any(p.NL, lambda i: X.not_(X.rlt(R(0), p.tau(i))))))
    X.assume(X.not_(X.any(p.NL, lambda i: X.not_(X.rlt(R(0), X.ite(X.ieq(i, 0), p.tau(0), p.tau(i) - p.tau(i - 1)))))))
    X.assume(X.not_(X.any(p.NL, lambda i: X.or_(X.rlt(p.om(i), R(0)), X.not_(X.rlt(p.om(i), R(1)))))))
    X.assume(X.not_(X.any(p.NL, lambda l: X.any(p.NA - 1, lambda k: X.or_(X.not_(X.rlt(R(-1), p.leg(l, k + 1))), X.not_(X.rlt(p.leg(l, k + 1), R(1))))))))
    I0, mu0, phi0, nb = X.real("I0"), X.real("mu0x"), X.real("phi0x"), X.int("nbx", -3)
    n, m = X.int("bn", 1), X.int("bm", 1)
    sh = {"scalar": None, "vector": (n,), "matrix": (n, m), "cube": (n, m, X.int("bk", 1))}[b]
    a = dict(p.a)
    beam = X.rlt(R(0), I0)
    docs = [X.rlt(I0, R(0)),
            X.and_(beam, X.not_(X.and_(X.rlt(R(0), mu0), X.not_(X.rlt(R(1), mu0))))),
            X.and_(beam, X.not_(X.and_(X.not_(X.rlt(phi0, R(0))), X.rlt(phi0, 2 * X.pi)))),
            X.lt(nb, 3)]
    for nm in ("b_pos", "b_neg"):
        if sh is None:
            a[nm] = X.real(nm)
            continue
        v = a[nm] = X.arr(nm, sh)
        X.assume(X.any(sh[0], lambda *i: any_rest(X, v, sh, i)))
        size = X.isize(1)
        for k in sh:
            size = size * k
        ok = X.ieq(size, 1)
        if b == "vector":
            ok = X.or_(ok, X.ieq(n, N))
        elif b == "matrix":
            ok = X.or_(ok, X.and_(X.ieq(n, N), X.ieq(m, NF)))
        docs.append(X.not_(ok))
    if nt:
        a["NT_cor"] = True
        docs.append(X.any(N, lambda i: X.rlt(X.abs(p.mu(i) - mu0), R(1e-8))))
    a.update(I0=I0, mu0=mu0, phi0=phi0, use_banded_solver_NLayers=nb)
    _stub_all(X)
    X.call(X.fn("pydisort", "pydisort"), **a)
    X.raises("source inputs", docs)


def any_rest(X, v, sh, i):
    if len(i) == len(sh):
        return X.not_(X.req(v(*i), 0))
    return X.any(sh[len(i)], lambda j: any_rest(X, v, sh, i + (j,)))


class NT:
    """the corrections of Nakajima and Tanaka: TMS for upward and downward cosines m > 0 in layer l at scaled depth x, IMS at depth T"""

    def __init__(self, X, p, rf, phi, multi):
        self.X, self.p, self.rf, self.phi, self.multi = X, p, rf, phi, multi
        NL, R = p.NL, X.r
        s1 = X.sum(NL, lambda l: p.om(l) * p.tau(l))
        self.s2 = X.sum(NL, lambda l: p.f(l) * p.om(l) * p.tau(l))
        self.oa, self.fa = s1 / X.sum(NL, lambda l: p.tau(l)), self.s2 / s1
        self.smu0 = p.mu0 / (1 - self.oa * self.fa)

    def LP(self, j, x):
        X = self.X
        return X.uf("LegP", (j,), (x,), conc=lambda j, x: float(X.np.polynomial.legendre.Legendre.basis(j)(x)))

    def nu(self, m, q):
        X, p = self.X, self.p
        return -p.mu0 * m + X.sqrt(1 - p.mu0 * p.mu0) * X.sqrt(1 - m * m) * X.cos(p.phi0 - self.phi(q))

    def thick(self, l):
        return self.p.scale(l) * self.p.thick(l)

    def source(self, l, m, q):
        """single-scattering source of the exact minus the truncated phase function, per e^{-tau/mu0}"""
        X, p, R = self.X, self.p, self.X.r
        om_s = (1 - p.f(l)) * p.om(l) / p.scale(l)
        true = X.sum(p.NA, lambda j: (2 * R(j) + 1) * p.leg(l, j) * self.LP(j, self.nu(m, q)))
        trun = X.sum(p.NLeg, lambda j: (2 * R(j) + 1) * (p.leg(l, j) - p.f(l)) / (1 - p.f(l)) * self.LP(j, self.nu(m, q)))
        return om_s * (p.I0 / self.rf) / (4 * X.pi) * (true / (1 - p.f(l)) - trun)

    def B(self, l, m, q):
        return self.source(l, m, q) * (self.p.mu0 / (self.p.mu0 + m))

    def up(self, l, m, x, q, anti):
        X, p, mu0, st, Bs = self.X, self.p, self.p.mu0, self.p.st, self.B
        own = X.exp(-x / mu0) * (-mu0 / p.scale(l) if anti else 1) - X.exp((x - st(l + 1)) / m - st(l + 1) / mu0) * (m / p.scale(l) if anti else 1)
        r = Bs(l, m, q) * own
        if self.multi:
            r = r + X.sum(p.NL, lambda k: self.from_below(k, l, m, x, q, anti), lo=l + 1)
        return r

    def from_below(self, k, l, m, x, q, anti):
        """what layer k contributes to the upward intensity in layer l above it"""
        X, p, mu0, st = self.X, self.p, self.p.mu0, self.p.st
        return self.B(k, m, q) * (X.exp(-st(k) / mu0) - X.exp(-self.thick(k) / m - (st(k) + self.thick(k)) / mu0)) * X.exp((x - st(k)) / m) * (m / p.scale(l) if anti else 1)

    def down(self, l, m, x, q, anti):
        X, p, mu0, st, Bs = self.X, self.p, self.p.mu0, self.p.st, self.B
        own = X.exp(-x / mu0) * (-mu0 / p.scale(l) if anti else 1) - X.exp((st(l) - x) / m - st(l) / mu0) * (-m / p.scale(l) if anti else 1)
        r = Bs(l, -m, q) * own
        if self.multi:
            r = r + X.sum(l, lambda k: Bs(k, -m, q) * (X.exp(-(st(k) + self.thick(k)) / mu0) - X.exp(-self.thick(k) / m - st(k) / mu0)) * X.exp((st(k + 1) - x) / m) * (-m / p.scale(l) if anti else 1))
        return r

    def chi(self, m, T, anti):
        X, smu0 = self.X, self.smu0
        x = 1 / m - 1 / smu0
        if anti:
            return ((smu0 - x * smu0 * (smu0 + T)) * X.exp(-T / smu0) - m * X.exp(-T / m)) / (m * smu0 * x * x)
        return ((T - 1 / x) * X.exp(-T / smu0) + X.exp(-T / m) / x) / (m * smu0 * x)

    def ims(self, m, T, q, anti):
        X, p, R, oa, fa = self.X, self.p, self.X.r, self.oa, self.fa
        res = lambda j: X.sum(p.NL, lambda l: X.ite(X.lt(j, p.NLeg), p.f(l), p.leg(l, j)) * p.om(l) * p.tau(l)) / self.s2
        ph = X.sum(p.NA, lambda j: (2 * R(j) + 1) * (2 * res(j) - res(j) * res(j)) * self.LP(j, self.nu(-m, q)))
        return (p.I0 / self.rf) / (4 * X.pi) * (oa * fa) * (oa * fa) / (1 - oa * fa) * ph * self.chi(m, T, anti)


@contract("pydisort.corrected", ["C03", "C04", "C07", "C10", "C11"], "pydisort.pydisort.u_corrected (TMS_correction, IMS_correction)",
          [dict(multi=m, anti=a, iso=i, ag=g, shape=(s, q), n1=n) for m, a, i, g, s, q, n in (
              (True, False, False, False, "array", "array", False), (True, True, False, False, "scalar", "array", False),
              (True, False, True, True, "scalar", "scalar", False), (True, True, True, True, "array", "scalar", False),
              (True, True, False, False, "scalar", "scalar", True),
              (False, False, False, False, "array", "array", False), (False, True, False, True, "array", "array", False),
              (False, False, True, True, "array", "array", False), (False, True, True, False, "array", "array", False),
              (False, False, False, True, "scalar", "array", False), (False, True, True, False, "array", "scalar", False),
              (False, True, False, False, "scalar", "scalar", False), (False, False, True, False, "scalar", "scalar", False),
              (False, False, False, False, "array", "array", True))])
def corrected(X, multi, anti, iso, ag, shape, n1):
    """the intensity returned with NT_cor: the delta-M intensity plus the TMS and IMS terms of Nakajima and Tanaka"""
    from dual import Skip
    p = In(X, True, iso, True, nleg=True, nf=True, nt=True, ag=ag, NL=X.int("NL", 2) if multi else 1, corr=True, N=1 if n1 else X.int("N", 2))
    N, NL, mu0, R = p.N, p.NL, p.mu0, X.r
    X.assume(X.lt(0, p.NA - p.NLeg))
    X.assume(X.any(NL, lambda l: X.rlt(R(0), p.f(l) * p.om(l))))
    hi = None if not X.concrete else float(p.tau.v[-1])
    if shape[0] == "scalar":
        tau = X.real("tau", pos=True, lo=0.0, hi=hi)
        ta, n = (lambda t: tau), 1
    else:
        n = X.int("NT", 2)
        tau = ta = X.arr("tau", (n,), pos=True, gen=lambda r, s: r.uniform(0, hi, s))
    if shape[1] == "scalar":
        ph = X.real("phi")
        pa, k = (lambda q: ph), 1
    else:
        k = X.int("NP", 2)
        ph = pa = X.arr("phi", (k,))
    dims = (2 * N,) + ((n,) if shape[0] == "array" else ()) + ((k,) if shape[1] == "array" else ())
    U = X.arr("Ustar", dims)
    lay = lambda t: X.layer(NL, lambda i: X.not_(X.rlt(p.tau(i), ta(t))))
    asked = []

    def star(tau_, phi_, anti_, err, ret, retl):
        asked.append((tau_, phi_, anti_, err, ret, retl))
        out = (X.fresh_out(U),)
        if err:
            out += ("err",)
        if ret:
            out += (X.fresh_out(p.tau),)
        if retl:
            l = X.intarray((n,), lay)
            out += (l,)
            if iso:
                out += X.unique(l)
        return out if len(out) > 1 else out[0]
    ustar = X.pyfunc("def u_star(tau, phi, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False, *, _return_l=False):\n"
                     "    return _cb(tau, phi, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr, _return_l)\n", "u_star", _cb=star)
    p.result = lambda: ("flux_up", "flux_down", "u0", ustar)
    out = p.call()
    d = p.got
    rf = R(d["rescale_factor"])
    X.holds("fluxes and u0 are not changed by the corrections", tuple(out[1:4]) == ("flux_up", "flux_down", "u0"))
    nt = NT(X, p, rf, pa, multi)
    depth = lambda l, t: p.st(l + 1) - (p.tau(l) - ta(t)) * p.scale(l)
    tms_up = lambda i, t, q: nt.up(lay(t), p.mu(i), depth(lay(t), t), q, anti)
    tms_down = lambda i, t, q: nt.down(lay(t), p.mu(i), depth(lay(t), t), q, anti)
    ims = lambda i, t, q: nt.ims(p.mu(i), ta(t), q, anti)

    def at(o, i, t, q):
        return X.at(o, i, *(((t,) if shape[0] == "array" else ()) + ((q,) if shape[1] == "array" else ())))
    for err, ret in ((False, False), (True, True)):
        w = " with extra outputs" if err else ""
        del asked[:]
        o = X.pcall(out[4], tau, ph, anti, err, ret)
        X.holds("the uncorrected intensity is evaluated with the caller's switches" + w, len(asked) == 1 and asked[0][2:5] == (anti, err, ret))
        X.forall((n,), lambda t: X.eq("the uncorrected intensity is evaluated at the caller's depths" + w, X.at(asked[0][0], t) if not _sc(X, asked[0][0]) else X.at(asked[0][0]), ta(t)))
        X.forall((k,), lambda q: X.eq("the uncorrected intensity is evaluated at the caller's azimuths" + w, X.at(asked[0][1], q) if not _sc(X, asked[0][1]) else X.at(asked[0][1]), pa(q)))
        if err:
            X.holds("further outputs are handed on", len(o) == 3 and o[1] == "err")
            X.same("layer boundaries are handed on", o[2], p.tau)
            o = o[0]
        X.shape("shape of the corrected intensity" + w, o, dims)
        X.fresh_result("corrected intensity owns its memory" + w, o)
        if err:
            X.forall((2 * N, n, k), lambda i, t, q: X.eq("same intensity with extra outputs", at(o, i, t, q), at(first, i, t, q)))
            continue
        first = o
        X.forall((N, n, k), lambda i, t, q: X.eq("upward: delta-M intensity + TMS" + w, at(o, i, t, q), (U(*(x for x, y in ((i, True), (t, shape[0] == "array"), (q, shape[1] == "array")) if y))) + rf * tms_up(i, t, q)))
        X.forall((N, n, k), lambda i, t, q: X.eq("downward: delta-M intensity + TMS + IMS" + w, at(o, i + N, t, q), (U(*(x for x, y in ((i + N, True), (t, shape[0] == "array"), (q, shape[1] == "array")) if y))) + rf * (tms_down(i, t, q) + ims(i, t, q))))
    X.pure()
    X.captures(out[1:], p.a, ())
    X.apart("the returned cosines share no memory with the returned functions", out[:1], out[1:])
    X.frame()
    X.side()


def _sc(X, v):
    if X.concrete:
        return X.np.ndim(v) == 0
    return X.sym.is_scalar(v) or v.shape == ()
