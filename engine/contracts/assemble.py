"""_assemble_intensity_and_fluxes: what it hands to its callees and the functions u, u0, flux_up, flux_down it returns."""
from . import contract, product
from .mathscr import P, Q

PAR = ("scaled_omega_arr tau_arr scaled_tau_arr_with_0 mu_arr_pos M_inv W N NQuad NLeg NFourier NLayers NBDRF is_atmos_multilayered "
       "weighted_scaled_Leg_coeffs BDRF_Fourier_modes mu0 I0 I0_div_4pi rescale_factor phi0 there_is_beam_source b_pos b_neg "
       "b_pos_is_scalar b_neg_is_scalar b_pos_is_vector b_neg_is_vector Nscoeffs scaled_s_poly_coeffs there_is_iso_source scale_tau "
       "only_flux use_banded_solver_NLayers autograd_compatible").split()


def mathscr_stub(X, checks=True):
    """contract of _mathscr_v, as used by its callers"""
    def model(d):
        G, K, g, s, tau, l = d["G"], d["K"], d["G_inv_mu_inv"], d["s_poly_coeffs"], d["tau"], d["l"]
        n = d["Nscoeffs"]
        anti = d["is_antiderivative_wrt_tau"]
        if anti not in (True, False):
            raise X.sym.Unsupported("symbolic switch")
        sc = d["scale_tau"]
        sym = X.sym
        tau, l = sym.arr_of(tau), sym.arr_of(l)
        ok = len(G.shape) == 3 and len(K.shape) == 2 and sym.dimeq(G.shape[2], K.shape[1]) and sym.dimeq(g.shape[1], K.shape[1]) and sym.dimeq(s.shape[1], X.T.I.of(n)) and sym.dimeq(tau.shape[0], l.shape[0])
        if not ok:
            raise sym.PyRaise("ValueError", "_mathscr_v called outside its precondition (shapes)")
        f = dict(G=G.fn(), K=K.fn(), g=g.fn(), s=s.fn(), tau=tau.fn(), l=l.fn(), sc=sc.fn() if anti else None)

        def el(i, t):
            lt, tt = f["l"](t), X.T.rl(f["tau"](t))
            r = X.sum(K.shape[1], lambda j: f["G"](lt, i, j) * f["g"](lt, j) * X.sum(n, lambda q: f["s"](lt, q) * mv(X, anti, q, f["K"](lt, j), tt)))
            return r / f["sc"](t) if anti else r
        return sym.new((G.shape[1], tau.shape[0]), el)
    X.stub("_mathscr_v", model)


def mv(X, anti, q, K, tau):
    return X.uf("mvQ" if anti else "mvP", (q,), (K, tau), conc=lambda q, K, tau: (Q if anti else P)(X, q, K, tau))


# arrays the returned functions may go on using; pydisort must not pass the caller's own memory for these
KEPT = ("tau_arr", "scaled_tau_arr_with_0", "mu_arr_pos", "M_inv", "W", "scaled_s_poly_coeffs", "scale_tau")


class Prob:
    """arguments of _assemble_intensity_and_fluxes and the results of its callees"""

    def __init__(self, X, beam, iso, scaled, NF=None, ag=False, only_flux=False, Nphi=None):
        self.X = X
        N, NL = X.int("N", 1), X.int("NL", 1)
        NF = X.int("NF", 2) if NF is None else NF
        self.N, self.NL, self.NF, NQ = N, NL, NF, 2 * N
        if not X.concrete:
            X.cuts((2 * N, N))
            if not isinstance(NF, int):
                X.cuts((NF, X.T.I.of(1)))
        import numpy as np
        self.beam, self.iso = beam, iso
        A = self.a = {}
        inc = lambda r, s: np.cumsum(r.uniform(0.2, 1.0, s))
        A["scaled_omega_arr"] = X.arr("omega", (NL,), pos=True)
        A["tau_arr"] = self.tau_arr = X.arr("tau_arr", (NL,), pos=True, gen=inc)
        if scaled:
            self.scale = X.arr("scale", (NL,), pos=True)
            X.assume(X.any(NL, lambda i: X.not_(X.req(self.scale(i), 1))))
            self.st0 = X.arr("stau0", (NL + 1,), pos=False, gen=lambda r, s: np.concatenate(([0], np.cumsum(r.uniform(0.2, 1.0, s[0] - 1)))))
        else:
            self.scale = X.defarr((NL,), lambda i: X.r(1))
            self.st0 = X.defarr((NL + 1,), lambda i: X.ite(X.ieq(i, 0), X.r(0), self.tau_arr(i - 1)))
        A["scaled_tau_arr_with_0"], A["scale_tau"] = self.st0, self.scale
        A["mu_arr_pos"] = self.mu = X.arr("mu", (N,), pos=True)
        A["M_inv"] = self.Minv = X.arr("Minv", (N,), pos=True)
        A["W"] = self.W = X.arr("W", (N,), pos=True)
        A["N"], A["NQuad"], A["NFourier"], A["NLayers"] = N, NQ, NF, NL
        A["NLeg"] = X.int("NLeg", 1)
        A["NBDRF"] = X.int("NBDRF", 0)
        A["is_atmos_multilayered"] = X.lt(1, NL)
        A["weighted_scaled_Leg_coeffs"] = X.arr("wleg", (NL, A["NLeg"]))
        A["BDRF_Fourier_modes"] = ["opaque"]
        A["mu0"] = self.mu0 = X.real("mu0", pos=True)
        A["I0"] = self.I0 = X.real("I0", pos=True) if beam else 0
        A["I0_div_4pi"] = X.real("I0d", pos=True)
        A["rescale_factor"] = self.rf = X.real("rescale", pos=True)
        A["phi0"] = self.phi0 = X.real("phi0")
        A["there_is_beam_source"], A["there_is_iso_source"] = beam, iso
        A["b_pos"], A["b_neg"] = X.arr("b_pos", (N,)), X.arr("b_neg", (N,))
        A["b_pos_is_scalar"] = A["b_neg_is_scalar"] = False
        A["b_pos_is_vector"], A["b_neg_is_vector"] = True, True
        A["Nscoeffs"] = self.NS = X.int("NS", 1)
        A["scaled_s_poly_coeffs"] = self.s = X.arr("s", (NL, self.NS))
        A["only_flux"], A["autograd_compatible"] = only_flux, ag
        A["use_banded_solver_NLayers"] = X.int("nband", 3)
        sgn = lambda r, s: np.concatenate((-r.uniform(0.3, 1.7, s[:-1] + (N,)), r.uniform(0.3, 1.7, s[:-1] + (N,))), axis=-1)
        self.G, self.K = X.arr("G", (NF, NL, NQ, NQ)), X.arr("K", (NF, NL, NQ), gen=sgn)
        self.B = X.arr("B", (NF, NL, NQ)) if beam else None
        self.Ginv = X.arr("Ginv", (NL, NQ, NQ)) if iso else None
        self.GC = X.arr("GC", (NF, NL, NQ, NQ))
        self.ag = ag

    def gam(self, l, j):
        """G^-1 (1/mu)"""
        X, N = self.X, self.N
        return X.sum(N, lambda k: self.Ginv(l, j, k) * self.Minv(k)) - X.sum(N, lambda k: self.Ginv(l, j, k + N) * self.Minv(k))

    def stubs(self, check=True):
        X = self.X

        def gen(d):
            if check:
                for p in ("NFourier scaled_omega_arr mu_arr_pos M_inv W N NQuad NLeg NLayers weighted_scaled_Leg_coeffs there_is_beam_source there_is_iso_source").split() + (["mu0", "I0_div_4pi"] if self.beam else []):
                    X.same("_solve_for_gen_and_part_sols receives " + p, d[p], self.a[p])
            self.Gout, self.Kout = X.fresh_out(self.G), X.fresh_out(self.K)
            out = (self.Gout, self.Kout)
            if self.beam:
                out += (X.fresh_out(self.B),)
            if self.iso:
                out += (X.fresh_out(self.Ginv),)
            return out

        def coef(d):
            if check:
                same = ("NFourier scaled_tau_arr_with_0 mu_arr_pos N NQuad NLayers NBDRF is_atmos_multilayered BDRF_Fourier_modes there_is_beam_source b_pos b_neg "
                        "b_pos_is_scalar b_neg_is_scalar b_pos_is_vector b_neg_is_vector there_is_iso_source use_banded_solver_NLayers").split()
                if self.beam:
                    same += ["mu0", "I0_div_4pi"]
                if self.iso:
                    same += ["Nscoeffs", "scaled_s_poly_coeffs"]
                for p in same:
                    X.same("_solve_for_coeffs receives " + p, d[p], self.a[p])
                X.same("_solve_for_coeffs receives G_collect", d["G_collect"], self.G)
                X.same("_solve_for_coeffs receives K_collect", d["K_collect"], self.K)
                if self.beam:
                    X.same("_solve_for_coeffs receives B_collect", d["B_collect"], self.B)
                X.same("_solve_for_coeffs receives mu_arr_pos_times_W", d["mu_arr_pos_times_W"], X.defarr((self.N,), lambda i: self.mu(i) * self.W(i)))
                if self.iso:
                    X.same("_solve_for_coeffs receives G_inv_mu_inv", d["G_inv_mu_inv"], X.defarr((self.NL, 2 * self.N), self.gam))
            return X.fresh_out(self.GC)
        X.stub("_solve_for_gen_and_part_sols", gen)
        X.stub("_solve_for_coeffs", coef)
        if not X.concrete:
            mathscr_stub(X)

    def run(self, check=True):
        X = self.X
        self.stubs(check)
        if X.concrete and self.ag:
            try:
                import autograd  # noqa
            except ImportError:
                self.a["autograd_compatible"] = False
        return X.call(X.fn("_assemble_intensity_and_fluxes", "_assemble_intensity_and_fluxes"), **{p: self.a[p] for p in PAR})

    # ---- specification
    def depth(self, mode, name="tau"):
        """(argument, element function, number)"""
        X = self.X
        import numpy as np
        hi = None if not X.concrete else float(self.tau_arr.v[-1])
        if mode == "scalar":
            v = X.real(name, pos=True, lo=0.0, hi=hi)
            self.nt = 1
            return v, (lambda t: v), 1
        n = X.int("NT", 2)
        a = X.arr(name, (n,), pos=True, gen=lambda r, s: r.uniform(0, hi, s))
        return a, a, n

    def lay(self, tau):
        X = self.X
        return X.layer(self.NL, lambda i: X.not_(X.rlt(self.tau_arr(i), tau)))

    def stau(self, tau, l):
        return self.st0(l + 1) - (self.tau_arr(l) - tau) * self.scale(l)

    def um(self, m, i, tau, anti):
        """Fourier mode m (integer term) at angle i"""
        l = self.lay(tau)
        return self.um_at(m, l, i, self.stau(tau, l), anti)

    def um_at(self, m, l, i, st, anti):
        """the same in layer l at scaled depth st"""
        X, N = self.X, self.N
        f = (lambda j: X.r(1) / (self.scale(l) * self.K(m, l, j))) if anti else (lambda j: X.r(1))
        r = X.sum(N, lambda j: self.GC(m, l, i, j) * X.exp(self.K(m, l, j) * (st - self.st0(l))) * f(j))
        r = r + X.sum(N, lambda j: self.GC(m, l, i, j + N) * X.exp(self.K(m, l, j + N) * (st - self.st0(l + 1))) * f(j + N))
        if self.beam:
            b = self.B(m, l, i) * X.exp(-st / self.mu0)
            r = r + (b * (-self.mu0) / self.scale(l) if anti else b)
        return r

    def v(self, i, tau, anti):
        l = self.lay(tau)
        return self.v_at(l, i, self.stau(tau, l), anti)

    def v_at(self, l, i, st, anti):
        X = self.X
        r = X.sum(2 * self.N, lambda j: self.G(0, l, i, j) * self.gam(l, j) * X.sum(self.NS, lambda q: self.s(l, q) * mv(X, anti, q, self.K(0, l, j), st)))
        return r / self.scale(l) if anti else r

    def u0(self, i, tau, anti):
        r = self.um(0, i, tau, anti)
        return r + self.v(i, tau, anti) if self.iso else r

    def u(self, i, tau, phi, anti):
        X = self.X
        r = X.sum(self.NF, lambda m: self.um(m, i, tau, anti) * X.cos(X.r(m) * (self.phi0 - phi)))
        return r + self.v(i, tau, anti) if self.iso else r

    def direct(self, tau, anti):
        X = self.X
        if not self.beam:
            return X.r(0)
        e = self.I0 * X.exp(-tau / self.mu0)
        return e * (-self.mu0) if anti else e

    def direct_scaled(self, tau, anti):
        X = self.X
        if not self.beam:
            return X.r(0)
        l = self.lay(tau)
        e = self.I0 * X.exp(-self.stau(tau, l) / self.mu0)
        return e * (-self.mu0) / self.scale(l) if anti else e


def idx(mode, *i):
    """drop the depth index when the depth is scalar"""
    return i


SRC = dict(beam=(True, False), iso=(True, False), scaled=(True, False))
REST = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C11", "C20"]


@contract("assemble.calls", ["C01", "C02", "C03", "C05", "C06", "C08", "C10", "C15", "C20"], "_assemble_intensity_and_fluxes",
          product(beam=(True, False), iso=(True, False), ag=(False, True), only_flux=(False, True)))
def calls(X, beam, iso, ag, only_flux):
    p = Prob(X, beam, iso, True, ag=ag, only_flux=only_flux)
    out = p.run(True)
    X.holds("returns %d functions" % (3 if only_flux else 4), len(out) == (3 if only_flux else 4))
    X.captures(out, p.a, KEPT)
    X.frame()
    X.side()


@contract("assemble.u0", ["C01", "C03", "C04", "C05", "C06", "C08", "C10", "C11", "C16", "C20"], "_assemble_intensity_and_fluxes.u0",
          product(anti=(False, True), mode=("array", "scalar"), ag=(False, True), **SRC))
def u0(X, beam, iso, scaled, anti, mode, ag):
    p = Prob(X, beam, iso, scaled, ag=ag, only_flux=False)
    f = p.run(False)[2]
    tau, ta, n = p.depth(mode)
    out = X.pcall(f, tau, anti)
    sh = (2 * p.N, n) if mode == "array" else (2 * p.N,)
    X.shape("shape of u0", out, sh)
    X.forall((2 * p.N, n), lambda i, t: X.eq("u0 is the zeroth mode", X.at(out, i, t) if mode == "array" else X.at(out, i), p.rf * p.u0(i, ta(t), anti)))
    X.fresh_result("u0 result owns its memory", out)
    o2 = X.pcall(f, tau, anti, True)
    X.forall((2 * p.N, n), lambda i, t: X.eq("u0 unchanged by return_tau_arr", X.at(o2[0], i, t) if mode == "array" else X.at(o2[0], i), p.rf * p.u0(i, ta(t), anti)))
    X.same("u0 returns the layer boundaries", o2[1], p.tau_arr)
    o3 = X.pcall(f, tau, anti, False, True)
    X.forall((2 * p.N, n), lambda i, t: X.eq("u0 unchanged by the reclassification output", X.at(o3[0], i, t) if mode == "array" else X.at(o3[0], i), p.rf * p.u0(i, ta(t), anti)))
    import numbers
    r3 = o3[1]
    zero_ok = (not beam) or (not scaled)
    if zero_ok and _scalar(X, r3):
        X.eq("actinic reclassification term is zero without delta scaling or beam", r3, X.r(0))
    else:
        X.forall((n,), lambda t: X.eq("actinic reclassification term", X.at(r3, t), p.rf * (p.direct_scaled(ta(t), anti) - p.direct(ta(t), anti))))
    X.pure()
    X.frame()
    X.side()
    tau_domain(X, p, ta, n)


def _scalar(X, v):
    if X.concrete:
        return X.np.ndim(v) == 0
    return X.sym.is_scalar(v)


def tau_domain(X, p, ta, n):
    if X.concrete:
        return
    X.raises("depths outside the atmosphere raise ValueError", [X.any(n, lambda t: X.rlt(ta(t), 0)), X.any(n, lambda t: X.rlt(p.tau_arr(p.NL - 1), ta(t)))])


@contract("assemble.flux", ["C01", "C03", "C04", "C05", "C06", "C08", "C10", "C11", "C20"], "_assemble_intensity_and_fluxes.flux_up/flux_down",
          product(anti=(False, True), mode=("array", "scalar"), ag=(False, True), **SRC))
def flux(X, beam, iso, scaled, anti, mode, ag):
    p = Prob(X, beam, iso, scaled, ag=ag, only_flux=False)
    fs = p.run(False)
    tau, ta, n = p.depth(mode)
    sh = (n,) if mode == "array" else ()
    at = (lambda o, t: X.at(o, t)) if mode == "array" else (lambda o, t: X.at(o))
    up = lambda t: p.rf * 2 * X.pi * X.sum(p.N, lambda i: p.mu(i) * p.W(i) * p.u0(i, ta(t), anti))
    dn = lambda t: p.rf * (2 * X.pi * X.sum(p.N, lambda i: p.mu(i) * p.W(i) * p.u0(i + p.N, ta(t), anti)) + p.mu0 * (p.direct_scaled(ta(t), anti) - p.direct(ta(t), anti)))
    di = lambda t: p.rf * p.mu0 * p.direct(ta(t), anti)
    for ret in (False, True):
        w = " with return_tau_arr" if ret else ""
        o = X.pcall(fs[0], tau, anti, ret)
        if ret:
            X.same("flux_up returns the layer boundaries", o[1], p.tau_arr)
            o = o[0]
        X.shape("shape of the upward flux" + w, o, sh)
        X.forall((n,), lambda t: X.eq("upward flux" + w, at(o, t), up(t)))
        X.fresh_result("upward flux owns its memory", o)
        o = X.pcall(fs[1], tau, anti, ret)
        if ret:
            X.same("flux_down returns the layer boundaries", o[2], p.tau_arr)
        X.shape("shape of the downward diffuse flux" + w, o[0], sh)
        X.shape("shape of the direct flux" + w, o[1], sh)
        X.forall((n,), lambda t: X.eq("downward diffuse flux" + w, at(o[0], t), dn(t)))
        X.forall((n,), lambda t: X.eq("direct flux" + w, at(o[1], t), di(t)))
        X.fresh_result("downward fluxes own their memory", o[0])
        X.fresh_result("direct flux owns its memory", o[1])
    X.pure()
    X.frame()
    X.side()
    tau_domain(X, p, ta, n)


@contract("assemble.u", ["C01", "C03", "C04", "C05", "C06", "C08", "C10", "C11", "C19"], "_assemble_intensity_and_fluxes.u",
          product(anti=(False, True), shape=(("array", "array"), ("scalar", "array"), ("array", "scalar"), ("scalar", "scalar")), one=(False, True), ag=(False, True), **SRC))
def u(X, beam, iso, scaled, anti, shape, one, ag):
    if shape[0] != shape[1] and (ag or one):
        raise_skip()
    p = Prob(X, beam, iso, scaled, NF=1 if one else None, ag=ag)
    f = p.run(False)[3]
    tau, ta, n = p.depth(shape[0])
    if shape[1] == "scalar":
        ph = X.real("phi")
        pa, k = (lambda q: ph), 1
    else:
        k = X.int("NP", 2)
        ph = pa = X.arr("phi", (k,))
    dims = (2 * p.N,) + ((n,) if shape[0] == "array" else ()) + ((k,) if shape[1] == "array" else ())

    def at(o, i, t, q):
        return X.at(o, i, *(((t,) if shape[0] == "array" else ()) + ((q,) if shape[1] == "array" else ())))
    val = lambda i, t, q: p.rf * p.u(i, ta(t), pa(q), anti)
    o = X.pcall(f, tau, ph, anti)
    X.shape("shape of the intensity", o, dims)
    X.forall((2 * p.N, n, k), lambda i, t, q: X.eq("intensity is the cosine series of its modes", at(o, i, t, q), val(i, t, q)))
    X.fresh_result("intensity owns its memory", o)
    o = X.pcall(f, tau, ph, anti, True, True)
    X.forall((2 * p.N, n, k), lambda i, t, q: X.eq("intensity unchanged by extra outputs", at(o[0], i, t, q), val(i, t, q)))
    X.same("u returns the layer boundaries", o[2], p.tau_arr)

    def ratio(i, t, q):
        uu = X.abs(p.u(i, ta(t), pa(q), anti))
        last = p.u0(i, ta(t), anti) if one else p.um(p.NF - 1, i, ta(t), anti)
        return X.ite(X.rlt(X.r(1e-8), uu), X.abs(last * X.cos(X.r(p.NF - 1) * (p.phi0 - pa(q)))) / uu, X.r(0))
    X.eq("Fourier convergence measure", o[1], X.maxover((2 * p.N, n, k), ratio))
    o = X.pcall(f, tau, ph, anti, True)
    X.eq("Fourier convergence measure alone", o[1], X.maxover((2 * p.N, n, k), ratio))
    o = X.pcall(f, tau, ph, anti, False, True)
    X.same("u returns the layer boundaries (alone)", o[1], p.tau_arr)
    X.pure()
    X.frame()
    X.side()
    tau_domain(X, p, ta, n)


def raise_skip():
    import dual
    raise dual.Skip()
