"""Run-time contracts (API level oracles), one generator of named checks per property.

Each `Cnn(rng, budget)` yields (label, thunk); the thunk raises `Broken` when the observable behaviour contradicts the property.
Everything here is written from the documentation / property statement; nothing is read from the implementation.
"""
import copy
import warnings
from math import pi

import numpy as np
import scipy as sc
import scipy.integrate, scipy.special, scipy.constants

import gen
from gen import gl01, norm_leg, scaled, strip

warnings.filterwarnings("ignore")

import PythonicDISORT
from PythonicDISORT.pydisort import pydisort
from PythonicDISORT import subroutines as sub


class Broken(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def close(a, b, tol, what, scale=None):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    need(a.shape == b.shape, "%s: shapes differ %s vs %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    need(np.all(np.isfinite(b)), "%s: expected value is not finite (oracle)" % what)
    need(np.all(np.isfinite(a)), "%s: result is not finite" % what)
    s = np.max(np.abs(b)) if scale is None else scale
    s = max(s, 1e-12)
    d = np.max(np.abs(a - b))
    need(d <= tol * s, "%s: max difference %.3e exceeds %.1e * %.3e" % (what, d, tol, s))


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa
        raise Broken("%s: raised %s instead of %s (%s)" % (what, type(e).__name__, exc.__name__, e))
    raise Broken("%s: accepted without %s" % (what, exc.__name__))


def realised(case):
    """Keyword arguments with BDRF caching applied as the case asks."""
    kw = strip(case)
    kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    k = case.get("_bdrf")
    if k == "cached":
        kw["BDRF_Fourier_modes"] = sub.cache_BDRF_Fourier_modes(kw["NQuad"] // 2, kw["BDRF_Fourier_modes"])
    elif k == "cachedmu0" and kw["I0"] > 0:
        kw["BDRF_Fourier_modes"] = sub.cache_BDRF_Fourier_modes(kw["NQuad"] // 2, kw["BDRF_Fourier_modes"], kw["mu0"])
    return kw


def solve(case, **over):
    kw = realised(case)
    kw.update(over)
    return pydisort(**kw)


class Sol:
    """Solved case with full-shape accessors."""

    def __init__(self, case, **over):
        self.case = dict(case, **over)
        self.S = scaled(self.case)
        out = solve(case, **over)
        self.out = out
        self.mu, self.Fp, self.Fm, self.u0f = out[:4]
        self.uf = out[4] if len(out) > 4 else None
        self.NQ, self.N = self.S["NQ"], self.S["N"]

    def u0(self, tau, *a, **k):
        return np.reshape(self.u0f(tau, *a, **k), (self.NQ, np.size(tau)))

    def u(self, tau, phi, *a, **k):
        return np.reshape(self.uf(tau, phi, *a, **k), (self.NQ, np.size(tau), np.size(phi)))

    def modes(self, tau, *a):
        """(NF, NQ, Ntau) cosine modes by discrete orthogonality."""
        NF = self.S["NF"]
        th = pi * (np.arange(NF) + 0.5) / NF
        U = self.u(tau, self.S["phi0"] + th, *a)
        m = np.arange(NF)
        T = np.cos(m[:, None] * th[None, :]) * np.where(m == 0, 1, 2)[:, None] / NF
        return np.einsum("mk,itk->mit", T, U)

    def umax(self):
        t = np.unique(np.concatenate([self.S["tau0"], self.S["tau0"][:-1] + self.S["thick"] / 2]))
        r = np.max(np.abs(self.u0(t)))
        return max(r, 1e-9, 1e-6 * abs(self.S["I0"]))

    def stau(self, tau):
        """Documented tau -> tau* map."""
        S = self.S
        tau = np.atleast_1d(tau)
        l = np.searchsorted(S["tau"], tau, side="left")
        l = np.minimum(l, S["L"] - 1)
        return S["stau0"][l] + (tau - S["tau0"][l]) * S["scale"][l], l


def source_s(case, S, tau, l):
    s = case.get("s_poly_coeffs")
    if s is None:
        return np.zeros(np.shape(tau))
    s = np.atleast_2d(s)
    return np.polynomial.polynomial.polyval(tau, s[l])


def kmax(case):
    return float(np.max(np.abs(gen.eigs(case).real)))


def op(S, m, l):
    """(D w) matrix of the multiple scattering integral and the beam scattering vector of mode m in layer l."""
    mu, w = gl01(S["N"])
    mus = np.concatenate([mu, -mu])
    ws = np.concatenate([w, w])
    Lam = norm_leg(m, S["NLeg"], mus)
    c = S["som"][l] / 2 * (2 * np.arange(m, S["NLeg"]) + 1) * S["g"][l, m:]
    D = ((Lam * c[:, None]).T @ Lam) * ws[None, :]
    if S["I0"] > 0:
        X = S["I0"] / (2 * pi) * (1 if m == 0 else 2) * (Lam * c[:, None]).T @ norm_leg(m, S["NLeg"], -S["mu0"])[:, 0]
    else:
        X = np.zeros(S["NQ"])
    return mus, D, X


# ------------------------------------------------------------------------------------------------------------------ C01
def rte_residual(case, over=None, use_u=True):
    sol = Sol(case, **(over or {}))
    S = sol.S
    km = kmax(sol.case)
    gx, gw = np.polynomial.legendre.leggauss(14)
    um = sol.umax()
    for l in range(S["L"]):
        t0, t1 = S["tau0"][l], S["tau0"][l + 1]
        h = min(t1 - t0, 3.0 / (km * S["scale"][l]))
        starts = [np.nextafter(t0, np.inf), t1 - h, (t0 + t1) / 2 - h / 2] if h < t1 - t0 else [np.nextafter(t0, np.inf)]
        for a in starts:
            b = min(a + h, t1)
            tq = (a + b) / 2 + (b - a) / 2 * gx
            tau = np.concatenate([[a, b], tq])
            M = sol.modes(tau) if (use_u and sol.uf is not None) else sol.u0(tau)[None]
            st = S["stau0"][l] + (tq - S["tau0"][l]) * S["scale"][l]
            for m in range(M.shape[0]):
                mus, D, X = op(S, m, l)
                I = M[m][:, 2:]
                rhs = S["scale"][l] * (I - D @ I)
                if S["I0"] > 0:
                    rhs = rhs - S["scale"][l] * X[:, None] * np.exp(-st / S["mu0"])[None, :]
                if m == 0:
                    rhs = rhs - (1 - S["om"][l]) * source_s(case, S, tq, l)[None, :]
                integ = rhs @ gw * (b - a) / 2
                lhs = mus * (M[m][:, 1] - M[m][:, 0])
                res = (lhs - integ) / (b - a)
                sc_ = (um + S["I0"]) * km  # multiple scattering below 1e-8 may be neglected (documented shortcut)
                need(np.all(np.isfinite(res)), "non-finite intensity in layer %d mode %d" % (l, m))
                need(np.max(np.abs(res)) <= 2e-8 * sc_ + 2e-12 * um / (b - a),
                     "radiative transfer equation residual %.3e (scale %.3e) in layer %d, Fourier mode %d, tau in [%.6g, %.6g]"
                     % (np.max(np.abs(res)), sc_, l, m, a, b))
    return sol


def C01(rng, n):
    for i, case in enumerate(gen.cases(rng, n)):
        yield "rte-u[%d]" % i, case, lambda case=case: rte_residual(case)
        if i % 4 == 0:
            yield "rte-u0-only_flux[%d]" % i, noflux2d(case), lambda case=case: rte_residual(noflux2d(case), dict(only_flux=True), False)

            def azi(case=case, r=rng.uniform(0, 2 * pi, 3)):
                sol = Sol(case)
                S = sol.S
                tau = np.linspace(0, S["tau"][-1], 4)
                M = sol.modes(tau)
                ph = S["phi0"] + r
                exp = np.einsum("mit,mp->itp", M, np.cos(np.arange(S["NF"])[:, None] * r[None, :]))
                close(sol.u(tau, ph), exp, 1e-10, "intensity is not the cosine series of its modes", scale=np.max(np.abs(M)) * S["NF"])
            yield "azimuth[%d]" % i, case, azi


def noflux2d(case):
    """Variant of a case usable with only_flux (per-mode boundary conditions reduced to their zeroth column)."""
    c = dict(case)
    for b in ("b_pos", "b_neg"):
        if np.ndim(c.get(b, 0)) == 2:
            c[b] = c[b][:, 0].copy()
    return c


# ------------------------------------------------------------------------------------------------------------------ C02
def bc_mode(case, name, m, N):
    b = case.get(name, 0)
    if np.ndim(b) == 2:
        return b[:, m]
    if m > 0:
        return np.zeros(N)
    return np.full(N, b) if np.size(b) == 1 else np.asarray(b, float)


def bdrf_eval(mode, mu, mup):
    if np.isscalar(mode):
        return np.full((len(mu), len(mup)), mode)
    return np.broadcast_to(mode(mu, mup), (len(mu), len(mup)))


def check_bc(case):
    sol = Sol(case)
    S = sol.S
    N = S["N"]
    mu, w = gl01(N)
    um = sol.umax()
    L = S["tau"][-1]
    M = sol.modes(np.array([0.0, L]))
    modes = strip(case).get("BDRF_Fourier_modes", [])
    for m in range(S["NF"]):
        close(M[m][N:, 0], bc_mode(case, "b_neg", m, N), 1e-8, "top boundary condition, mode %d" % m, scale=um)
        down = M[m][N:, 1]
        exp = bc_mode(case, "b_pos", m, N).copy()
        if m < len(modes):
            R = bdrf_eval(modes[m], mu, mu)
            exp = exp + (2 if m == 0 else 1) * (R * (mu * w)[None, :]) @ down
            if S["I0"] > 0:
                exp = exp + S["mu0"] * S["I0"] / pi * np.exp(-S["stau0"][-1] / S["mu0"]) * bdrf_eval(modes[m], mu, np.array([S["mu0"]]))[:, 0]
        close(M[m][:N, 1], exp, 1e-8, "bottom boundary condition, mode %d" % m, scale=um)
    km = kmax(case)
    for l in range(S["L"] - 1):
        t = S["tau"][l]
        a = sol.modes(np.array([t]))
        b = sol.modes(np.array([np.nextafter(t, np.inf)]))
        close(b, a, 1e-8 + 1e-14 * km, "intensity jumps at interface %d" % l, scale=um)
    t = S["tau"][:-1]
    if len(t):
        tp = np.nextafter(t, np.inf)
        close(np.reshape(sol.Fp(tp), -1), np.reshape(sol.Fp(t), -1), 1e-8, "upward flux jumps", scale=um)
        for k in (0, 1):
            close(np.reshape(sol.Fm(tp)[k], -1), np.reshape(sol.Fm(t)[k], -1), 1e-8, "downward flux jumps", scale=um)
    # u0 satisfies the mode-0 boundary conditions as well
    close(sol.u0(0.0)[N:, 0], bc_mode(case, "b_neg", 0, N), 1e-8, "top boundary condition of u0", scale=um)


def C02(rng, n):
    for i, case in enumerate(gen.cases(rng, n)):
        yield "bc[%d]" % i, case, lambda case=case: check_bc(case)
    for i in range(4):
        case = gen.build(rng, NLayers=[10, 13, 3, 1][i], NQuad=4, bdrf=["func", "scalar", "mixed", "cachedmu0"][i], beam=1, bpos="2d", bneg="2d", thin=i < 2)
        yield "bc-banded[%d]" % i, case, lambda case=case: check_bc(dict(case, use_banded_solver_NLayers=3))


# ------------------------------------------------------------------------------------------------------------------ C03
def all_outputs(sol, tau, phi, anti=False):
    r = dict(Fp=np.reshape(sol.Fp(tau, anti), -1), Fm=np.reshape(sol.Fm(tau, anti)[0], -1), Fd=np.reshape(sol.Fm(tau, anti)[1], -1), u0=sol.u0(tau, anti))
    if sol.uf is not None:
        r["u"] = sol.u(tau, phi, anti)
    return r


def probes(S, rng, k=4):
    t = [0.0, S["tau"][-1]] + list(S["tau"][:-1][:3])
    t += list(rng.uniform(0, S["tau"][-1], k))
    return np.array(t)


def same(a, b, tol, what, keys=None, scale=None):
    for k in (keys or a):
        if k in a and k in b:
            close(b[k], a[k], tol, "%s: %s" % (what, k), scale=max(np.max(np.abs(a[k])), scale or 0))


def C03(rng, n):
    cs = gen.cases(rng, n) + gen.cases(rng, max(4, n // 3), NT=True)
    for i, case in enumerate(cs):
        def f(case=case, r=np.random.default_rng(rng.integers(2**31))):
            a = Sol(case)
            tau = probes(a.S, r)
            phi = r.uniform(0, 2 * pi, 3)
            um = a.umax()
            A = all_outputs(a, tau, phi)
            AA = all_outputs(a, tau, phi, True)
            L = a.S["L"]
            for thr in sorted({3, L, L + 1, 1000} - {1, 2}):
                b = Sol(case, use_banded_solver_NLayers=thr)
                same(A, all_outputs(b, tau, phi), 1e-8, "use_banded_solver_NLayers=%d" % thr, scale=um)
                same(AA, all_outputs(b, tau, phi, True), 1e-7, "use_banded_solver_NLayers=%d antiderivative" % thr, scale=um)
            b = Sol(case, autograd_compatible=True)
            same(A, all_outputs(b, tau, phi), 1e-9, "autograd_compatible", scale=um)
            same(AA, all_outputs(b, tau, phi, True), 1e-8, "autograd_compatible antiderivative", scale=um)
            if np.ndim(case.get("b_pos", 0)) < 2 and np.ndim(case.get("b_neg", 0)) < 2:
                b = Sol(case, only_flux=True)
                need(len(b.out) == 4, "only_flux returned %d outputs" % len(b.out))
                same(A, all_outputs(b, tau, phi), 1e-9, "only_flux", scale=um)
                same(AA, all_outputs(b, tau, phi, True), 1e-8, "only_flux antiderivative", scale=um)
        yield "options[%d]" % i, case, f
        if i % 3 == 0:
            def g(case=case, r=np.random.default_rng(rng.integers(2**31))):
                import autograd
                a = Sol(case, autograd_compatible=True)
                l = int(r.integers(a.S["L"]))
                t = float(a.S["tau0"][l] + a.S["thick"][l] * r.uniform(0.3, 0.7))
                h = 1e-5 * min(1.0, a.S["thick"][l])
                um = a.umax() * kmax(case)
                for nm, fn in (("Fp", lambda x: a.Fp(x)), ("Fm", lambda x: a.Fm(x)[0])):
                    d = autograd.grad(lambda x: fn(x) * 1.0)(t)
                    fd = (fn(t + h) - fn(t - h)) / (2 * h)
                    close(d, fd, 2e-4, "autograd derivative of " + nm, scale=um)
                d = autograd.jacobian(lambda x: a.u0f(x))(t)
                fd = (a.u0f(t + h) - a.u0f(t - h)) / (2 * h)
                close(d, fd, 2e-4, "autograd derivative of u0", scale=um)
                if a.uf is not None:
                    p = float(r.uniform(0, 6))
                    d = autograd.jacobian(lambda x: a.uf(x, p))(t)
                    fd = (a.uf(t + h, p) - a.uf(t - h, p)) / (2 * h)
                    close(d, fd, 2e-4, "autograd derivative of u", scale=um * max(1, a.S["NF"]))
            yield "autograd[%d]" % i, case, g


# ------------------------------------------------------------------------------------------------------------------ C04
def check_antider(case, r, over=None):
    sol = Sol(case, **(over or {}))
    S = sol.S
    km = max(kmax(sol.case), 1 / S["mu0"] if S["I0"] > 0 else 0)
    gx, gw = np.polynomial.legendre.leggauss(16)
    um = sol.umax()
    phi = r.uniform(0, 2 * pi, 2)
    act = sub.generate_diff_act_flux_funcs(sol.u0f)
    # all end points of all layers are evaluated in ONE vector call, so that a confusion between layers and points shows
    A, B, Q, Wq = [], [], [], []
    layers = list(range(S["L"])) if S["L"] <= 5 else sorted(set([0, S["L"] - 1] + list(r.integers(0, S["L"], 3))))
    for l in layers:
        t0, t1 = S["tau0"][l], S["tau0"][l + 1]
        h = min(t1 - t0, 3.0 / km)
        a0 = t0 + (t1 - t0 - h) * r.random()
        a = max(np.nextafter(t0, np.inf), a0)
        b = min(t1, a0 + h)
        A.append(a); B.append(b)
        Q.append((a + b) / 2 + (b - a) / 2 * gx)
        Wq.append((b - a) / 2 * gw)
    A, B, Q, Wq = np.array(A), np.array(B), np.array(Q), np.array(Wq)
    nl = len(layers)
    perm = r.permutation(2 * nl)
    ends = np.concatenate([A, B])[perm]
    inv = np.argsort(perm)

    def test(name, F, last, sc_):
        """F(tau, anti) -> (..., Ntau)[last axis = tau]"""
        E = np.asarray(F(ends, True))
        need(E.shape[-1] == 2 * nl, "%s: antiderivative has shape %s" % (name, E.shape))
        E = E[..., inv]
        q = np.asarray(F(Q.ravel(), False)).reshape(E.shape[:-1] + Q.shape)
        integ = np.sum(q * Wq, axis=-1)
        close(E[..., nl:] - E[..., :nl], integ, 5e-8, "antiderivative of %s" % name, scale=max(sc_, 1e-3 * np.max(np.abs(E))))

    F1 = lambda f: (lambda t, an: np.reshape(f(t, an), -1))
    test("upward flux", F1(sol.Fp), None, um)
    test("downward diffuse flux", F1(lambda t, an: sol.Fm(t, an)[0]), None, um)
    test("direct flux", F1(lambda t, an: sol.Fm(t, an)[1]), None, um)
    test("u0", lambda t, an: sol.u0(t, an), None, um)
    test("upward actinic flux", F1(act[0]), None, um)
    test("downward actinic flux", F1(act[1]), None, um)
    if sol.uf is not None:
        test("intensity", lambda t, an: np.moveaxis(sol.u(t, phi, an), 1, -1), None, um * 3)


def C04(rng, n):
    for i, case in enumerate(gen.cases(rng, n)):
        yield "anti[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_antider(case, r)
    for i, case in enumerate(gen.cases(rng, max(6, n // 2), NT=True)):
        yield "anti-NT[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_antider(case, r)
    for i in range(3):
        case = gen.build(rng, NLayers=[1, 3, 4][i], iso=[1, 2, 4][i], f=1)
        yield "anti-autograd[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_antider(case, r, dict(autograd_compatible=True))


# ------------------------------------------------------------------------------------------------------------------ C05
def check_flux(case, r):
    sol = Sol(case)
    S = sol.S
    mu, w = gl01(S["N"])
    N = S["N"]
    tau = probes(S, r, 6)
    um = sol.umax()
    close(sol.mu, np.concatenate([mu, -mu]), 1e-13, "mu_arr")
    u0 = sol.u0(tau)
    st, _ = sol.stau(tau)
    direct = S["I0"] * S["mu0"] * np.exp(-tau / S["mu0"]) if S["I0"] > 0 else np.zeros(len(tau))
    dstar = S["I0"] * S["mu0"] * np.exp(-st / S["mu0"]) if S["I0"] > 0 else np.zeros(len(tau))
    close(sol.Fp(tau), 2 * pi * (mu * w) @ u0[:N], 1e-10, "upward flux", scale=um)
    d, b = sol.Fm(tau)
    close(b, direct, 1e-11, "direct flux", scale=max(S["I0"], 1e-300) if S["I0"] else 1.0)
    close(d, 2 * pi * (mu * w) @ u0[N:] + dstar - direct, 1e-10, "downward diffuse flux", scale=um)
    if not case.get("NT_cor"):
        NF = S["NF"]
        ph = S["phi0"] + 2 * pi * np.arange(2 * NF + 1) / (2 * NF + 1)
        U = sol.u(tau, ph)
        close(np.mean(U, axis=2), u0, 1e-9, "azimuthal mean of u", scale=np.max(np.abs(U)))


def C05(rng, n):
    for i, case in enumerate(gen.cases(rng, n) + gen.cases(rng, max(4, n // 4), NT=True)):
        yield "flux[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_flux(case, r)


# ------------------------------------------------------------------------------------------------------------------ C06
def compose_affine(s, scale, shift):
    """coefficients in y of p(x), y = scale x + shift."""
    P = np.polynomial.polynomial
    x = np.array([-shift / scale, 1 / scale])
    out = np.zeros(1)
    for c in s[::-1]:
        out = P.polyadd(P.polymul(out, x), [c])
    r = np.zeros(len(s))
    r[:min(len(out), len(s))] = out[:len(s)]
    return r


def check_dscale(case, r):
    a = Sol(case)
    S = a.S
    c2 = dict(case)
    c2["tau_arr"] = S["stau0"][1:].copy()
    c2["omega_arr"] = S["som"].copy()
    c2["Leg_coeffs_all"] = S["g"].copy()
    c2["NLeg"] = S["NLeg"]
    c2.pop("f_arr", None)
    c2.pop("NT_cor", None)
    if "NFourier" not in c2:
        c2["NFourier"] = S["NF"]
    s = case.get("s_poly_coeffs")
    if s is not None:
        c2["s_poly_coeffs"] = np.array([compose_affine(np.atleast_2d(s)[l], S["scale"][l], S["stau0"][l] - S["scale"][l] * S["tau0"][l]) for l in range(S["L"])])
    b = Sol(c2)
    tau = probes(S, r, 5)
    tau[1] = S["tau"][-1]
    st, l = a.stau(tau)
    st = np.minimum(st, S["stau0"][-1])
    um = a.umax()
    phi = r.uniform(0, 2 * pi, 3)
    close(a.u(tau, phi), b.u(st, phi), 1e-7, "intensity of the delta-scaled problem", scale=um)
    close(a.u0(tau), b.u0(st), 1e-7, "u0 of the delta-scaled problem", scale=um)
    close(a.Fp(tau), b.Fp(st), 1e-7, "upward flux of the delta-scaled problem", scale=um)
    A, B = a.Fm(tau), b.Fm(st)
    close(A[0] + A[1], B[0] + B[1], 1e-7, "total downward flux of the delta-scaled problem", scale=um)
    if S["I0"] > 0:
        close(A[1], S["I0"] * S["mu0"] * np.exp(-tau / S["mu0"]), 1e-10, "direct flux uses unscaled optical depth", scale=S["I0"])


def check_f0(case, r):
    c1 = dict(case)
    c1.pop("f_arr", None)
    a = Sol(c1)
    b = Sol(dict(c1, f_arr=np.zeros(a.S["L"])))
    tau = probes(a.S, r, 4)
    phi = r.uniform(0, 2 * pi, 2)
    same(all_outputs(a, tau, phi), all_outputs(b, tau, phi), 1e-13, "f = 0")
    # an infinitesimally small f must not be a discontinuity
    f = np.zeros(a.S["L"])
    f[-1] = 1e-11
    c = Sol(dict(c1, f_arr=f))
    same(all_outputs(a, tau, phi), all_outputs(c, tau, phi), 1e-7, "f -> 0", scale=a.umax())


def C06(rng, n):
    for i in range(n):
        case = gen.build(rng, f=1 + i % 3, NLayers=[1, 2, 3, 5, 11][i % 5], thin=(i % 5 == 4), NQuad=4 if i % 5 == 4 else None,
                         iso=[2, 0, 3, 1, 5][(i // 2) % 5], beam=[1, 1, 0][i % 3])
        yield "dscale[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_dscale(case, r)
        if i % 3 == 0:
            yield "f0[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_f0(case, r)


# ------------------------------------------------------------------------------------------------------------------ C07
def legsum(c, x):
    return np.polynomial.legendre.legval(x, c)


def nt_expected(case, S, tau, phi):
    mu, w = gl01(S["N"])
    N = S["N"]
    mu0, phi0, I0 = S["mu0"], S["phi0"], S["I0"]
    leg = np.atleast_2d(np.asarray(case["Leg_coeffs_all"], float)).copy()
    leg[:, 0] = 1
    nall = leg.shape[1]
    mus = np.concatenate([mu, -mu])
    cosang = -mu0 * mus[:, None] + np.sqrt(1 - mu0**2) * np.sqrt(1 - mus**2)[:, None] * np.cos(phi0 - phi)[None, :]
    st0 = S["stau0"]
    src = []
    for l in range(S["L"]):
        pt = legsum((2 * np.arange(nall) + 1) * leg[l], cosang)
        pr = legsum((2 * np.arange(S["NLeg"]) + 1) * S["g"][l], cosang)
        src.append(S["som"][l] * I0 / (4 * pi) * (pt / (1 - S["f"][l]) - pr))
    out = np.zeros((S["NQ"], len(tau), len(phi)))
    gx, gw = np.polynomial.legendre.leggauss(40)
    for it, t in enumerate(tau):
        l = min(int(np.searchsorted(S["tau"], t, side="left")), S["L"] - 1)
        st = st0[l] + (t - S["tau0"][l]) * S["scale"][l]
        for r in range(S["L"]):
            for i in range(N):
                # upward: layers below
                lo, hi = max(st, st0[r]), st0[r + 1]
                if hi > lo:
                    k = 1 / mu[i] + 1 / mu0
                    val = (np.exp((st - lo) / mu[i] - lo / mu0) - np.exp((st - hi) / mu[i] - hi / mu0)) / (mu[i] * k)
                    out[i, it] += src[r][i] * val
                lo, hi = st0[r], min(st, st0[r + 1])
                if hi > lo:
                    k = 1 / mu[i] - 1 / mu0
                    # integrate exp(-(st - t')/mu - t'/mu0) / mu
                    val = (np.exp(-(st - hi) / mu[i] - hi / mu0) - np.exp(-(st - lo) / mu[i] - lo / mu0)) / (mu[i] * k)
                    out[N + i, it] += src[r][N + i] * val
    # IMS
    om, f = S["om"], S["f"]
    ta = S["tau"]
    oavg = np.sum(om * ta) / np.sum(ta)
    favg = np.sum(f * om * ta) / np.sum(om * ta)
    res = leg.copy()
    res[:, :S["NLeg"]] = f[:, None]
    ravg = np.sum(res * (om * ta)[:, None], axis=0) / np.sum(f * om * ta)
    smu0 = mu0 / (1 - oavg * favg)
    pr = legsum((2 * np.arange(nall) + 1) * (2 * ravg - ravg**2), cosang[N:])
    x = 1 / mu - 1 / smu0
    chi = ((tau[None, :] - 1 / x[:, None]) * np.exp(-tau / smu0)[None, :] + np.exp(-tau[None, :] / mu[:, None]) / x[:, None]) / (mu * smu0 * x)[:, None]
    out[N:] += I0 / (4 * pi) * (oavg * favg) ** 2 / (1 - oavg * favg) * pr[:, None, :] * chi[:, :, None]
    return out


def check_nt(case, r):
    c0 = dict(case)
    c0.pop("NT_cor", None)
    a = Sol(c0)
    b = Sol(c0, NT_cor=True)
    S = a.S
    tau = probes(S, r, 5)
    tau = r.permutation(tau)
    phi = r.uniform(0, 2 * pi, 3)
    um = a.umax()
    cor = b.u(tau, phi) - a.u(tau, phi)
    nall = np.atleast_2d(case["Leg_coeffs_all"]).shape[1]
    act = np.any(S["f"] > 0) and S["NLeg"] < nall and np.any(S["om"] > 0) and S["I0"] > 0
    if act and np.sum(S["f"] * S["om"]) > 0:
        e = nt_expected(case, S, tau, phi)
        close(cor, e, 1e-7, "NT correction", scale=max(um, np.max(np.abs(e))))
    else:
        close(cor, np.zeros_like(cor), 1e-12, "NT correction must be inactive", scale=um)
    A, B = all_outputs(a, tau, phi), all_outputs(b, tau, phi)
    same(A, B, 1e-13, "NT correction changed", keys=["Fp", "Fm", "Fd", "u0"], scale=um)


def C07(rng, n):
    for i, case in enumerate(gen.cases(rng, n, NT=True)):
        yield "nt[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_nt(case, r)
    for i in range(5):
        kw = [dict(f=0), dict(f=1, beam=0), dict(f=2, NLayers=8, thick=9.0, NQuad=8, beam=1, NT=True), dict(f=0, NLegless=1),
              dict(f=3, NLayers=2, beam=1, NT=True, thick=20.0, NQuad=8)][i]
        case = gen.build(rng, **kw)
        if case["I0"] > 0 or not case.get("NT_cor"):
            yield "nt-corner[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_nt(case, r)


# ------------------------------------------------------------------------------------------------------------------ C08
def parts(case):
    """Single-source sub-problems of a case."""
    out = []
    z = dict(case)
    for k in ("b_pos", "b_neg", "s_poly_coeffs"):
        z.pop(k, None)
    if case["I0"] > 0:
        out.append(dict(z))
    z0 = dict(z, I0=0)
    for k in ("b_pos", "b_neg", "s_poly_coeffs"):
        if k in case:
            out.append(dict(z0, **{k: case[k]}))
    return out


def check_linear(case, r):
    a = Sol(case)
    tau = probes(a.S, r, 4)
    phi = r.uniform(0, 2 * pi, 2)
    um = a.umax()
    A = all_outputs(a, tau, phi)
    AA = all_outputs(a, tau, phi, True)
    for c in (float(10.0 ** r.uniform(-6, 6)), 7.5, 1e-3):
        k = dict(case, I0=case["I0"] * c)
        for x in ("b_pos", "b_neg", "s_poly_coeffs"):
            if x in case:
                k[x] = case[x] * c
        B = all_outputs(Sol(k), tau, phi)
        same({q: v * c for q, v in A.items()}, B, 1e-8, "scaling all sources by %g" % c, scale=um * c)
    P = [Sol(p) for p in parts(case)]
    if P:
        T = [all_outputs(p, tau, phi) for p in P]
        tot = {q: sum(t[q] for t in T) for q in A}
        same(A, tot, 1e-7, "superposition of sources", scale=um)
        T = [all_outputs(p, tau, phi, True) for p in P]
        tot = {q: sum(t[q] for t in T) for q in AA}
        same(AA, tot, 1e-7, "superposition of sources (antiderivative)", scale=um)
        acts = sub.generate_diff_act_flux_funcs(a.u0f)
        tot = sum(np.reshape(sub.generate_diff_act_flux_funcs(p.u0f)[1](tau), -1) for p in P)
        close(tot, np.reshape(acts[1](tau), -1), 1e-7, "superposition of actinic flux", scale=um)
    zero = dict(case, I0=0)
    for x in ("b_pos", "b_neg", "s_poly_coeffs"):
        zero.pop(x, None)
    Z = all_outputs(Sol(zero), tau, phi)
    for q, v in Z.items():
        close(v, np.zeros_like(v), 1e-14, "no source must give zero " + q, scale=1.0)


def C08(rng, n):
    for i, case in enumerate(gen.cases(rng, n) + gen.cases(rng, max(3, n // 5), NT=True)):
        yield "linear[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_linear(case, r)

    for i in range(4):
        case = gen.build(rng, NLayers=3 + i, beam=0, iso=2, bpos="none", bneg="none", f=i % 2)
        s = np.zeros((3 + i, 2))
        s[1] = [0.7, 0.1]
        if i == 3:
            s[0] = [0.0, 0.4]
            s[-1] = 0.0
        case = dict(case, s_poly_coeffs=s)
        yield "inner-source[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): (rte_residual(case), check_bc(case), check_linear(case, r))


# ------------------------------------------------------------------------------------------------------------------ C09
def C09(rng, n):
    base = lambda: dict(tau_arr=np.array([0.5, 1.0, 2.0]), omega_arr=np.array([0.5, 0.9, 0.2]), NQuad=4,
                        Leg_coeffs_all=np.tile(gen.hg(0.5, 6), (3, 1)), mu0=0.6, I0=1.0, phi0=1.0)

    def bad(label, **kw):
        def f():
            b = base()
            for k, v in kw.items():
                if v is KeyError:
                    b.pop(k)
                else:
                    b[k] = v
            raises(ValueError, lambda: pydisort(**b), label)
        return "reject:" + label, kw, f

    def good(label, **kw):
        def f():
            b = base()
            b.update(kw)
            out = pydisort(**b)
            t = np.linspace(0, np.max(b["tau_arr"]), 5)
            vals = [out[1](t), out[2](t)[0], out[3](t)] + ([out[4](t, 0.3)] if len(out) > 4 else [])
            need(all(np.all(np.isfinite(v)) for v in vals), "%s: valid input gives non-finite output" % label)
        return "accept:" + label, kw, f

    A = np.array
    L3 = np.tile(gen.hg(0.5, 6), (3, 1))

    def legmod(l, k, v):
        x = L3.copy()
        x[l, k] = v
        return x
    yield bad("tau zero", tau_arr=A([0.0, 1.0, 2.0]))
    yield bad("tau negative", tau_arr=A([-0.5, 1.0, 2.0]))
    yield bad("tau decreasing first", tau_arr=A([1.0, 0.5, 2.0]))
    yield bad("tau decreasing last", tau_arr=A([0.5, 2.0, 1.0]))
    yield bad("tau repeated", tau_arr=A([0.5, 0.5, 2.0]))
    yield bad("tau repeated last", tau_arr=A([0.5, 2.0, 2.0]))
    for l in range(3):
        for v in (1.0, 1.2, -0.1, -1e-9):
            o = A([0.5, 0.9, 0.2])
            o[l] = v
            yield bad("omega[%d]=%g" % (l, v), omega_arr=o)
        for v in (1.0, -1.0, 1.5, -1.5):
            for k in (1, 3, 5):
                yield bad("Leg[%d,%d]=%g" % (l, k, v), Leg_coeffs_all=legmod(l, k, v))
        for v in (1.0, 1.1, -0.1):
            f = A([0.1, 0.1, 0.1])
            f[l] = v
            yield bad("f[%d]=%g" % (l, v), f_arr=f)
    yield bad("NLeg 0", NLeg=0, NFourier=1)
    yield bad("NLeg negative", NLeg=-1, NFourier=1)
    yield bad("NLeg > provided", NQuad=16, NLeg=7, NFourier=2)
    yield bad("default NLeg > provided", NQuad=16)
    yield bad("Leg layers", Leg_coeffs_all=L3[:2])
    yield bad("Leg layers 1", Leg_coeffs_all=L3[0])
    yield bad("omega layers", omega_arr=A([0.5, 0.5]))
    yield bad("omega layers 4", omega_arr=A([0.5, 0.5, 0.1, 0.1]))
    yield bad("f layers", f_arr=A([0.1, 0.2]))
    yield bad("f scalar for 3 layers", f_arr=0.1)
    yield bad("s layers", s_poly_coeffs=np.ones((2, 2)))
    yield bad("s layers 4", s_poly_coeffs=np.ones((4, 1)))
    yield bad("NQuad odd", NQuad=5)
    yield bad("NQuad 3", NQuad=3, NLeg=2, NFourier=2)
    yield bad("NQuad 0", NQuad=0, NLeg=1, NFourier=1)
    yield bad("NQuad 1", NQuad=1, NLeg=1, NFourier=1)
    yield bad("NQuad negative", NQuad=-2, NLeg=1, NFourier=1)
    yield bad("NFourier 0", NFourier=0)
    yield bad("NFourier negative", NFourier=-1)
    yield bad("NFourier > NLeg", NFourier=5)
    yield bad("NFourier > NLeg (explicit)", NLeg=3, NFourier=4)
    yield bad("NFourier default > NLeg", NLeg=3)
    yield bad("NLeg > NQuad", NLeg=5, NFourier=4)
    yield bad("I0 negative", I0=-1.0)
    yield bad("I0 slightly negative", I0=-1e-12)
    for v in (0.0, -0.5, 1.0000001, 2.0):
        yield bad("mu0=%g" % v, mu0=v)
    for v in (-0.1, 2 * pi, 7.0):
        yield bad("phi0=%g" % v, phi0=v)
    for nm in ("b_pos", "b_neg"):
        yield bad(nm + " length 3", **{nm: np.ones(3)})
        yield bad(nm + " (2,3)", **{nm: np.ones((2, 3))})
        yield bad(nm + " (3,4)", **{nm: np.ones((3, 4))})
        yield bad(nm + " (4,2)", **{nm: np.ones((4, 2))})
        yield good(nm + " scalar", **{nm: 0.5})
        yield good(nm + " vector", **{nm: A([0.5, 0.2])})
        yield good(nm + " 2d", **{nm: np.ones((2, 4)) * 0.3})
        yield good(nm + " 2d NFourier=2", NFourier=2, **{nm: np.ones((2, 2)) * 0.3})
        yield good(nm + " 2d NFourier=1", NFourier=1, **{nm: np.ones((2, 1)) * 0.3})
        yield good(nm + " two streams 2d", NQuad=2, NFourier=2, **{nm: np.ones((1, 2)) * 0.3})
        yield good(nm + " two streams vector", NQuad=2, **{nm: np.ones(1) * 0.3})
    yield bad("banded threshold 2", use_banded_solver_NLayers=2)
    yield bad("banded threshold 0", use_banded_solver_NLayers=0)
    yield bad("banded threshold negative", use_banded_solver_NLayers=-4)
    m0 = float(gl01(2)[0][1])
    yield bad("NT mu0 on node", NT_cor=True, mu0=m0, f_arr=A([0.05, 0.05, 0.05]))
    yield bad("NT mu0 on node 1e-9", NT_cor=True, mu0=m0 + 1e-9, f_arr=A([0.05, 0.05, 0.05]))
    yield good("plain")
    yield good("banded threshold 3", use_banded_solver_NLayers=3)
    yield good("omega zero", omega_arr=A([0.0, 0.9, 0.0]))
    yield good("all omega zero", omega_arr=A([0.0, 0.0, 0.0]))
    yield good("omega near one", omega_arr=A([0.999, 0.9, 0.0]))
    yield good("mu0 = 1", mu0=1.0)
    yield good("mu0 small", mu0=0.01)
    yield good("phi0 = 0", phi0=0.0)
    yield good("phi0 near 2pi", phi0=6.28)
    yield good("no beam, mu0 = 0", I0=0, mu0=0, b_neg=1.0)
    yield good("no beam, phi0 arbitrary", I0=0, mu0=0, phi0=0, b_neg=1.0)
    yield good("no beam, mu0 out of range is irrelevant", I0=0, mu0=-3.0, phi0=-1.0, b_neg=1.0)
    yield good("f zero", f_arr=A([0.0, 0.0, 0.0]))
    yield good("f scalar zero", f_arr=0)
    yield good("f partial", f_arr=A([0.0, 0.05, 0.0]))
    yield good("NLeg = NQuad = NLeg_all", Leg_coeffs_all=L3[:, :4])
    yield good("NLeg 1", NLeg=1, NFourier=1)
    yield good("NFourier = NLeg", NLeg=3, NFourier=3)
    yield good("two streams", NQuad=2)
    yield good("Leg in (-1, 1)", Leg_coeffs_all=legmod(1, 1, -0.2))
    yield good("iso const", s_poly_coeffs=A([[1.0], [2.0], [0.5]]))
    yield good("iso only in the middle", I0=0, mu0=0, s_poly_coeffs=A([[0.0, 0.0], [2.0, 0.1], [0.0, 0.0]]))
    yield good("iso zero array", s_poly_coeffs=np.zeros((3, 2)))
    yield good("no source at all", I0=0, mu0=0)
    yield good("single layer scalars", tau_arr=1.5, omega_arr=0.5, Leg_coeffs_all=gen.hg(0.5, 6))
    yield good("single layer f scalar", tau_arr=1.5, omega_arr=0.5, Leg_coeffs_all=gen.hg(0.5, 6), f_arr=0.06, NT_cor=True)
    yield good("NT", f_arr=A([0.0625, 0.0625, 0.0625]), NT_cor=True)
    yield good("NT with one unscaled layer", f_arr=A([0.0625, 0.0, 0.0625]), NT_cor=True)
    yield good("NT with zero albedo layer", f_arr=A([0.0625, 0.0625, 0.0625]), NT_cor=True, omega_arr=A([0.5, 0.0, 0.3]))
    yield good("only_flux", only_flux=True)
    yield good("thick", tau_arr=A([30.0, 100.0, 400.0]))
    yield good("thick NT", tau_arr=A([30.0, 100.0, 400.0]), f_arr=A([0.0625, 0.0625, 0.0625]), NT_cor=True)
    yield good("thick NT 16 streams", NQuad=16, Leg_coeffs_all=np.tile(gen.hg(0.8, 30), (3, 1)), tau_arr=A([10.0, 60.0, 100.0]), f_arr=np.full(3, 0.8**16), NT_cor=True)
    yield good("thin", tau_arr=A([1e-4, 2e-4, 1.0]))
    yield good("12 layers", tau_arr=np.arange(1, 13) / 6, omega_arr=np.full(12, 0.7), Leg_coeffs_all=np.tile(gen.hg(0.5, 6), (12, 1)))
    yield good("BDRF scalar", BDRF_Fourier_modes=[0.3])
    yield good("more BDRF modes than NFourier", BDRF_Fourier_modes=[0.3, 0.1, 0.1, 0.1, 0.1, 0.1], NFourier=2)

    def corrected():
        b = base()
        b["Leg_coeffs_all"] = legmod(1, 0, 0.7)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o1 = pydisort(**b)
        need(any("zeroth" in str(x.message).lower() or "correct" in str(x.message).lower() for x in w), "no warning about the corrected zeroth coefficient")
        o2 = pydisort(**base())
        t = np.linspace(0, 2, 5)
        close(o1[1](t), o2[1](t), 1e-13, "zeroth coefficient is corrected to 1")
        close(o1[4](t, 0.4), o2[4](t, 0.4), 1e-13, "zeroth coefficient is corrected to 1")
    yield "accept:zeroth Legendre coefficient is corrected", {}, corrected
    # helper functions
    yield "reject:affine", {}, lambda: raises(ValueError, lambda: sub.affine_transform_poly_coeffs(np.ones((2, 2)), A([1.0, 0.0]), A([0.0, 0.0])), "zero scale factor")
    yield "reject:affine2", {}, lambda: raises(ValueError, lambda: sub.affine_transform_poly_coeffs(np.ones((2, 2)), A([0.0, 0.0]), A([0.0, 0.0])), "zero scale factors")
    for nphi in (0, 1, 2, 4, 10):
        yield "reject:CC%d" % nphi, {}, lambda nphi=nphi: raises(ValueError, lambda: sub.Clenshaw_Curtis_quad(nphi), "Clenshaw-Curtis with %d nodes" % nphi)
    yield "reject:spline1", {}, lambda: raises(ValueError, lambda: sub.linear_spline_coefficients(A([1.0]), A([1.0])), "one point spline")
    yield "reject:spline2", {}, lambda: raises(ValueError, lambda: sub.linear_spline_coefficients(A([1.0, 2.0]), A([1.0, 2.0, 3.0])), "spline lengths")
    yield "reject:spline3", {}, lambda: raises(ValueError, lambda: sub.linear_spline_coefficients(A([1.0, 3.0, 2.0]), A([1.0, 2.0, 3.0])), "unsorted spline")
    yield "reject:spline4", {}, lambda: raises(ValueError, lambda: sub.linear_spline_coefficients(A([1.0, 1.0, 2.0]), A([1.0, 2.0, 3.0])), "repeated x spline")
    yield "reject:temper", {}, lambda: raises(ValueError, lambda: sub.generate_s_poly_coeffs(A([1.0, 2.0]), A([200.0, 250.0]), 100, 200), "missing temperature")
    yield "reject:temper2", {}, lambda: raises(ValueError, lambda: sub.generate_s_poly_coeffs(A([1.0]), A([200.0, 250.0, 270.0]), 100, 200), "extra temperature")

    def interp_bad():
        o = pydisort(**base())
        ui = sub.interpolate(o[4])
        raises(ValueError, lambda: ui(1.2, 0.5, 0.1), "interpolation at mu = 1.2")
        raises(ValueError, lambda: ui(np.array([0.1, -1.1]), 0.5, 0.1), "interpolation at mu = -1.1")
        u0i = sub.interpolate(o[3])
        raises(ValueError, lambda: u0i(1.2, 0.5), "interpolation of u0 at mu = 1.2")
        raises(ValueError, lambda: sub.interpolate(lambda a, b, c=1: np.zeros(4)), "interpolation of another function")
    yield "reject:interpolate", {}, interp_bad
    for i in range(min(n, 40)):
        case = gen.build(rng)

        def randbad(case=case, r=np.random.default_rng(rng.integers(2**31))):
            S = scaled(case)
            k = int(r.integers(6))
            c = dict(case)
            l = int(r.integers(S["L"]))
            if k == 0:
                o = S["om"].copy(); o[l] = float(r.choice([1.0, 1.5, -0.2])); c["omega_arr"] = o
            elif k == 1:
                t = S["tau"].copy(); t[l] = float(t[l - 1]) if l else float(-r.random()); c["tau_arr"] = t
            elif k == 2:
                g = np.atleast_2d(case["Leg_coeffs_all"]).copy()
                if g.shape[1] < 2:
                    return
                g[l, int(r.integers(1, g.shape[1]))] = float(r.choice([1.0, -1.0, 3.0])); c["Leg_coeffs_all"] = g
            elif k == 3:
                f = np.zeros(S["L"]); f[l] = float(r.choice([1.0, -0.2, 1.7])); c["f_arr"] = f
            elif k == 4:
                c["use_banded_solver_NLayers"] = int(r.integers(-3, 3))
            else:
                c["NQuad"] = S["NQ"] + 1
                c["NFourier"] = 1
            raises(ValueError, lambda: solve(c), "random invalid input kind %d" % k)
        yield "reject:random[%d]" % i, case, randbad


# ------------------------------------------------------------------------------------------------------------------ C10
def snap(kw):
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.copy(v)) for k, v in kw.items()}


def unchanged(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            need(isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y), "%s modified argument %s" % (what, k))
        elif isinstance(x, list):
            need(len(x) == len(y) and all(p is q for p, q in zip(x, y)), "%s modified argument %s" % (what, k))
        else:
            need(x is y or x == y, "%s modified argument %s" % (what, k))


def check_pure(case, r):
    kw = realised(case)
    for k, v in list(kw.items()):
        if k in ("tau_arr", "omega_arr") and np.ndim(v) == 1 and r.random() < 0.3:
            kw[k] = np.asfortranarray(v)
    before = snap(kw)
    out = pydisort(**kw)
    unchanged(before, kw, "pydisort")
    S = scaled(case)
    tau = probes(S, r, 5)
    phi = r.uniform(0, 2 * pi, 3)
    t0, p0 = tau.copy(), phi.copy()
    mu, Fp, Fm, u0, u = out
    act = sub.generate_diff_act_flux_funcs(u0)
    ui = sub.interpolate(u)
    u0i = sub.interpolate(u0)
    mm = np.array([-0.9, 0.3, 0.77])
    calls = [lambda: Fp(tau), lambda: Fp(tau, True), lambda: Fm(tau)[0], lambda: Fm(tau, True)[1], lambda: Fm(tau, True)[0], lambda: u0(tau), lambda: u0(tau, True),
             lambda: u(tau, phi), lambda: u(tau, phi, True), lambda: u(tau, phi, False, True)[1], lambda: u(tau, phi, return_tau_arr=True)[0],
             lambda: act[0](tau), lambda: act[1](tau), lambda: act[1](tau, True), lambda: ui(mm, tau, phi), lambda: ui(mm, tau[:2], phi[:1]), lambda: u0i(mm, tau), lambda: ui(0.5, 0.0, 0.0)]
    first = [np.array(c(), copy=True) for c in calls]
    order = r.permutation(len(calls))
    for k in order:
        v = calls[k]()
        need(np.array_equal(np.asarray(v), first[k], equal_nan=True), "evaluation %d gives a different result when repeated in another order" % k)
        try:
            v *= 0  # the caller may overwrite what it was given
        except TypeError:
            pass
    for k in r.permutation(len(calls)):
        need(np.array_equal(np.asarray(calls[k]()), first[k], equal_nan=True), "evaluation %d changed after the caller overwrote a previous result" % k)
    need(np.array_equal(tau, t0) and np.array_equal(phi, p0), "evaluation modified its arguments")
    unchanged(before, kw, "evaluation")
    # a second solve does not disturb the first, and is itself reproducible
    other = gen.build(r)
    o2 = solve(other)
    o2[4](np.array([0.0]), 0.1)
    out3 = pydisort(**kw)
    for k, c in enumerate(calls):
        need(np.array_equal(np.asarray(c()), first[k], equal_nan=True), "evaluation %d changed after another solve" % k)
    need(np.array_equal(np.asarray(out3[4](tau, phi)), first[7]) and np.array_equal(np.asarray(out3[1](tau)), first[0]), "solving the same problem twice gives different results")
    # histories: the same evaluations in opposite order, depths that share length, ends or sum, arrays changed in place between calls
    T1 = S["tau0"][-1]
    base = np.sort(r.uniform(0, T1, 5))
    var = [base, base[::-1].copy(), np.concatenate(([base[0]], r.uniform(0, T1, 3), [base[-1]])), np.concatenate(([base[0]], r.uniform(0, T1, 3), [base[-1]])),
           r.permutation(base), np.full(5, base[2]), np.concatenate(([base[0]], base[[0, 0]], [base[-1]] * 2))]
    pv = [np.concatenate(([0.3], r.uniform(0, 2 * pi, 1), [1.1])) for _ in var]
    mv = [np.concatenate(([-0.5], r.uniform(-1, 1, 1), [0.6])) for _ in var]

    def evals(o):
        a2, i2, j2 = sub.generate_diff_act_flux_funcs(o[3]), sub.interpolate(o[4]), sub.interpolate(o[3])
        return [lambda k, t: o[1](t), lambda k, t: o[2](t)[0], lambda k, t: o[2](t, True)[1], lambda k, t: o[3](t), lambda k, t: o[3](t, True), lambda k, t: o[4](t, pv[k]),
                lambda k, t: o[4](t, pv[k], True), lambda k, t: a2[0](t), lambda k, t: a2[1](t), lambda k, t: i2(mv[k], t, pv[k]), lambda k, t: j2(mv[k], t)]
    e1, e2 = evals(out), evals(out3)
    x = np.empty(5)
    for q in range(len(e1)):
        f1 = [np.array(e1[q](k, var[k]), copy=True) for k in range(len(var))]
        # the interpolators choose their node order at random when made: compare those up to rounding
        same = (lambda a, b: np.array_equal(a, b, equal_nan=True)) if q < 9 else (lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9 * np.max(np.abs(b))))
        for k in reversed(range(len(var))):
            need(same(np.asarray(e2[q](k, var[k])), f1[k]), "evaluation %d depends on which depths were asked for before" % q)
        for k in range(len(var)):
            x[:] = var[k]
            need(same(np.asarray(e2[q](k, x)), f1[k]), "evaluation %d does not see that the array of depths was changed" % q)
    # overwriting what was passed in or received changes nothing (fresh copies, so that the case itself stays as it is)
    kc = snap(kw)
    o4 = pydisort(**kc)
    t4, p4 = np.sort(r.uniform(0, T1, 4)), r.uniform(0, 2 * pi, 2)
    rt4 = lambda f, *a: (lambda: [np.array(x, copy=True) for x in (lambda w: w if isinstance(w, tuple) else (w,))(f(*a))])
    ev4 = [rt4(o4[1], t4), rt4(o4[2], t4), rt4(o4[3], t4), rt4(o4[1], t4, True), rt4(o4[3], t4, True), rt4(o4[4], t4, p4), rt4(o4[4], t4, p4, True)]
    was = [c() for c in ev4]
    got = [o4[0]]
    for f, a in ((o4[1], (t4,)), (o4[2], (t4,)), (o4[3], (t4,)), (o4[4], (t4, p4))):
        for anti in (False, True):
            got += [x for x in f(*a, is_antiderivative_wrt_tau=anti, return_tau_arr=True) if isinstance(x, np.ndarray)]
    for name, x in [(k, v) for k, v in kc.items()] + [("received", g) for g in got]:
        if isinstance(x, np.ndarray) and x.dtype.kind in "fi" and x.size:
            x[...] = 7
        elif isinstance(x, list):
            x.clear()
        else:
            continue
        for q, c in enumerate(ev4):
            now = c()
            need(len(now) == len(was[q]) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(now, was[q])), "evaluation %d changed after the caller overwrote %s" % (q, "an array it had received" if name == "received" else "its argument " + name))
    # default arguments are not accumulated
    d = dict(tau_arr=1.0, omega_arr=0.5, NQuad=4, Leg_coeffs_all=gen.hg(0.4, 4), mu0=0.7, I0=1.0, phi0=0.0)
    a, b = pydisort(**d), pydisort(**d)
    need(np.array_equal(a[4](0.3, 0.2), b[4](0.3, 0.2)), "default arguments carry state")


def C10(rng, n):
    cs = gen.cases(rng, n) + gen.cases(rng, max(4, n // 4), NT=True)
    for i, case in enumerate(cs):
        yield "pure[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_pure(case, r)

    def leg0():
        L = np.tile(gen.hg(0.5, 6), (2, 1))
        L[1, 0] = 0.5
        L0 = L.copy()
        pydisort(np.array([1.0, 2.0]), np.array([0.5, 0.5]), 4, L, 0.6, 1.0, 0.0)
        need(np.array_equal(L, L0), "pydisort modified the caller's Legendre coefficients")
    yield "leg0", {}, leg0

    def readonly():
        b = dict(tau_arr=np.array([1.0, 2.0]), omega_arr=np.array([0.5, 0.5]), Leg_coeffs_all=np.tile(gen.hg(0.5, 6), (2, 1)),
                 f_arr=np.array([0.03, 0.06]), b_pos=np.array([0.1, 0.2]), b_neg=np.array([0.1, 0.2]), s_poly_coeffs=np.ones((2, 2)))
        for v in b.values():
            v.setflags(write=False)
        for kw in (dict(), dict(NT_cor=True), dict(autograd_compatible=True), dict(only_flux=True)):
            o = pydisort(NQuad=4, mu0=0.6, I0=1.0, phi0=0.0, **b, **kw)
            t = np.array([0.1, 1.5]); t.setflags(write=False)
            o[1](t), o[2](t), o[3](t)
            if len(o) > 4:
                o[4](t, t)
    yield "readonly inputs", {}, readonly

    def helpers(r=np.random.default_rng(rng.integers(2**31))):
        x = np.sort(r.random(5)); y = r.random(5)
        args = [x.copy(), y.copy()]
        sub.linear_spline_coefficients(x, y)
        need(np.array_equal(x, args[0]) and np.array_equal(y, args[1]), "linear_spline_coefficients modified its input")
        P = r.random((5, 3)); P0 = P.copy(); a = r.random(5) + 1; a0 = a.copy()
        sub.affine_transform_poly_coeffs(P, a, x)
        need(np.array_equal(P, P0) and np.array_equal(a, a0) and np.array_equal(x, args[0]), "affine_transform_poly_coeffs modified its input")
        T = np.array([200.0, 0.0, 300.0]); T0 = T.copy()
        sub.Planck(T, 500.0); sub.generate_s_poly_coeffs(np.array([1.0, 2.0]), T, 100, 300)
        need(np.array_equal(T, T0), "thermal helper modified temperatures")
        A = r.random((6, 6)); A0 = A.copy()
        sub.to_diag_ordered_form(A, 2, 1); sub.prepend(x, 5, 1.0); sub.transform_interval(x, 0, 1, 2, 3); sub.transform_weights(x, 0, 1, 2, 3); sub.calculate_nu(x, y, x, y)
        need(np.array_equal(A, A0) and np.array_equal(x, args[0]) and np.array_equal(y, args[1]), "helper modified its input")
    yield "helpers", {}, helpers


# ------------------------------------------------------------------------------------------------------------------ C11
def check_vector(case, r):
    sol = Sol(case)
    S = sol.S
    um = sol.umax()
    T = S["tau"][-1]
    tau = np.concatenate([r.uniform(0, T, 5), [0.0, T], S["tau"][:-1][:4], [0.3 * T, 0.3 * T]])
    tau = r.permutation(tau)
    phi = np.concatenate([r.uniform(0, 2 * pi, 3), [0.0, S["phi0"]]])
    NQ = S["NQ"]
    mu, Fp, Fm, u0, u = sol.out
    for anti in (False, True):
        V = u(tau, phi, anti)
        need(np.shape(V) == (NQ, len(tau), len(phi)), "u has shape %s" % (np.shape(V),))
        V0 = u0(tau, anti)
        need(np.shape(V0) == (NQ, len(tau)), "u0 has shape %s" % (np.shape(V0),))
        P = Fp(tau, anti)
        M = Fm(tau, anti)
        need(len(M) == 2, "downward flux returns %d values" % len(M))
        need(np.shape(P) == tau.shape and np.shape(M[0]) == tau.shape and np.shape(M[1]) == tau.shape, "flux shapes %s %s %s" % (np.shape(P), np.shape(M[0]), np.shape(M[1])))
        sc_ = max(um, np.max(np.abs(V)))
        for k, t in enumerate(tau):
            a, b = Fp(float(t), anti), Fm(float(t), anti)
            need(np.ndim(a) == 0 and np.ndim(b[0]) == 0 and np.ndim(b[1]) == 0, "scalar tau must give scalar fluxes")
            close(a, P[k], 1e-11, "upward flux at scalar tau", scale=sc_)
            close(b[0], M[0][k], 1e-11, "diffuse flux at scalar tau", scale=sc_)
            close(b[1], M[1][k], 1e-11, "direct flux at scalar tau", scale=sc_)
            x = u0(float(t), anti)
            need(np.shape(x) == (NQ,), "u0 at scalar tau has shape %s" % (np.shape(x),))
            close(x, V0[:, k], 1e-11, "u0 at scalar tau", scale=sc_)
            j = k % len(phi)
            x = u(float(t), float(phi[j]), anti)
            need(np.shape(x) == (NQ,), "u at scalar tau, phi has shape %s" % (np.shape(x),))
            close(x, V[:, k, j], 1e-11, "u at scalar tau, phi", scale=sc_)
        close(u(tau, float(phi[0]), anti), V[:, :, 0], 1e-11, "u at scalar phi", scale=sc_)
        close(u(float(tau[0]), phi, anti), V[:, 0, :], 1e-11, "u at scalar tau", scale=sc_)
        p = r.permutation(len(tau))
        close(u(tau[p], phi, anti), V[:, p], 1e-11, "u at permuted tau", scale=sc_)
        close(Fp(tau[p], anti), P[p], 1e-11, "flux at permuted tau", scale=sc_)
        close(u0(tau[p], anti), V0[:, p], 1e-11, "u0 at permuted tau", scale=sc_)
        # options that add outputs do not change the value
        o = u(tau, phi, anti, True, True)
        need(len(o) == 3, "u with both extra outputs returns %d values" % len(o))
        close(o[0], V, 1e-13, "u with extra outputs", scale=sc_)
        need(np.array_equal(o[2], S["tau"]), "u: return_tau_arr")
        need(np.ndim(o[1]) == 0, "Fourier error is not a scalar")
        o = u(tau, phi, anti, return_tau_arr=True)
        need(len(o) == 2 and np.array_equal(o[1], S["tau"]), "u: return_tau_arr alone")
        o = u0(tau, anti, True)
        need(len(o) == 2 and np.array_equal(o[1], S["tau"]), "u0: return_tau_arr")
        close(o[0], V0, 1e-13, "u0 with extra outputs", scale=sc_)
        o = Fp(tau, anti, True)
        need(len(o) == 2 and np.array_equal(o[1], S["tau"]), "Fp: return_tau_arr")
        close(o[0], P, 1e-13, "Fp with extra outputs", scale=sc_)
        o = Fm(tau, anti, True)
        need(len(o) == 3 and np.array_equal(o[2], S["tau"]), "Fm: return_tau_arr")
        close(o[0], M[0], 1e-13, "Fm with extra outputs", scale=sc_)
        close(o[1], M[1], 1e-13, "Fm with extra outputs", scale=sc_)
        for badt in (-1e-6, T * (1 + 1e-9) + 1e-9, np.array([0.1 * T, T + 1.0]), np.array([-0.5, 0.1 * T]), np.array([-1.0, T + 1])):
            for nm, fn in (("Fp", lambda: Fp(badt, anti)), ("Fm", lambda: Fm(badt, anti)), ("u0", lambda: u0(badt, anti)), ("u", lambda: u(badt, phi, anti))):
                raises(ValueError, fn, "%s outside the atmosphere" % nm)
    # the layer of an interface point is the layer above it; values are finite everywhere
    need(np.all(np.isfinite(u(tau, phi))), "non-finite intensity")
    ti = np.array([0, 1]) if T > 1 else np.array([0, 0])
    close(Fp(ti), Fp(ti.astype(float)), 1e-13, "integer tau", scale=um)
    close(u(ti, phi), u(ti.astype(float), phi), 1e-12, "integer tau", scale=um)


def C11(rng, n):
    for i, case in enumerate(gen.cases(rng, n) + gen.cases(rng, max(6, n // 3), NT=True)):
        yield "vector[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_vector(case, r)


# ------------------------------------------------------------------------------------------------------------------ C12
def C12(rng, n):
    def gauss(N, c, d):
        args = (N,) if c is None else (N, c, d)
        x, w = sub.Gauss_Legendre_quad(*args)
        c, d = (0, 1) if c is None else (c, d)
        need(x.shape == (N,) and w.shape == (N,), "shape")
        need(np.all((x > min(c, d)) & (x < max(c, d))), "nodes outside the interval")
        need(np.all(np.diff(x) * np.sign(d - c) > 0), "nodes not monotone")
        h = (d - c) / 2
        m = (c + d) / 2
        for k in range(0, 2 * N):
            close(np.sum(w * ((x - m) / h) ** k), h * (1 + (-1) ** k) / (k + 1), 1e-11, "Gauss-Legendre with %d nodes is not exact for degree %d" % (N, k), scale=abs(h))

    for N in list(range(1, 41)) + [48, 64, 100]:
        yield "gauss01[%d]" % N, dict(N=N), lambda N=N: gauss(N, None, None)
        c = float(rng.uniform(-5, 5))
        d = c + float(rng.uniform(0.1, 6))
        yield "gauss[%d]" % N, dict(N=N, c=c, d=d), lambda N=N, c=c, d=d: gauss(N, c, d)
    yield "gauss-float", {}, lambda: close(sub.Gauss_Legendre_quad(4.0)[0], sub.Gauss_Legendre_quad(4)[0], 1e-15, "float N")
    yield "gauss-reversed", {}, lambda: gauss(5, 2.0, -1.0)

    def cc(N, c, d):
        args = (N,) if c is None else (N, c, d)
        x, w = sub.Clenshaw_Curtis_quad(*args)
        c, d = (0, 2 * pi) if c is None else (c, d)
        need(x.shape == (N,) and w.shape == (N,), "shape")
        h, m = (d - c) / 2, (c + d) / 2
        close(x, m - h * np.cos(pi * np.arange(N) / (N - 1)), 1e-13, "Clenshaw-Curtis nodes", scale=abs(h) + abs(m))
        need(np.all(w > 0), "weights not positive")
        for k in range(N):
            close(np.sum(w * ((x - m) / h) ** k), h * (1 + (-1) ** k) / (k + 1), 1e-11, "Clenshaw-Curtis with %d nodes is not exact for degree %d" % (N, k), scale=abs(h))
    for N in list(range(3, 42, 2)) + [65, 101]:
        yield "cc[%d]" % N, dict(N=N), lambda N=N: cc(N, None, None)
        c = float(rng.uniform(-5, 5))
        d = c + float(rng.uniform(0.1, 6))
        yield "cc-cd[%d]" % N, dict(N=N, c=c, d=d), lambda N=N, c=c, d=d: cc(N, c, d)
    for i in range(n):
        def tr(r=np.random.default_rng(rng.integers(2**31))):
            a, c = r.uniform(-3, 3, 2)
            b, d = a + r.uniform(0.1, 4), c + r.uniform(0.1, 4)
            x = r.uniform(a, b, 7)
            close(sub.transform_interval(np.array([a, b, (a + b) / 2]), c, d, a, b), [c, d, (c + d) / 2], 1e-12, "transform_interval end points", scale=10)
            close(sub.transform_interval(sub.transform_interval(x, c, d, a, b), a, b, c, d), x, 1e-11, "transform_interval inverse", scale=10)
            close(sub.transform_interval(x, c, d, a, b), c + (x - a) / (b - a) * (d - c), 1e-12, "transform_interval affine", scale=10)
            w = r.random(7)
            close(np.sum(sub.transform_weights(w, c, d, a, b)), np.sum(w) * (d - c) / (b - a), 1e-12, "transform_weights", scale=10)
        yield "transform[%d]" % i, {}, tr
    for i in range(min(n, 20)):
        nq = int(rng.choice([2, 4, 8, 16, 32]))

        def mus(nq=nq):
            mu = pydisort(1.0, 0.5, nq, gen.hg(0.3, nq), 0.37, 1.0, 0.0)[0]
            x, w = gl01(nq // 2)
            close(mu, np.concatenate([x, -x]), 1e-13, "computational angles")
        yield "mu_arr[%d]" % i, dict(NQuad=nq), mus


# ------------------------------------------------------------------------------------------------------------------ C13
H, CL, KB = sc.constants.h, sc.constants.c, sc.constants.k


def planck_ref(T, wv):
    T = np.asarray(T, float)
    nu = 100.0 * wv
    with np.errstate(all="ignore"):
        return np.where(T == 0, 0.0, 100.0 * 2 * H * CL**2 * nu**3 / np.expm1(H * CL * nu / (KB * np.where(T == 0, 1, T))))


def C13(rng, n):
    def pl(T, wv):
        got = sub.Planck(T, wv)
        exp = planck_ref(T, wv)
        need(np.shape(got) == np.shape(np.squeeze(exp)), "Planck shape %s" % (np.shape(got),))
        close(got, np.squeeze(exp), 1e-10, "Planck")
        need(np.all(np.asarray(got) >= 0), "Planck negative")
    for i in range(n):
        T = rng.uniform(50, 6000, 4)
        T[int(rng.integers(4))] = 0.0 if i % 3 == 0 else 300.0
        wv = float(10 ** rng.uniform(0, 4.3))
        yield "planck[%d]" % i, dict(T=T, WVNM=wv), lambda T=T, wv=wv: pl(T, wv)
        yield "planck-scalar[%d]" % i, dict(T=float(T[1]), WVNM=wv), lambda T=float(T[1]), wv=wv: pl(T, wv)
    yield "planck-freezing", {}, lambda: pl(np.array([0.9, 0.3, 0.05, 0.0, 2.0]), 0.7)
    yield "planck-freezing-scalar", {}, lambda: pl(0.4, 0.2)
    yield "planck-zero", {}, lambda: pl(np.zeros(3), 500.0)
    yield "planck-zero-scalar", {}, lambda: pl(0.0, 500.0)
    yield "planck-cold", {}, lambda: pl(np.array([1.0, 5.0, 300.0]), 9000.0)

    def bb(T, lo, hi):
        got = sub.blackbody_contrib_to_BCs(T, lo, hi)
        exp = np.array([sc.integrate.quad(lambda v: float(planck_ref(t, v)), lo, hi, limit=200, epsabs=0, epsrel=1e-10)[0] for t in np.atleast_1d(T)])
        close(got, np.squeeze(exp), 1e-6, "blackbody emission")
    for i in range(max(4, n // 6)):
        T = rng.uniform(150, 400, 3)
        lo = float(rng.uniform(50, 800))
        yield "blackbody[%d]" % i, dict(T=T), lambda T=T, lo=lo, hi=lo + float(rng.uniform(10, 900)): bb(T, lo, hi)
        yield "blackbody-scalar[%d]" % i, dict(T=T), lambda T=float(T[0]), lo=lo, hi=lo + 300.0: bb(T, lo, hi)

    def spline(k, r):
        x = np.cumsum(r.uniform(0.05, 2, k))
        y = r.uniform(-3, 3, k)
        c = sub.linear_spline_coefficients(x, y)
        need(c.shape == (k - 1, 2), "spline shape")
        for j in range(k - 1):
            for t in (0.0, 0.37, 1.0):
                close(c[j, 0] + c[j, 1] * (x[j] + t * (x[j + 1] - x[j])), y[j] + t * (y[j + 1] - y[j]), 1e-10, "spline segment %d" % j, scale=50)
        close(sub.linear_spline_coefficients(x, y, False), c, 1e-15, "check_inputs")
    for i in range(n):
        yield "spline[%d]" % i, dict(points=2 + i % 9), lambda k=2 + i % 9, r=np.random.default_rng(rng.integers(2**31)): spline(k, r)

    def spoly(k, r, scalar=False):
        tau = np.cumsum(r.uniform(0.1, 2, k))
        T = r.uniform(180, 320, k + 1)
        if r.random() < 0.3:
            T[int(r.integers(k + 1))] = 0.0
        lo, hi = 300.0, 300.0 + float(r.uniform(50, 600))
        c = sub.generate_s_poly_coeffs(float(tau[0]) if (k == 1 and scalar) else tau, T, lo, hi)
        need(c.shape == (k, 2), "s_poly_coeffs shape %s" % (c.shape,))
        B = np.array([sc.integrate.quad(lambda v: float(planck_ref(t, v)), lo, hi, limit=200)[0] for t in T])
        t0 = np.concatenate([[0.0], tau])
        for j in range(k):
            close(c[j, 0] + c[j, 1] * t0[j], B[j], 1e-6, "source at the top of layer %d" % j, scale=np.max(B))
            close(c[j, 0] + c[j, 1] * t0[j + 1], B[j + 1], 1e-6, "source at the bottom of layer %d" % j, scale=np.max(B))
    for i in range(max(4, n // 3)):
        yield "s_poly[%d]" % i, dict(layers=1 + i % 6), lambda k=1 + i % 6, i=i, r=np.random.default_rng(rng.integers(2**31)): spoly(k, r, i % 2 == 0)

    def affine(k, nl, r):
        C = r.uniform(-2, 2, (nl, k))
        a = r.uniform(0.2, 2, nl) * r.choice([-1, 1], nl)
        b = r.uniform(-2, 2, nl)
        if nl > 1:
            b[0] = 0.0
        D = sub.affine_transform_poly_coeffs(C, a, b)
        need(D.shape == C.shape, "shape")
        x = r.uniform(-1, 1, 5)
        P = np.polynomial.polynomial
        for j in range(nl):
            close(P.polyval(a[j] * x + b[j], D[j]), P.polyval(x, C[j]), 1e-7, "affine transformed polynomial row %d" % j,
                  scale=max(1, np.max(np.abs(D[j])) * (abs(a[j]) + abs(b[j])) ** k))
            close(D[j], compose_affine(C[j], a[j], b[j]), 1e-9, "affine coefficients row %d" % j)
    for i in range(n):
        yield "affine[%d]" % i, dict(ncoef=1 + i % 6), lambda k=1 + i % 6, nl=1 + i % 4, r=np.random.default_rng(rng.integers(2**31)): affine(k, nl, r)

    # thermal-only slab: an isothermal black atmosphere with black surface radiates as a black body
    def iso(k, r):
        tau = np.cumsum(r.uniform(0.5, 2, k))
        om = r.uniform(0, 0.9, k)
        f = r.random() < 0.5
        leg = np.array([gen.hg(r.uniform(0.1, 0.7), 12) for _ in range(k)])
        out = pydisort(tau, om, 8, leg, 0, 0, 0, b_pos=3.0, b_neg=3.0, s_poly_coeffs=np.full((k, 1), 3.0), f_arr=leg[:, 8] if f else 0)
        t = np.linspace(0, tau[-1], 6)
        close(out[1](t), np.full(6, 3 * pi), 1e-7, "isothermal enclosure: upward flux")
        close(out[2](t)[0], np.full(6, 3 * pi), 1e-7, "isothermal enclosure: downward flux")
        close(out[4](t, np.array([0.2, 2.0])), np.full((8, 6, 2), 3.0), 1e-7, "isothermal enclosure: intensity")
    for i in range(max(4, n // 4)):
        yield "isothermal[%d]" % i, dict(layers=1 + i % 5), lambda k=1 + i % 5, r=np.random.default_rng(rng.integers(2**31)): iso(k, r)


# ------------------------------------------------------------------------------------------------------------------ C14
def check_interp(case, r):
    sol = Sol(case)
    S = sol.S
    mu, Fp, Fm, u0, u = sol.out
    N = S["N"]
    um = sol.umax()
    ui, u0i = sub.interpolate(u), sub.interpolate(u0)
    tau = probes(S, r, 3)
    phi = r.uniform(0, 2 * pi, 2)
    tol = 1e-9
    for anti in (False, True):
        V = sol.u(tau, phi, anti)
        V0 = sol.u0(tau, anti)
        sc_ = max(um, np.max(np.abs(V)))
        close(np.reshape(ui(mu, tau, phi, anti), V.shape), V, tol, "interpolation at the nodes", scale=sc_)
        close(np.reshape(u0i(mu, tau, anti), V0.shape), V0, tol, "interpolation of u0 at the nodes", scale=sc_)
        m = np.concatenate([r.uniform(-1, 1, 4), [0.0, 1.0, -1.0]])
        m = r.permutation(m)
        R = np.reshape(ui(m, tau, phi, anti), (len(m), len(tau), len(phi)))
        R0 = np.reshape(u0i(m, tau, anti), (len(m), len(tau)))
        for k, x in enumerate(m):
            nodes = mu[:N] if x > 0 else mu[N:]
            val = V[:N] if x > 0 else V[N:]
            val0 = V0[:N] if x > 0 else V0[N:]
            Lw = np.array([np.prod([(x - nodes[j]) / (nodes[i] - nodes[j]) for j in range(N) if j != i]) for i in range(N)])
            close(R[k], np.einsum("i,itp->tp", Lw, val), 1e-7, "interpolated intensity at mu=%g" % x, scale=sc_ * np.sum(np.abs(Lw)))
            close(R0[k], Lw @ val0, 1e-7, "interpolated u0 at mu=%g" % x, scale=sc_ * np.sum(np.abs(Lw)))
        sc1 = ui(float(m[0]), float(tau[2]), float(phi[0]), anti)
        need(np.ndim(sc1) == 0, "scalar interpolation returns an array")
        close(sc1, R[0, 2, 0], 1e-9, "scalar interpolation", scale=sc_ * 100)
        sc1 = u0i(float(m[0]), float(tau[2]), anti)
        need(np.ndim(sc1) == 0, "scalar interpolation of u0 returns an array")
        close(sc1, R0[0, 2], 1e-9, "scalar interpolation of u0", scale=sc_ * 100)
        need(np.shape(ui(m, float(tau[0]), phi, anti)) == (len(m), len(phi)) and np.shape(ui(m, tau, float(phi[0]), anti)) == (len(m), len(tau)), "interpolation shapes")
        o = ui(m, tau, phi, anti, True, True)
        e = u(tau, phi, anti, True, True)
        need(len(o) == 3 and np.array_equal(o[2], S["tau"]), "interpolation: extra outputs")
        close(np.reshape(o[0], R.shape), R, 1e-12, "interpolation with extra outputs", scale=sc_ * 100)
        close(o[1], e[1], 1e-9, "interpolation: Fourier error", scale=max(1.0, float(e[1])))
        o = ui(m, tau, phi, anti, return_tau_arr=True)
        need(len(o) == 2 and np.array_equal(o[1], S["tau"]), "interpolation: return_tau_arr")
        o = u0i(m, tau, anti, return_tau_arr=True)
        need(isinstance(o, tuple) and len(o) == 2 and np.array_equal(o[1], S["tau"]), "interpolation of u0: return_tau_arr")
        close(np.reshape(o[0], R0.shape), R0, 1e-12, "interpolation of u0 with extra outputs", scale=sc_ * 100)


def C14(rng, n):
    for i in range(n):
        case = gen.build(rng, NQuad=[2, 4, 6, 8, 12][i % 5])
        yield "interp[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_interp(case, r)
    for i in range(max(3, n // 5)):
        case = gen.build(rng, NQuad=[4, 6, 8][i % 3], NT=True, beam=1, f=1)
        yield "interp-NT[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_interp(case, r)


# ------------------------------------------------------------------------------------------------------------------ C15
def check_bdrf(case, r):
    modes = strip(case)["BDRF_Fourier_modes"]
    N = case["NQuad"] // 2
    base = dict(case)
    base.pop("_bdrf", None)
    a = Sol(base)
    tau = probes(a.S, r, 3)
    phi = r.uniform(0, 2 * pi, 2)
    um = a.umax()
    A = all_outputs(a, tau, phi)
    as_func = [(lambda mu, mp, v=v: np.full((len(mu), len(mp)), v)) if np.isscalar(v) else v for v in modes]
    same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=as_func)), tau, phi), 1e-10, "constant modes given as functions", scale=um)
    same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=sub.cache_BDRF_Fourier_modes(N, modes))), tau, phi), 1e-10, "cached modes", scale=um)
    same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=sub.cache_BDRF_Fourier_modes(N, as_func))), tau, phi), 1e-10, "cached function modes", scale=um)
    if case["I0"] > 0:
        same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=sub.cache_BDRF_Fourier_modes(N, modes, case["mu0"]))), tau, phi), 1e-10, "modes cached with mu0", scale=um)
    k = a.S["NF"]
    same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=list(modes)[:k])), tau, phi), 1e-12, "modes beyond NFourier are irrelevant", scale=um)
    same(A, all_outputs(Sol(dict(base, BDRF_Fourier_modes=list(modes) + [0.0, 0.0])), tau, phi), 1e-10, "appending zero modes", scale=um)
    check_bc(base)


def C15(rng, n):
    for i in range(n):
        case = gen.build(rng, bdrf=["scalar", "scalars", "func", "mixed"][i % 4], NQuad=[2, 4, 8, 6][(i // 2) % 4], beam=[1, 1, 0][i % 3])
        yield "bdrf[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_bdrf(case, r)

    def cachefun(N, r):
        fs = [gen.PolyBDRF(*r.uniform(0.1, 0.3, 3)), 0.2, gen.PolyBDRF(*r.uniform(0.1, 0.3, 3))]
        mu, w = gl01(N)
        mu0 = float(r.uniform(0.05, 1))
        for c, useb in ((sub.cache_BDRF_Fourier_modes(N, fs), False), (sub.cache_BDRF_Fourier_modes(N, fs, mu0), True)):
            need(len(c) == 3, "number of cached modes")
            for m in (0, 1, 2):
                for mp in (mu, np.array([mu0])):
                    got = c[m] if np.isscalar(c[m]) else c[m](mu, mp)
                    close(np.broadcast_to(got, (N, len(mp))), bdrf_eval(fs[m], mu, mp), 1e-13, "cached mode %d (N=%d, mu0 cached: %s)" % (m, N, useb))
    for N in (1, 2, 3, 4, 7):
        yield "cache[%d]" % N, dict(N=N), lambda N=N, r=np.random.default_rng(rng.integers(2**31)): cachefun(N, r)

    def emis(N, r):
        f = gen.PolyBDRF(*r.uniform(0.05, 0.3, 3))
        mu, w = gl01(N)
        close(sub.generate_emissivity_from_BDRF(N, f), 1 - 2 * np.sum(f(mu, mu) * (mu * w)[None, :], axis=1), 1e-12, "emissivity")
        g = lambda a, b: np.asarray(a)[:, None] * 0.5 + 0 * np.asarray(b)[None, :]
        close(sub.generate_emissivity_from_BDRF(N, g), 1 - 0.5 * mu, 1e-12, "emissivity of an asymmetric BDRF")
        v = float(r.random())
        close(sub.generate_emissivity_from_BDRF(N, v), 1 - v, 1e-15, "emissivity of a constant")
        if N > 1:
            close(np.broadcast_to(sub.generate_emissivity_from_BDRF(N, lambda a, b: np.full((len(a), len(b)), v)), (N,)), np.full(N, 1 - v), 1e-12, "emissivity of a constant function")
    for N in (1, 2, 4, 8, 16):
        yield "emissivity[%d]" % N, dict(N=N), lambda N=N, r=np.random.default_rng(rng.integers(2**31)): emis(N, r)


# ------------------------------------------------------------------------------------------------------------------ C16
def check_actinic(case, r):
    sol = Sol(case)
    S = sol.S
    mu, w = gl01(S["N"])
    N = S["N"]
    tau = probes(S, r, 5)
    um = sol.umax()
    up, dn = sub.generate_diff_act_flux_funcs(sol.u0f)
    u0 = sol.u0(tau)
    st, _ = sol.stau(tau)
    ex = S["I0"] * (np.exp(-st / S["mu0"]) - np.exp(-tau / S["mu0"])) if S["I0"] > 0 else np.zeros(len(tau))
    close(np.reshape(up(tau), -1), 2 * pi * w @ u0[:N], 1e-10, "upward actinic flux", scale=um)
    close(np.reshape(dn(tau), -1), 2 * pi * w @ u0[N:] + ex, 1e-10, "downward diffuse actinic flux", scale=um)
    for fn in (up, dn):
        for anti in (False, True):
            v = fn(tau, anti)
            need(np.shape(v) == tau.shape, "actinic flux shape %s" % (np.shape(v),))
            o = fn(tau, anti, True)
            need(len(o) == 2 and np.array_equal(o[1], S["tau"]), "actinic flux return_tau_arr")
            close(o[0], v, 1e-13, "actinic flux with return_tau_arr", scale=um)
            s = fn(float(tau[2]), anti)
            need(np.ndim(s) == 0, "scalar actinic flux")
            close(s, v[2], 1e-10, "scalar actinic flux", scale=max(um, np.max(np.abs(v))))
    if S["I0"] > 0:
        tot = dn(tau) + up(tau) + S["I0"] * np.exp(-tau / S["mu0"])
        b = Sol(dict(case, I0=case["I0"] * 2.0, **{k: case[k] * 2.0 for k in ("b_pos", "b_neg", "s_poly_coeffs") if k in case}))
        up2, dn2 = sub.generate_diff_act_flux_funcs(b.u0f)
        close(dn2(tau) + up2(tau) + 2 * S["I0"] * np.exp(-tau / S["mu0"]), 2 * tot, 1e-9, "actinic flux is linear in the sources")


def C16(rng, n):
    for i, case in enumerate(gen.cases(rng, n)):
        yield "actinic[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_actinic(case, r)
    for i in range(4):
        case = gen.build(rng, f=1 + i % 3, NLayers=1 + i, beam=i % 2, iso=[2, 0, 1, 3][i])
        yield "actinic-f[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_actinic(case, r)


# ------------------------------------------------------------------------------------------------------------------ C17
def C17(rng, n):
    def dof(nn, a, b, r):
        A = np.zeros((nn, nn))
        for i in range(nn):
            for j in range(nn):
                if -b <= j - i <= a:
                    A[i, j] = r.uniform(0.5, 2) * r.choice([-1, 1]) + (6 if i == j else 0)
        D = sub.to_diag_ordered_form(A, a, b)
        need(D.shape == (a + b + 1, nn), "diag ordered form shape %s" % (D.shape,))
        for i in range(nn):
            for j in range(nn):
                if -b <= j - i <= a:
                    need(D[a + i - j, j] == A[i, j], "entry (%d, %d) of the diagonal ordered form" % (i, j))
        rhs = r.random(nn)
        close(sc.linalg.solve_banded((b, a), D, rhs), np.linalg.solve(A, rhs), 1e-9, "solve_banded on the diagonal ordered form")
    for i in range(n):
        nn = int(rng.integers(2, 12))
        a, b = int(rng.integers(0, nn)), int(rng.integers(0, nn))
        yield "dof[%d]" % i, dict(n=nn, sup=a, sub=b), lambda nn=nn, a=a, b=b, r=np.random.default_rng(rng.integers(2**31)): dof(nn, a, b, r)

    def fd(nn, a, b):
        t, M = sub.generate_FD_mat(nn, a, b)
        close(t, np.linspace(a, b, nn), 1e-13, "FD grid", scale=10)
        M = M.toarray()
        need(M.shape == (nn, nn), "FD shape")
        h = (b - a) / (nn - 1)
        for k, dk in ((np.ones(nn), np.zeros(nn)), (t, np.ones(nn)), (t**2, 2 * t)):
            close(M @ k, dk, 1e-8, "finite differences are not exact on quadratics", scale=max(1, abs(a) + abs(b)) ** 2 / h)
        for i in range(nn):
            nz = np.nonzero(M[i])[0]
            lo, hi = (0, 2) if i == 0 else ((nn - 3, nn - 1) if i == nn - 1 else (i - 1, i + 1))
            need(np.all((nz >= lo) & (nz <= hi)), "finite difference stencil of row %d uses %s" % (i, nz))
    for nn in (3, 4, 5, 8, 21):
        yield "fd[%d]" % nn, dict(Ntau=nn), lambda nn=nn, a=float(rng.uniform(-2, 1)), b=float(rng.uniform(1.5, 5)): fd(nn, a, b)

    def prep(k, r):
        x = r.random(k)
        v = float(r.random())
        y = sub.prepend(x, k, v)
        need(y.shape == (k + 1,) and y[0] == v and np.array_equal(y[1:], x), "prepend")
        need(y is not x and not np.shares_memory(x, y), "prepend aliases its input")
    for k in (0, 1, 2, 7):
        yield "prepend[%d]" % k, dict(k=k), lambda k=k, r=np.random.default_rng(rng.integers(2**31)): prep(k, r)

    def al2(r):
        s = float(r.random())
        v, M, T = r.random(3), r.random((2, 3)), r.random((2, 3, 2))
        need(sub.atleast_2d_append(s).shape == (1, 1) and sub.atleast_2d_append(s)[0, 0] == s, "atleast_2d_append scalar")
        need(sub.atleast_2d_append(v).shape == (3, 1) and np.array_equal(sub.atleast_2d_append(v)[:, 0], v), "atleast_2d_append vector")
        need(np.array_equal(sub.atleast_2d_append(M), M) and np.array_equal(sub.atleast_2d_append(T), T), "atleast_2d_append matrix")
        o = sub.atleast_2d_append(s, v, M)
        need(len(o) == 3 and o[0].shape == (1, 1) and o[1].shape == (3, 1) and np.array_equal(o[2], M), "atleast_2d_append several")
        for sh in ((1, 1), (1, 1, 1), (1, 1, 1, 1), (1, 2, 1), (2, 1, 1), (1,), (0,), (0, 3)):
            z = r.random(sh)
            g = sub.atleast_2d_append(z)
            need(g.shape == (sh if len(sh) > 1 else sh + (1,)) and np.array_equal(g.ravel(), z.ravel()), "atleast_2d_append shape %s" % (sh,))
        need(np.array_equal(sub.atleast_2d_append([1, 2, 3]), np.array([[1], [2], [3]])), "atleast_2d_append list")
    yield "atleast_2d_append", {}, lambda r=np.random.default_rng(rng.integers(2**31)): al2(r)


# ------------------------------------------------------------------------------------------------------------------ C18
def C18(rng, n):
    def geo(sh, r):
        mu, mp = r.uniform(-1, 1, sh[0]), r.uniform(-1, 1, sh[2])
        if sh[0] > 1:
            mu[0], mp[-1] = 1.0, -1.0
        ph, pp = r.uniform(0, 2 * pi, sh[1]), r.uniform(0, 2 * pi, sh[3])
        v = lambda m, p: np.array([np.sqrt(1 - m * m) * np.cos(p), np.sqrt(1 - m * m) * np.sin(p), m])
        E = np.array([[[[v(a, b) @ v(c, d) for d in pp] for c in mp] for b in ph] for a in mu])
        got = sub.calculate_nu(mu, ph, mp, pp)
        need(np.shape(got) == np.shape(np.squeeze(E)), "shape %s" % (np.shape(got),))
        close(got, np.squeeze(E), 1e-12, "scattering angle cosine", scale=1.0)
        need(np.all(np.abs(got) <= 1 + 1e-12), "|nu| > 1")
    shapes = [(1, 1, 1, 1), (3, 1, 1, 1), (1, 3, 1, 1), (1, 1, 3, 1), (1, 1, 1, 3), (2, 3, 1, 1), (2, 3, 4, 5), (3, 3, 3, 3), (1, 2, 1, 2), (4, 1, 2, 1)]
    for i in range(max(n, 20)):
        sh = shapes[i % len(shapes)]
        yield "geometry[%d]" % i, dict(shape=sh), lambda sh=sh, r=np.random.default_rng(rng.integers(2**31)): geo(sh, r)

    def sc_(r):
        a, b, c, d = r.uniform(-1, 1), r.uniform(0, 6), r.uniform(-1, 1), r.uniform(0, 6)
        close(sub.calculate_nu(a, b, c, d), a * c + np.sqrt(1 - a * a) * np.sqrt(1 - c * c) * np.cos(b - d), 1e-13, "scalar", scale=1)
        close(sub.calculate_nu(a, b, a, b), 1.0, 1e-12, "forward direction")
        close(sub.calculate_nu(a, b, -a, b + pi), -1.0, 1e-12, "backward direction")
        close(sub.calculate_nu(a, b, c, d), sub.calculate_nu(c, d, a, b), 1e-13, "reciprocity", scale=1)
    for i in range(max(8, n // 3)):
        yield "scalar[%d]" % i, {}, lambda r=np.random.default_rng(rng.integers(2**31)): sc_(r)


# ------------------------------------------------------------------------------------------------------------------ C19
def check_fourier(case, r):
    sol = Sol(case)
    S = sol.S
    NF = S["NF"]
    c0 = dict(case)
    c0.pop("NT_cor", None)
    plain = Sol(c0)
    um = sol.umax()
    for anti in (False, True):
        for rep in range(2):
            tau = probes(S, r, 2) if rep else np.array([float(r.uniform(0, S["tau"][-1]))])
            phi = r.uniform(0, 2 * pi, 2) if rep else S["phi0"] + np.array([float(r.uniform(-1, 1))])
            M = plain.modes(tau, anti)
            U = plain.u(tau, phi, anti)
            last = np.abs(M[-1][:, :, None] * np.cos((NF - 1) * (S["phi0"] - phi))[None, None, :])
            if np.min(np.abs(U)) < 1e-5 * um:
                continue
            e = np.max(last / np.abs(U))
            got = sol.uf(tau, phi, anti, True)
            need(len(got) == 2 and np.ndim(got[1]) == 0, "Fourier error output")
            noise = np.max(np.max(np.abs(M)) / np.abs(U)) * 1e-9
            need(abs(got[1] - e) <= 1e-7 * e + noise, "Fourier convergence error %.8e, expected %.8e (antiderivative: %s)" % (got[1], e, anti))


def C19(rng, n):
    for i, case in enumerate(gen.cases(rng, n) + gen.cases(rng, max(3, n // 5), NT=True)):
        yield "fourier[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_fourier(case, r)
    for i in range(6):
        case = gen.build(rng, NF=1 + i % 3, iso=[0, 1, 2][i % 3], NLayers=1 + i % 4, beam=i % 2)
        yield "fourier-few[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_fourier(case, r)


# ------------------------------------------------------------------------------------------------------------------ C20
def check_energy(case, r):
    sol = Sol(case)
    S = sol.S
    mu, w = gl01(S["N"])
    N = S["N"]
    km = kmax(case)
    gx, gw = np.polynomial.legendre.leggauss(16)
    um = sol.umax()
    net = lambda t: sol.Fp(t) - sol.Fm(t)[0] - sol.Fm(t)[1]
    for l in range(S["L"]):
        t0, t1 = S["tau0"][l], S["tau0"][l + 1]
        h = min(t1 - t0, 3.0 / km)
        a0 = t0 + (t1 - t0 - h) * r.random()
        a, b = max(np.nextafter(t0, np.inf), a0), min(t1, a0 + h)
        tq = (a + b) / 2 + (b - a) / 2 * gx
        u0 = sol.u0(tq)
        st = S["stau0"][l] + (tq - S["tau0"][l]) * S["scale"][l]
        act = 2 * pi * (w @ u0[:N] + w @ u0[N:])
        if S["I0"] > 0:
            act = act + S["I0"] * np.exp(-st / S["mu0"])
        div = (1 - S["om"][l]) * act - 4 * pi * (1 - S["om"][l]) * source_s(case, S, tq, l)
        integ = np.sum(div * gw) * (b - a) / 2
        e = np.array([a, b])
        v = net(e)
        need(abs((v[1] - v[0]) - integ) / (b - a) <= 1e-7 * um * km + 1e-12 * um / (b - a),
             "energy budget violated in layer %d: %.3e" % (l, abs((v[1] - v[0]) - integ) / (b - a)))
        # the same budget through the public actinic fluxes
        up, dn = sub.generate_diff_act_flux_funcs(sol.u0f)
        A = up(tq) + dn(tq) + (S["I0"] * np.exp(-tq / S["mu0"]) if S["I0"] > 0 else 0)
        close(A, act, 1e-9, "actinic flux in the energy budget", scale=um)


def check_conserv(r):
    nl = int(r.integers(1, 5))
    tau = np.cumsum(r.uniform(0.2, 1.5, nl))
    leg = np.array([gen.hg(r.uniform(0.2, 0.7), 8) for _ in range(nl)])
    om = np.full(nl, 1 - 1e-9)
    mu0 = float(r.uniform(0.3, 1))
    out = pydisort(tau, om, 8, leg, mu0, 1.0, 0.0, only_flux=True, BDRF_Fourier_modes=[float(r.uniform(0, 0.8))])
    t = np.linspace(0, tau[-1], 7)
    net = out[1](t) - out[2](t)[0] - out[2](t)[1]
    close(net, np.full(7, net[0]), 1e-4, "net flux is not constant in a conservative atmosphere", scale=1.0)
    need(net[0] <= 1e-6, "net flux points upwards without internal sources")


def C20(rng, n):
    for i, case in enumerate(gen.cases(rng, n)):
        yield "energy[%d]" % i, case, lambda case=case, r=np.random.default_rng(rng.integers(2**31)): check_energy(case, r)
    for i in range(max(5, n // 6)):
        yield "conservative[%d]" % i, {}, lambda r=np.random.default_rng(rng.integers(2**31)): check_conserv(r)


ALL = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
