"""Deterministic + seeded generator of pydisort problems (valid inputs) for the run-time contract harness.

A case is a plain dict of keyword arguments of `pydisort` plus, under "_", a description.  Every random choice comes from the
numpy Generator that is passed in (seeded from VERIF_SEED).  Cases that are ill-conditioned for *any* implementation of the
documented method (beam resonance 1/mu0 == eigenvalue, eigenvalues that are not real and positive) are rejected, using an
independent eigenvalue computation: see `well_conditioned`.
"""
import numpy as np
import scipy as sc
from math import pi

QUADS = {}


def gl01(N):
    """Independent Gauss-Legendre rule on [0, 1]."""
    if N not in QUADS:
        x, w = np.polynomial.legendre.leggauss(N)
        QUADS[N] = ((x + 1) / 2, w / 2)
    return QUADS[N]


def norm_leg(m, nleg, mu):
    """Lambda_l^m(mu) = sqrt((l-m)!/(l+m)!) P_l^m(mu) for l = m..nleg-1 by a three-term recurrence written here independently;
    returns (nleg - m, len(mu)).  (Condon-Shortley sign irrelevant: only products of equal m are used.)"""
    mu = np.atleast_1d(np.asarray(mu, float))
    out = np.zeros((nleg, len(mu)))
    if m >= nleg:
        return out[m:]
    s = np.sqrt(np.maximum(0.0, 1 - mu * mu))
    p = np.ones_like(mu)
    for k in range(1, m + 1):
        p = p * s * np.sqrt((2 * k - 1) / (2 * k))
    out[m] = p
    if m + 1 < nleg:
        out[m + 1] = mu * np.sqrt(2 * m + 1) * p
    for l in range(m + 2, nleg):
        out[l] = ((2 * l - 1) * mu * out[l - 1] - np.sqrt((l - 1) ** 2 - m * m) * out[l - 2]) / np.sqrt(l * l - m * m)
    return out[m:]


def hg(g, n):
    return float(g) ** np.arange(n)


def phase(kind, rng, n):
    if kind == "iso":
        r = np.zeros(n)
        r[0] = 1
        return r
    if kind == "rayleigh":
        r = np.zeros(n)
        r[0] = 1
        if n > 2:
            r[2] = 0.1
        return r
    if kind == "hg":
        return hg(rng.uniform(0.1, 0.85), n)
    if kind == "hgneg":
        return hg(-rng.uniform(0.05, 0.3), n)
    if kind == "dhg":
        a = rng.uniform(0.6, 0.95)
        return a * hg(rng.uniform(0.4, 0.85), n) + (1 - a) * hg(-rng.uniform(0.1, 0.4), n)
    raise KeyError(kind)


class PolyBDRF:
    """Smooth symmetric BDRF Fourier mode  R(mu, mu') = a + b mu mu' + c (mu + mu') ; a plain callable."""

    def __init__(self, a, b, c):
        self.abc = (a, b, c)

    def __call__(self, mu, neg_mup):
        a, b, c = self.abc
        mu = np.asarray(mu)[:, None]
        mp = np.asarray(neg_mup)[None, :]
        return a + b * mu * mp + c * (mu + mp)

    def __repr__(self):
        return "PolyBDRF%r" % (self.abc,)


def scaled(case):
    """Independent delta-M scaling of a case (documented formulas): dict of scaled quantities."""
    tau = np.atleast_1d(np.asarray(case["tau_arr"], float))
    om = np.atleast_1d(np.asarray(case["omega_arr"], float))
    f = np.atleast_1d(np.asarray(case.get("f_arr", 0), float))
    L = len(tau)
    f = np.full(L, f[0]) if len(f) == 1 else f
    NQ = case["NQuad"]
    NLeg = case.get("NLeg") or NQ
    leg = np.atleast_2d(np.asarray(case["Leg_coeffs_all"], float)).copy()
    leg[:, 0] = 1
    leg = leg[:, :NLeg]
    sc_t = 1 - om * f
    thick = np.diff(np.concatenate([[0.0], tau]))
    stau = np.concatenate([[0.0], np.cumsum(sc_t * thick)])
    g = (leg - f[:, None]) / (1 - f)[:, None]
    som = om * (1 - f) / sc_t
    NF = 1 if case.get("only_flux") else (case.get("NFourier") or NQ)
    return dict(tau=tau, tau0=np.concatenate([[0.0], tau]), om=om, f=f, L=L, NQ=NQ, N=NQ // 2, NLeg=NLeg, scale=sc_t, thick=thick,
                stau0=stau, g=g, som=som, NF=NF, mu0=case["mu0"], I0=case["I0"], phi0=case["phi0"])


def eigs(case):
    """Eigenvalues of the scaled discrete-ordinate operator, per (mode, layer); independent computation."""
    S = scaled(case)
    mu, w = gl01(S["N"])
    mus = np.concatenate([mu, -mu])
    ws = np.concatenate([w, w])
    out = []
    for m in range(S["NF"]):
        Lam = norm_leg(m, S["NLeg"], mus)
        for l in range(S["L"]):
            c = S["som"][l] / 2 * (2 * np.arange(m, S["NLeg"]) + 1) * S["g"][l, m:]
            D = (Lam * c[:, None]).T @ Lam
            A = (np.eye(S["NQ"]) - D * ws[None, :]) / mus[:, None]
            out.append(np.linalg.eigvals(A))
    return np.array(out)


def well_conditioned(case):
    S = scaled(case)
    ev = eigs(case)
    if np.max(np.abs(ev.imag)) > 1e-9 * np.max(np.abs(ev)):
        return False
    ev = ev.real
    if np.min(np.abs(ev)) < 1e-3:
        return False
    if S["I0"] > 0:
        if np.min(np.abs(np.abs(ev) * S["mu0"] - 1)) < 2e-3:
            return False
        if case.get("NT_cor"):
            mu, _ = gl01(S["N"])
            if np.min(np.abs(mu - S["mu0"])) < 1e-2:
                return False
            s1 = np.sum(S["om"] * S["tau"])
            s2 = np.sum(S["f"] * S["om"] * S["tau"])
            if s1 > 0:
                smu0 = S["mu0"] / (1 - s2 / np.sum(S["tau"]))
                if np.min(np.abs(1 / mu - 1 / smu0)) < 5e-2:
                    return False
    return True


PHASES = ["hg", "iso", "rayleigh", "dhg", "hg", "hgneg"]


def build(rng, NQuad=None, NLayers=None, beam=None, iso=None, f=None, bdrf=None, bpos=None, bneg=None, NLegless=None,
          NT=False, thin=False, NF=None, zero_layer=None, mu0=None, thick=None):
    """Draw one case; every keyword pins one dimension, None means random."""
    pick = lambda *a: a[rng.integers(len(a))]
    for _ in range(200):
        nq = NQuad or pick(2, 4, 4, 6, 8, 8, 12, 16)
        nl = NLayers or pick(1, 1, 2, 3, 3, 4, 5, 6)
        N = nq // 2
        hi = thick or (0.4 if thin else 4.0)
        th = np.exp(rng.uniform(np.log(0.02), np.log(hi), nl))
        tau = np.cumsum(th)
        om = rng.uniform(0.05, 0.97, nl)
        zl = pick(0, 0, 0, 1) if zero_layer is None else zero_layer
        if zl:
            om[rng.integers(nl)] = 0.0
            if nl > 3 and zl > 1:
                om[rng.choice(nl, 2, replace=False)] = 0.0
        less = pick(0, 0, 1) if NLegless is None else NLegless
        nleg = max(1, nq - pick(1, 2, 3)) if less and nq > 2 else (1 if less else nq)
        nall = nleg + pick(0, 1, 5, 12)
        use_f = pick(0, 0, 1, 2, 3) if f is None else f
        if use_f or NT:
            nall = max(nall, nleg + pick(3, 8, 20))
        legs = np.array([phase(pick(*PHASES), rng, nall) for _ in range(nl)])
        fa = 0
        if use_f:
            fa = np.maximum(legs[:, nleg], 0.0) if nall > nleg else np.zeros(nl)
            if use_f == 1 and not np.any(fa > 0):
                legs[0] = hg(0.7, nall)
                fa = np.maximum(legs[:, nleg], 0.0)
            if use_f == 2:
                fa = fa * rng.uniform(0.2, 1.0, nl)
            if use_f == 3:
                legs[nl - 1] = hg(0.6 + 0.25 * rng.random(), nall)
                fa = np.zeros(nl)
                fa[nl - 1] = legs[nl - 1, nleg]
        kw = dict(tau_arr=tau if (nl > 1 or rng.random() < 0.5) else float(tau[0]),
                  omega_arr=om if (nl > 1 or rng.random() < 0.5) else float(om[0]), NQuad=nq, Leg_coeffs_all=legs)
        b = (pick(1, 1, 1, 0) if beam is None else beam)
        kw["I0"] = float(pick(1.0, pi, 0.3 + rng.random())) if b else 0
        kw["mu0"] = (mu0 if mu0 is not None else float(pick(rng.uniform(0.1, 1), rng.uniform(0.1, 1), 1.0))) if b else pick(0, 0.43)
        kw["phi0"] = float(pick(0.0, rng.uniform(0, 2 * pi), pi))
        nf = NF or pick(None, 1, 2, 3, nleg)
        if nf is None and nleg < nq:
            nf = nleg
        nf = None if nf is None else int(min(nf, nleg))
        if nleg != nq:
            kw["NLeg"] = int(nleg)
        if nf is not None:
            kw["NFourier"] = nf
        nfr = nf or nq
        if use_f:
            kw["f_arr"] = fa
        if NT:
            kw["NT_cor"] = True
        for nm, sel in (("b_pos", bpos), ("b_neg", bneg)):
            k = pick("none", "scalar", "vec", "2d") if sel is None else sel
            if k == "scalar":
                kw[nm] = float(rng.uniform(0.1, 1.5))
            elif k == "vec":
                kw[nm] = rng.uniform(0.1, 1.5, N)
            elif k == "2d":
                kw[nm] = rng.uniform(0.1, 1.5, (N, nfr)) * 0.4 ** np.arange(nfr)[None, :]
        k = pick("none", "scalar", "scalars", "func", "mixed", "cached", "cachedmu0") if bdrf is None else bdrf
        if k != "none":
            nb = 1 if k == "scalar" else pick(1, 2, nfr, nfr + 2)
            modes = []
            for m in range(nb):
                amp = 0.25 * 0.5 ** m
                if k in ("scalar", "scalars") or (k in ("mixed", "cached", "cachedmu0") and m % 2 == 1):
                    modes.append(float(amp * rng.uniform(0.3, 1)))
                else:
                    modes.append(PolyBDRF(*(amp * rng.uniform(0.1, 0.8, 3))))
            kw["BDRF_Fourier_modes"] = modes
            kw["_bdrf"] = k
        i = pick(0, 0, 1, 2, 3, 5) if iso is None else iso
        if i:
            s = rng.uniform(0.1, 1.2, (nl, i)) / np.maximum(1.0, tau[:, None]) ** np.arange(i)[None, :]
            if nl > 2 and rng.random() < 0.3:
                s[rng.integers(nl)] = 0.0
            kw["s_poly_coeffs"] = s
        if well_conditioned(strip(kw)):
            kw["_"] = "NQ=%d L=%d NLeg=%d/%d NF=%s I0=%.3g mu0=%.4g f=%s iso=%d bdrf=%s b=%s/%s NT=%s" % (
                nq, nl, nleg, nall, nf, kw["I0"], kw["mu0"], use_f, i, k, np.shape(kw.get("b_pos", 0)), np.shape(kw.get("b_neg", 0)), NT)
            return kw
    raise RuntimeError("no well conditioned case found for %r" % ((NQuad, NLayers, beam, iso, f, bdrf, NT),))


def strip(case):
    return {k: v for k, v in case.items() if not k.startswith("_")}


def corner_cases(rng, NT=False, only=None):
    """Fixed grid of structural corners; the numbers in them are drawn from rng."""
    spec = [
        dict(NQuad=2, NLayers=1, beam=1, iso=0, f=0, bdrf="none"),
        dict(NQuad=2, NLayers=3, beam=1, iso=2, f=0, bdrf="scalar"),
        dict(NQuad=2, NLayers=2, beam=1, iso=0, f=0, bdrf="cachedmu0"),
        dict(NQuad=4, NLayers=1, beam=1, iso=1, f=1, bdrf="none", bpos="scalar", bneg="scalar"),
        dict(NQuad=4, NLayers=2, beam=1, iso=0, f=1, bdrf="func", bpos="2d", bneg="2d", NF=4, NLegless=0),
        dict(NQuad=8, NLayers=1, beam=1, iso=0, f=0, bdrf="none", bpos="none", bneg="none"),
        dict(NQuad=8, NLayers=4, beam=1, iso=1, f=2, bdrf="mixed", bpos="vec", bneg="2d", zero_layer=1),
        dict(NQuad=8, NLayers=4, beam=1, iso=2, f=3, bdrf="cached", bpos="none", bneg="vec", zero_layer=2),
        dict(NQuad=6, NLayers=5, beam=0, iso=2, f=1, bdrf="scalar", bpos="scalar", bneg="none"),
        dict(NQuad=6, NLayers=3, beam=0, iso=3, f=0, bdrf="func", bpos="none", bneg="none"),
        dict(NQuad=6, NLayers=3, beam=0, iso=1, f=3, bdrf="none", bpos="none", bneg="none", NF=1),
        dict(NQuad=4, NLayers=4, beam=0, iso=0, f=2, bdrf="cached", bpos="vec", bneg="scalar"),
        dict(NQuad=4, NLayers=12, beam=1, iso=3, f=2, bdrf="scalars", thin=True),
        dict(NQuad=4, NLayers=10, beam=1, iso=0, f=0, bdrf="none", thin=True),
        dict(NQuad=6, NLayers=11, beam=0, iso=1, f=1, bdrf="mixed", thin=True),
        dict(NQuad=12, NLayers=3, beam=1, iso=4, f=1, bdrf="func", NLegless=1),
        dict(NQuad=16, NLayers=2, beam=1, iso=0, f=1, bdrf="scalar", NLegless=0, NF=None),
        dict(NQuad=16, NLayers=6, beam=1, iso=2, f=2, bdrf="mixed", NF=3),
        dict(NQuad=8, NLayers=3, beam=1, iso=0, f=0, bdrf="cachedmu0", mu0=1.0),
        dict(NQuad=8, NLayers=3, beam=1, iso=5, f=2, bdrf="none", zero_layer=1),
        dict(NQuad=4, NLayers=6, beam=1, iso=2, f=3, bdrf="func", thick=12.0),
    ]
    if NT:
        spec = [dict(s, NT=True, beam=1, f=s.get("f") or 1, mu0=None) for s in spec]
    out = []
    for s in spec:
        if only is not None and not only(s):
            continue
        out.append(build(rng, **s))
    return out


def cases(rng, n, NT=False, only=None, **pin):
    """The corner cases (first) then random ones until n."""
    cs = corner_cases(rng, NT=NT, only=only)
    rng2 = np.random.default_rng(rng.integers(2**31))
    while len(cs) < n:
        p = dict(pin)
        if NT:
            p.update(NT=True, beam=1, f=int(rng2.integers(1, 4)))
        if rng2.random() < 0.15:
            p.setdefault("NLayers", int(rng2.integers(9, 14)))
            p.setdefault("thin", True)
            p.setdefault("NQuad", int(rng2.choice([2, 4, 6])))
        cs.append(build(rng2, **p))
    return cs[:n]
