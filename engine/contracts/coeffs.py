"""_solve_for_coeffs: the returned GC is G diag(C) where C satisfies the boundary and continuity equations of every Fourier mode."""
from . import contract, product
from .assemble import mathscr_stub, mv

PAR = ("NFourier G_collect K_collect B_collect G_inv_mu_inv scaled_tau_arr_with_0 mu_arr_pos mu_arr_pos_times_W N NQuad NLayers NBDRF "
       "is_atmos_multilayered BDRF_Fourier_modes mu0 I0_div_4pi there_is_beam_source b_pos b_neg b_pos_is_scalar b_neg_is_scalar "
       "b_pos_is_vector b_neg_is_vector Nscoeffs scaled_s_poly_coeffs there_is_iso_source use_banded_solver_NLayers").split()


def modes(X, n, kind):
    """(argument, rho(m, mu_i, mu_j))"""
    if X.concrete:
        co = X.rng.uniform(0.05, 0.3, size=n)
        if kind == "number":
            return list(float(c) for c in co), (lambda m, a, b: float(co[m]))
        f = [(lambda a, b, c=c: c * (1 + 0.3 * X.np.asarray(a)[:, None] + 0.2 * X.np.asarray(b)[None, :] ** 2)) for c in co]
        return f, (lambda m, a, b: float(co[m] * (1 + 0.3 * a + 0.2 * b ** 2)))
    T, sym = X.T, X.sym
    if kind == "number":
        return sym.SymSeq(T.I.of(n), lambda m: T.ruf("rho", (m,))), (lambda m, a, b: T.ruf("rho", (m,)))

    def get(m):
        def f(a, b):
            a, b = sym.arr_of(a), sym.arr_of(b)
            fa, fb = a.fn(), b.fn()
            return sym.new((a.shape[0], b.shape[0]), lambda i, j: T.ruf("rho", (m,), (fa(i), fb(j))))
        return f
    return sym.SymSeq(T.I.of(n), get), (lambda m, a, b: T.ruf("rho", (T.I.of(m),), (T.rl(a), T.rl(b))))


def equations(X, N, NL, multi, beam, iso, G, kp, K, B, gam, s, NS, st0, mu, mw, mu0, I04, rho, has, bpos, bneg):
    """the rows of the boundary value problem: (name, index ranges, row number, coefficient of C(m, l, c), right-hand side)"""
    NQ = 2 * N
    thick = lambda l: st0(l + 1) - st0(l)
    L = NL - 1

    def edge(m, l, c, top):
        """value of the c-th homogeneous solution of layer l at the top / bottom of the layer"""
        e = lambda q: X.exp(-kp(m, l, q) * thick(l))
        if X.concrete:
            return (1.0 if c < N else e(c - N)) if top else (e(c) if c < N else 1.0)
        return X.ite(X.lt(c, N), X.r(1), e(c - N)) if top else X.ite(X.lt(c, N), e(c), X.r(1))
    Rm = lambda m, i, p: X.ite(X.ieq(m, 0), X.r(2), X.r(1)) * rho(m, mu(i), mu(p)) * mw(p)

    def vsol(l, r, tau):
        return X.sum(NQ, lambda j: G(0, l, r, j) * gam(l, j) * X.sum(NS, lambda q: s(l, q) * mv(X, False, q, K(0, l, j), tau)))

    def part(m, l, r, tau):
        """particular solution of mode m in layer l at depth tau, stream r"""
        v = X.r(0)
        if beam:
            v = v + B(m, l, r) * X.exp(-tau / mu0)
        if iso:
            v = v + (X.ite(X.ieq(m, 0), vsol(l, r, tau), X.r(0)) if not X.concrete else (vsol(l, r, tau) if m == 0 else 0.0))
        return v
    bot = st0(NL)

    def when(c, f):
        if c is False:
            return X.r(0)
        if X.concrete:
            return f() if c else 0.0
        return X.ite(c, f(), X.r(0))
    top_rhs = lambda m, i: bneg(m, i) - part(m, 0, N + i, X.r(0))
    mid_rhs = lambda m, l, r: part(m, l + 1, r, st0(l + 1)) - part(m, l, r, st0(l + 1))

    def bot_rhs(m, i):
        x = bpos(m, i) - part(m, L, i, bot)
        x = x + when(has(m), lambda: X.sum(N, lambda p: Rm(m, i, p) * part(m, L, N + p, bot)))
        if beam:
            x = x + when(has(m), lambda: 4 * I04 * mu0 * rho(m, mu(i), mu0) * X.exp(-bot / mu0))
        return x
    top_co = lambda m, i, l, c: when(X.ieq(l, 0), lambda: G(m, 0, N + i, c) * edge(m, 0, c, True))
    mid_co = lambda m, k, r, l, c: when(X.ieq(l, k), lambda: G(m, k, r, c) * edge(m, k, c, False)) - when(X.ieq(l, k + 1), lambda: G(m, k + 1, r, c) * edge(m, k + 1, c, True))
    bot_co = lambda m, i, l, c: when(X.ieq(l, L), lambda: (G(m, L, i, c) - when(has(m), lambda: X.sum(N, lambda p: Rm(m, i, p) * G(m, L, N + p, c)))) * edge(m, L, c, False))
    rows = [("top boundary", (N,), lambda i: i, top_co, top_rhs), ("bottom boundary", (N,), lambda i: NL * NQ - N + i, bot_co, bot_rhs)]
    if multi:
        rows.append(("continuity between layers", (NL - 1, NQ), lambda k, r: N + NQ * k + r, mid_co, mid_rhs))
    return rows


@contract("coeffs", ["C01", "C02", "C03", "C05", "C06", "C08", "C09", "C15", "C16", "C20"], "_solve_for_coeffs",
          product(banded=(False, True), NL=(1, "NL"), beam=(True, False), iso=(True, False), bdrf=("none", "number", "function"))
          + [dict(banded=b, NL="NL", beam=False, iso=False, bdrf="none", bc=bc) for b in (False, True) for bc in (("scalar", "scalar"), ("vector", "vector"), ("scalar", "matrix"), ("matrix", "vector"))])
def coeffs(X, banded, NL, beam, iso, bdrf, bc=("matrix", "matrix")):
    import numpy as np
    N = X.int("N", 1)
    multi = NL != 1
    NL = X.int("NL", 2) if multi else 1
    NF = X.int("NF", 1)
    NQ = 2 * N
    NB = 0 if bdrf == "none" else X.int("NBDRF", 1)
    nband = X.int("nband", 1)
    if X.concrete:
        nband = max(1, NL - 1) if banded else NL + 1
    else:
        X.assume(X.le(nband, NL) if banded else X.lt(NL, nband))
        X.cuts((2 * N, N))
    if X.concrete:
        st0 = X.arr("st0", (NL + 1,), gen=lambda r, s: np.concatenate(([0], np.cumsum(r.uniform(0.2, 1.0, s[0] - 1)))))
    else:
        X.S.UF_SIMP["bound"] = lambda ia, ra, ctx: X.T.rl(0) if ia[0].const() == 0 else None
        st0 = X.defarr((NL + 1,), lambda l: X.T.ruf("bound", (X.T.I.of(l),)))
    kp = X.arr("kp", (NF, NL, N), pos=True)
    K = X.defarr((NF, NL, NQ), lambda m, l, c: X.ite(X.lt(c, N), -kp(m, l, c), kp(m, l, c - N)) if not X.concrete else (-kp(m, l, c) if c < N else kp(m, l, c - N)))
    # (concretely, diagonally dominant blocks keep the system well conditioned)
    G = X.arr("G", (NF, NL, NQ, NQ), gen=lambda r, s: r.uniform(-0.3, 0.3, s) + np.eye(s[-1]))
    B = X.arr("B", (NF, NL, NQ)) if beam else None
    gam = X.arr("gam", (NL, NQ)) if iso else None
    NS = X.int("NS", 1) if iso else 0
    s = X.arr("s", (NL, NS)) if iso else None
    mu, mw = X.arr("mu", (N,), pos=True), X.arr("mu_W", (N,), pos=True)
    mu0 = X.real("mu0", pos=True) if beam else 0
    I04 = X.real("I0d", pos=True) if beam else 0
    md, rho = modes(X, NB, bdrf) if bdrf != "none" else ([], None)

    def bcond(name, kind):
        """(argument, is_scalar, is_vector, value(m, i))"""
        if kind == "scalar":
            v = X.real(name)
            return v, True, False, lambda m, i: X.ite(X.ieq(m, 0), v, X.r(0))
        if kind == "vector":
            v = X.arr(name, (N,))
            return v, False, True, lambda m, i: X.ite(X.ieq(m, 0), v(i), X.r(0))
        v = X.arr(name, (N, NF))
        return v, False, False, lambda m, i: v(i, m)
    bp, bps, bpv, bpos = bcond("b_pos", bc[0])
    bn, bns, bnv, bneg = bcond("b_neg", bc[1])
    if not X.concrete:
        mathscr_stub(X)
    a = dict(NFourier=NF, G_collect=G, K_collect=K, B_collect=B, G_inv_mu_inv=gam, scaled_tau_arr_with_0=st0, mu_arr_pos=mu, mu_arr_pos_times_W=mw,
             N=N, NQuad=NQ, NLayers=NL, NBDRF=NB, is_atmos_multilayered=multi, BDRF_Fourier_modes=md, mu0=mu0, I0_div_4pi=I04, there_is_beam_source=beam,
             b_pos=bp, b_neg=bn, b_pos_is_scalar=bps, b_neg_is_scalar=bns, b_pos_is_vector=bpv, b_neg_is_vector=bnv, Nscoeffs=NS,
             scaled_s_poly_coeffs=s, there_is_iso_source=iso, use_banded_solver_NLayers=nband)
    out = X.call(X.fn("_solve_for_coeffs", "_solve_for_coeffs"), **{p: a[p] for p in PAR})
    X.shape("shape of GC", out, (NF, NL, NQ, NQ))

    # ---- specification
    has = (lambda m: X.lt(m, NB)) if bdrf != "none" else (lambda m: False)
    L = NL - 1
    rows = equations(X, N, NL, multi, beam, iso, G, kp, K, B, gam, s, NS, st0, mu, mw, mu0, I04, rho, has, bpos, bneg)
    if X.concrete:
        C = lambda m, l, c: float(out[m, l, 0, c] / G(m, l, 0, c))
        X.forall((NF, NL, NQ, NQ), lambda m, l, i, c: X.eq("GC is G diag(C)", X.at(out, m, l, i, c), G(m, l, i, c) * C(m, l, c)))
        for name, sh, row, co, rhs in rows:
            X.forall((NF,) + sh, lambda m, *i: X.eq(name + " equation", X.sum(NL, lambda l: X.sum(NQ, lambda c: co(m, *i, l, c) * C(m, l, c))), rhs(m, *i)))
    else:
        f = [x for x in X.sym.ST.facts if x["kind"] == "solve"]
        if len(f) != 1 or len(f[0]["loops"]) != 1:
            raise X.sym.Unsupported("expected one linear system per Fourier mode")
        f = f[0]
        k, lo, hi = f["loops"][0]
        X.holds("a system is solved for every Fourier mode", X.and_(X.ieq(lo, 0), X.ieq(hi, NF)))
        X.holds("size of the system", X.ieq(f["n"], NL * NQ))
        kn = X.T.symname(k)
        at = lambda t, m: X.T.subst(t, {kn: m})
        C = lambda m, l, c: X.T.ruf(f["name"], (m, NQ * l + c))
        X.forall((NF, NL, NQ, NQ), lambda m, l, i, c: X.eq("GC is G diag(C)", X.at(out, m, l, i, c), G(m, l, i, c) * C(m, l, c)))
        I = X.T.I.of
        for name, sh, row, co, rhs in rows:
            # the layers a row touches, then all the others
            def touched(*i):
                return {"top boundary": [I(0)], "bottom boundary": [I(L)]}.get(name) or [i[0], i[0] + 1]
            for q in range(2 if sh[1:] else 1):
                X.forall((NF,) + sh + (NQ,), lambda m, *i: X.eq(name + " coefficients", at(f["a"](I(row(*i[:-1])), I(NQ * touched(*i)[q] + i[-1])), m), co(m, *i[:-1], touched(*i)[q], i[-1])))

            def other(m, *i):
                old = X.sym.ST.ctx
                for l in touched(*i):
                    X.assume(X.not_(X.ieq(i[-2], l)))
                if X.sym.ST.ctx.feasible():
                    X.eq(name + ": no other coefficients", at(f["a"](I(row(*i[:-2])), I(NQ * i[-2] + i[-1])), m), X.r(0))
                X.sym.ST.ctx = old
            if multi:
                X.forall((NF,) + sh + (NL, NQ), other)
            X.forall((NF,) + sh, lambda m, *i: X.eq(name + " right-hand side", at(f["b"](I(row(*i))), m), rhs(m, *i)))
    X.frame()
    X.side()
