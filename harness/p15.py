"""P15: options that select an implementation agree with each other and with an exact solve; compiled code stays in bounds."""
import json
import os
import subprocess
import sys

import numpy as np

import catalog as C
import gen
import p13
import solvers as S
import wraps as W

PROP = "P15"
RULE = ("one case = one problem computed through every interchangeable implementation and compared pairwise and with an exact solve; non-trivial when at least two "
        "implementations produced a result that differs from the input")


# ------------------------------------------------------------------ simplex engines
def rows_of(rng, big):
    mode = int(rng.integers(0, 3))
    if mode == 0:
        n = int(rng.integers(1, 8)) if not big else int(rng.integers(200, 3000))
        return n, None, -1, [np.arange(n)]
    hi = 6 if not big else 60
    dims = (int(rng.integers(1, hi)), int(rng.integers(1, hi)))
    axis = int(rng.choice([0, 1, -1]))
    n = dims[0] * dims[1]
    I = np.arange(n).reshape(dims)
    return n, dims, axis, list(I.T) if axis == 0 else list(I)


def engines(m):
    rng = m.rng
    P = C.P()
    big = m.index % 11 == 0
    n, dims, axis, rows = rows_of(rng, big)
    r = float(rng.choice([1., gen.logu(rng, .05, 20), 100.]))
    x = gen.vec(rng, n, 1., r, False, None)
    single = bool(rng.random() < .15)
    if single:
        x = gen.vec(rng, n, 1., r, False, "normal").astype(np.float32)
    kw, acc = [({}, 4e-8), (dict(maxiter=300, ftol=1e-13, xtol=1e-13), 1e-12), (dict(maxiter=200, xtol=1e-11, ftol=1e-11), 1e-10), (dict(maxiter=60, xtol=1e-5, ftol=1e-5), 4e-5)][int(rng.integers(0, 4))]
    sc = 1 + r + float(np.abs(x).max())
    k = max(len(rows[0]), 1)
    if not kw or kw["maxiter"] < 100:
        if sc * 2.0 ** -(kw.get("maxiter", 100) - 4) > acc:
            return
    L = len(rows[0])
    tol = acc * 2 + (2e-6 if single else 1e-12) * sc * np.sqrt(L)
    m.describe(n=n, dims=dims, axis=axis, radius=r, x=x if n < 50 else None, kw=kw, dtype=str(x.dtype))
    want = np.empty(n)
    for j in rows:
        want[j] = C.simplex_exact(x[j].astype(float), r)
    got = {}
    nn = int(rng.integers(1, n + 1)) if dims is not None else n
    for eng in ("numpy", "numba"):
        op = P.Simplex(nn, r, dims=dims, axis=axis, engine=eng, **kw)
        x0 = x.copy()
        got[eng] = op.prox(x0, gen.tau(rng))
        m.ok(np.array_equal(x0, x), "the input is left alone", engine=eng)
        m.ok(got[eng].shape == x.shape, "the projection has the shape of its input", engine=eng, shape=got[eng].shape)
        m.close(got[eng], want, "simplex projection", tol, engine=eng, dims=dims, axis=axis, radius=r, kw=kw)
        if not m.fails:
            m.close(op.prox(x0, 1.), got[eng], "a second call returns the same", 0, engine=eng)
            d = op.proxdual(x, 2.)
            m.close(d, x - 2. * np.concatenate([C.simplex_exact(x[j].astype(float) / 2., r) for j in rows])[np.argsort(np.concatenate(rows))], "dual step", 4 * tol + 2e-12 * sc, engine=eng, dims=dims, axis=axis, radius=r)
        m.event(f"engine {eng} dims={dims is not None} axis={axis if dims else None} {'single' if single else 'double'}")
    m.close(got["numpy"], got["numba"], "engines agree", 2 * tol, dims=dims, axis=axis, radius=r, kw=kw)
    # the value is the same question for every engine
    probe = want if rng.random() < .5 else want + rng.standard_normal(n)
    if dims is None:
        v = [bool(P.Simplex(n, r, engine=e, call=True, maxiter=50)(probe, tol=1e-6)) for e in ("numpy", "numba")]
        m.ok(v[0] == v[1], "engines agree on membership", values=v, probe=probe if n < 50 else None, radius=r)
    # layout: transposing data and axis is the same projection
    if dims is not None:
        ax = 0 if axis == 0 else 1
        op = P.Simplex(nn, r, dims=dims[::-1], axis=1 - ax, engine=str(rng.choice(["numpy", "numba"])), **kw)
        t = op.prox(np.ascontiguousarray(x.reshape(dims).T).ravel(), 1.).reshape(dims[::-1]).T.ravel()
        m.close(t, got["numpy"], "the axis layout does not matter", 2 * tol, dims=dims, axis=axis, radius=r)
        one = np.concatenate([P.Simplex(len(j), r, engine="numba", **kw).prox(np.ascontiguousarray(x[j]), 1.) for j in rows[:4]])
        m.close(one, got["numba"][np.concatenate(rows[:4])], "row by row equals all rows at once", 2 * tol, dims=dims, axis=axis, radius=r)
    if np.any(want != x):
        m.nontrivial(x.tobytes(), str(dims), axis, r)


def magnitudes(m):
    """Every engine projects whatever the unit of the data: inputs and radii far from one."""
    rng = m.rng
    P = C.P()
    n, dims, axis, rows = rows_of(rng, False)
    u = gen.logu(rng, 1e5, 1e28)
    x = rng.standard_normal(n) * u
    if rng.random() < .3:
        x = np.round(rng.standard_normal(n) * 2) * u
    r = u * gen.logu(rng, .01, 10) if rng.random() < .7 else gen.logu(rng, .1, 10)
    eng = str(rng.choice(["numpy", "numba"]))
    m.describe(n=n, dims=dims, axis=axis, radius=r, x=x, engine=eng)
    got = P.Simplex(n, r, dims=dims, axis=axis, engine=eng, maxiter=400).prox(x.copy(), gen.tau(rng))
    want = np.empty(n)
    for j in rows:
        want[j] = C.simplex_exact(x[j], r)
    m.close(got, want, "simplex projection of large data", 1e-7 + 1e-13 * (r + float(np.abs(x).max()) * n), engine=eng, dims=dims, axis=axis, radius=r, x=x)
    m.event(f"engine {eng} radius {'in the unit of the data' if r > u / 200 else 'of order one'}")
    if np.any(want != x):
        m.nontrivial(x.tobytes(), str(dims), axis, r)


def compiled(m):
    """Bounds-checked and multi-threaded builds of the compiled engine, in a process of their own."""
    seed = int(m.rng.integers(0, 2 ** 31))
    cfg = ["1,1", "0,4", "1,3"][m.index % 3]
    e = dict(os.environ)
    for k in ("NUMBA_BOUNDSCHECK", "NUMBA_NUM_THREADS"):
        e.pop(k, None)
    import tempfile
    with tempfile.TemporaryDirectory() as td:
        e["NUMBA_CACHE_DIR"] = td
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "p15_child.py"), cfg, str(seed), "160"], capture_output=True, text=True, env=e, timeout=400)
    m.describe(config=cfg, seed=seed)
    out = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT ")]
    if not out:
        m.ok(False, "the compiled engine ran to its end", config=cfg, code=p.returncode, err=p.stderr[-800:])
        return
    d = json.loads(out[0][7:])
    m.ok(d["nbad"] == 0, "compiled engine: in bounds and right", config=cfg, bad=d["bad"], nbad=d["nbad"])
    m.event(f"boundscheck={d['boundscheck']} threads={d['threads']}: rows", d["rows"])
    m.nontrivial(cfg, seed)


# ------------------------------------------------------------------ least squares
def inner(m):
    rng = m.rng
    P = C.P()
    cplx = bool(rng.random() < .3)
    n, mm = int(rng.integers(1, 8)), int(rng.integers(1, 10))
    A = gen.mat(rng, mm, n, cplx, cond=float(rng.choice([1., 3., 20.])) if rng.random() < .8 else None) * gen.logu(rng, .2, 4)
    if rng.random() < .2 and n > 1:
        A[:, 1] = A[:, 0]            # rank deficient
    b = gen.vec(rng, mm, 1., None, cplx, "normal")
    if rng.random() < .1:
        b = b * 0
    sigma, alpha = gen.logu(rng, .05, 5), gen.logu(rng, .1, 4)
    useq = bool(rng.random() < .4)
    q = gen.vec(rng, n, 1., None, cplx and rng.random() < .5, "normal") if useq else None
    kq = dict(q=q, alpha=alpha) if useq else {}
    AH = A.conj().T
    big = 4 * n + 20
    roof = (1 + 20 * (sigma * float(np.linalg.norm(A, 2)) * (float(np.linalg.norm(b)) + 30) + alpha * (0 if q is None else float(np.linalg.norm(q))))) ** 2
    cfgs = [("explicit", None, None), ("explicit", None, "numpy"), ("explicit", None, "scipy"), ("explicit", None, "factorize")]
    cfgs += [("free", s, None) for s in ("legacy", "cg", "cgls")]
    ops = []
    for kind, sv, ds in cfgs:
        warm = bool(rng.random() < .5)
        x0 = gen.vec(rng, n, 1., None, cplx, "normal") if rng.random() < .3 else None
        kws = {None: {}, "legacy": dict(atol=1e-14, btol=1e-14), "cg": dict(tol=1e-26 * roof), "cgls": dict(tol=1e-26 * roof)}[sv]
        ni = big if rng.random() < .5 else (lambda c, B=big: B)
        Op = gen.dense(A) if kind == "explicit" else gen.free(A)
        kk = dict(solver=sv) if sv else (dict(solver=str(rng.choice(["legacy", "cg", "cgls"]))) if rng.random() < .5 else {})
        f = P.L2(Op=Op, b=b, sigma=sigma, niter=ni, warm=warm, x0=x0, densesolver=ds, kwargs_solver=kws, **kk, **kq)
        ops.append((f"{kind}/{sv or ds}{' warm' if warm else ''}{' x0' if x0 is not None else ''}", f, kind))
    m.describe(n=n, m=mm, sigma=sigma, q=useq, cplx=cplx, ops=[o[0] for o in ops])
    taus = [gen.logu(rng, .02, 20) for _ in range(3)]
    seq = [taus[int(rng.integers(0, 3))] for _ in range(int(rng.integers(2, 7)))]
    if rng.random() < .3:
        seq[1] = seq[0]
    x = None
    for t in seq:
        if x is None or rng.random() < .6:
            x = gen.vec(rng, n, 1., None, cplx, str(rng.choice(["normal", "sparse", "ties", "zero"])))
        rhs = x + t * sigma * (AH @ b) - (t * alpha * q if useq else 0)
        want = np.linalg.solve(np.eye(n) + t * sigma * (AH @ A), rhs)
        sc = 1 + float(np.abs(want).max()) + float(np.abs(rhs).max()) + t
        for nm, f, kind in ops:
            how = int(rng.integers(0, 3)) if kind == "explicit" else 0
            if how == 0:
                got = f.prox(x.copy(), t)
                ref, tl = want, 1.
            elif how == 1:
                c = float(rng.choice([.5, 2.]))
                got = (c * f).prox(x.copy(), t / c)
                ref, tl = want, 1.
            else:
                got = f.proxdual(x.copy() / t, 1 / t)
                ref, tl = (x - want) / t, 1 + 1 / t
            m.close(got, ref, "least-squares step equals the direct solve", (1e-9 if kind == "explicit" else 3e-6) * sc * tl, impl=nm, how=how, tau=t, seq=seq, A=A, x=x, b=b, q=q, sigma=sigma)
            m.event(nm.split(" ")[0])
        if np.any(want != x):
            m.nontrivial(x.tobytes(), t, sigma)
    # value and gradient do not depend on the implementation
    y = gen.vec(rng, n, 1., None, cplx, "normal")
    vals = [f(y) for _, f, _ in ops if not cplx or not useq]
    for v in vals:
        m.close(v, vals[0], "value does not depend on the solver", 1e-10 * (1 + abs(vals[0])))
    gs = [f.grad(y) for _, f, _ in ops]
    for g in gs:
        m.close(g, gs[0], "gradient does not depend on the solver", 1e-10 * (1 + np.abs(gs[0]).max()))


def explicit_free(m):
    """The same matrix given explicitly, matrix-free, as a product or as a sparse operator."""
    import pylops
    rng = m.rng
    P = C.P()
    cplx = bool(rng.random() < .25)
    n, mm = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    which = m.index % 7
    x = None

    def four(A):
        out = [("explicit", gen.dense(A)), ("free", gen.free(A))]
        k = A.shape[0]
        d = np.exp(rng.uniform(-.5, .5, k))
        out.append(("product", gen.diag(d.astype(A.dtype)) @ gen.dense(np.ascontiguousarray(A / d[:, None]))))
        if k > 1:
            h = k // 2
            out.append(("stack", pylops.VStack([gen.dense(np.ascontiguousarray(A[:h])), gen.free(np.ascontiguousarray(A[h:]))])))
        return out
    res, tol, name = {}, 1e-8, ""
    if which == 0:
        name, cplx = "Quadratic", False
        Q = gen.spd(rng, n)
        q = rng.standard_normal(n)
        x, t = gen.vec(rng, n, 1., None, False, "normal"), gen.logu(rng, .1, 10)
        want = np.linalg.solve(np.eye(n) + t * Q, x - t * q)
        for nm, Op in four(Q):
            f = P.Quadratic(Op, b=q, niter=60 * n + 60, x0=None, warm=bool(rng.random() < .5))
            res[nm] = f.prox(x.copy(), t)
            res[nm + " again"] = f.prox(x.copy(), t)
            m.close(f(x), .5 * x @ Q @ x + q @ x, "quadratic value", 1e-9 * (1 + abs(x @ Q @ x)), impl=nm)
            m.close(f.grad(x), Q @ x + q, "quadratic gradient", 1e-9 * (1 + np.abs(Q @ x).max()), impl=nm)
        tol = 2e-5
    elif which == 1:
        name = "AffineSet"
        n = max(n, 2)
        k = int(rng.integers(1, n))
        A = gen.mat(rng, k, n, cplx, cond=4.)
        z = gen.vec(rng, n, 1., None, cplx, "normal")
        b = A @ z
        x = gen.vec(rng, n, 1., None, cplx, "normal")
        want = x - A.conj().T @ np.linalg.solve(A @ A.conj().T, A @ x - b)
        for nm, Op in four(A):
            res[nm] = P.AffineSet(Op, b, 20 * n).prox(x.copy(), 1.)
            res[nm + " projection"] = P.projection.AffineSetProj(Op, b, 20 * n)(x.copy())
        tol = 3e-4
    elif which == 2:
        name = "Orthogonal"
        k = int(rng.integers(1, 5))
        al = float(rng.choice([1., 2., .3]))
        Q = np.ascontiguousarray(np.sqrt(al) * gen.orth(rng, k + 2, cplx)[:k])
        base = C.g_simple(rng, cplx, n=k)
        b = gen.vec(rng, k, 1., None, cplx, "normal")
        x, t = gen.vec(rng, k + 2, 1., None, cplx, "normal"), gen.logu(rng, .1, 5)
        y = Q @ x + b
        want = x + Q.conj().T @ (base.prox(y, al * t) - y) / al
        for nm, Op in four(Q):
            res[nm] = P.Orthogonal(base.make(), Op, partial=True, b=b, alpha=al).prox(x.copy(), t)
    elif which == 3:
        name = "low-rank model"
        B = gen.mat(rng, int(rng.integers(1, 9)), n * mm, cplx)
        k = int(rng.integers(1, 4))
        X, Y = S.vec(rng, n * k, cplx, 1.).reshape(n, k), S.vec(rng, k * mm, cplx, 1.).reshape(k, mm)
        d = S.vec(rng, B.shape[0], cplx)
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix
        R = B @ (X @ Y).ravel() - d
        G = (B.conj().T @ R).reshape(n, mm)
        x = X.ravel()
        want = np.concatenate(((G @ Y.conj().T).ravel(), (X.conj().T @ G).ravel(), [.5 * np.linalg.norm(R) ** 2]))
        for nm, Op in four(B):
            H = LowRankFactorizedMatrix(X.copy(), Y.copy(), d, Op=Op)
            res[nm] = np.concatenate((H.gradx(X.ravel()), H.grady(Y.ravel()), [H(X.ravel(), Y.ravel())]))
        # no operator is the identity operator
        d2 = S.vec(rng, n * mm, cplx)
        H0, H1 = (LowRankFactorizedMatrix(X.copy(), Y.copy(), d2, Op=o) for o in (None, pylops.Identity(n * mm, dtype=d2.dtype)))
        m.close(H0.gradx(X.ravel()), H1.gradx(X.ravel()), "no operator means the identity", 1e-9 * (1 + np.abs(G).max()))
        m.close(H0.grady(Y.ravel()), H1.grady(Y.ravel()), "no operator means the identity", 1e-9 * (1 + np.abs(G).max()))
        m.close(H0(X.ravel(), Y.ravel()), H1(X.ravel(), Y.ravel()), "no operator means the identity", 1e-9 * (1 + abs(H0(X.ravel(), Y.ravel()))))
        tol = 1e-9 * (1 + float(np.abs(want).max()))
    else:
        # through solvers: ADMML2, LinearizedADMM, PrimalDual, AdaptivePrimalDual
        p = int(rng.integers(1, 6))
        n = max(n, 2)
        A, M = gen.mat(rng, p, n, cplx, cond=3.), gen.mat(rng, n + 1, n, cplx, cond=3.)
        b = S.vec(rng, n + 1, cplx)
        g = C.g_simple(rng, cplx, n=p)
        x = S.vec(rng, n, cplx)
        ni = int(rng.integers(1, 12))
        tau = gen.logu(rng, .1, .9)
        gf = bool(rng.random() < .5)
        name = ["ADMML2", "LinearizedADMM", "PrimalDual"][which - 4]
        O = S.O()
        MH = M.conj().T
        want = None
        for (nm, Ao), (nm2, Mo) in zip(four(A), (four(M) * 2)[1:]):
            if which == 4:
                r = O.primal.ADMML2(g.make(), Mo, b, Ao, x.copy(), tau, niter=ni, gfirst=gf, iter_lim=60 * n + 60, atol=1e-15, btol=1e-15)[0]
            else:
                f = P.L2(Op=Mo, b=b, niter=60 * n + 60, kwargs_solver=dict(atol=1e-14, btol=1e-14))
                if which == 5:
                    r = O.primal.LinearizedADMM(f, g.make(), Ao, x.copy(), tau=tau, mu=.5 * tau, niter=ni)[0]
                else:
                    r = O.primaldual.PrimalDual(f, g.make(), Ao, x.copy(), tau=tau, mu=1., niter=ni, gfirst=gf)
            res[f"{nm}/{nm2}"] = r
        want = next(iter(res.values()))
        tol = 2e-4
        if g.ind or not g.cvx:
            return
    m.describe(which=name, cplx=cplx, n=n, m=mm)
    sc = 1 + float(np.abs(want).max()) + float(np.abs(x).max())
    for nm, r in res.items():
        m.close(r, want, "explicit and matrix-free operators give the same", tol * (sc if which != 3 else 1), which=name, impl=nm, first=next(iter(res)))
        m.event(f"{name}: {nm.split(' ')[0] if which < 4 else 'mixed'}")
    m.nontrivial(name, x.tobytes())


# ------------------------------------------------------------------ parallel, adaptive
def combine(m):
    """Sequential and parallel combination of the same terms."""
    rng = m.rng
    P = C.P()
    if m.index % 3 == 0:
        k, n = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        s = C.g_intersection(rng)
        x = s.draw(rng)
        got = s.make().prox(x.copy(), 1.)
        m.close(got, s.prox(x, 1.), "intersection", C.TOL + s.acc * s.scale(x), cfg=s.cfg)
        m.event("IntersectionProj")
        m.nontrivial(x.tobytes())
        return
    n = int(rng.integers(1, 6))
    z = gen.vec(rng, n, 1., None, False, "normal")
    x0 = z + gen.vec(rng, n, 1.5, None, False, "normal")
    sc = 1 + max(float(np.abs(x0).max()), float(np.abs(z).max()))
    if m.index % 3 == 1:
        terms = [p13.t_set(rng, z) for _ in range(int(rng.integers(2, 4)))]
    else:
        terms = [p13.t_fun(rng, n, False), p13.t_fun(rng, n, False) if rng.random() < .6 else p13.t_set(rng, z)]
    tau = 1. if m.index % 3 == 1 else gen.logu(rng, .2, 3)
    m.describe(terms=[str(t) for t in terms], x0=x0, tau=tau)
    try:
        ref, p = p13.best(terms, x0, tau)
    except p13.Slow:
        return
    if m.index % 3 == 1:
        try:
            need = p13.cyclic_steps(terms, x0, [1.] * len(terms), ref, sc)
        except p13.Slow:
            return
        outs = {}
        for par in (False, True):
            if par:
                ni = 60 * need + 3000
            else:
                ni = 2 * need + 60
            outs[par] = P.projection.GenericIntersectionProj([t.proj() for t in terms], niter=ni, tol=1e-12 if par else 0., use_parallel=par)(x0.copy())
            m.event(f"projections parallel={par}")
        try:
            slow = p13.parallel_steps(terms, x0, [1.] * len(terms), [1 / len(terms)] * len(terms), ref, sc)
        except (p13.Slow, TypeError):
            slow = None
        m.close(outs[False], ref, "sequential combination", 1e-5 * sc)
        if slow is not None and slow < 60 * need + 3000:
            m.close(outs[True], ref, "parallel combination", 1e-4 * sc)
        m.nontrivial(x0.tobytes(), len(terms))
        return
    outs = {}
    for par in (False, True):
        kw = dict(niter=20000, tol=1e-12)
        if par:
            # the documented parallel step is the one of the weighted sum of tau-scaled terms: ask for the plain sum
            F = P.Sum([t.op() for t in terms], use_parallel=True, **kw)
        else:
            F = P.Sum([t.op() for t in terms], **kw)
        outs[par] = F.prox(x0.copy(), tau)
        m.event(f"sum parallel={par}")
    try:
        a = p13.cyclic_steps(terms, x0, [tau] * 2, ref, sc)
        b = p13.parallel_steps(terms, x0, [tau * 2] * 2, [.5] * 2, ref, sc)
    except (p13.Slow, TypeError):
        return
    if max(a, b) < 10000:
        m.close(outs[False], outs[True], "sequential and parallel sums agree", 1e-4 * sc, terms=terms, x0=x0, tau=tau, ref=ref)
        m.close(outs[False], ref, "sequential sum", 1e-4 * sc, terms=terms, x0=x0, tau=tau)
        m.nontrivial(x0.tobytes(), 2)


def sr3(m):
    rng = m.rng
    import pyproximal
    n = int(rng.integers(1, 6))
    mm, p = n + int(rng.integers(0, 3)), int(rng.integers(1, 7))
    A, R = gen.mat(rng, mm, n, cond=3.), gen.mat(rng, p, n)
    kappa, eps = gen.logu(rng, .3, 3), gen.logu(rng, .05, 1)
    d = rng.standard_normal(mm) * 2
    K = A.T @ A + kappa * R.T @ R
    v = np.zeros(p)
    for _ in range(20000):
        x = np.linalg.solve(K, A.T @ d + kappa * R.T @ v)
        w = C.soft(R @ x, eps / kappa)
        if np.linalg.norm(w - v) < 1e-14:
            break
        v = w
    x0 = rng.standard_normal(n) if rng.random() < .5 else None
    m.describe(n=n, m=mm, p=p, kappa=kappa, eps=eps, x0=x0)
    sc = 1 + np.abs(x).max()
    out = {}
    for ad in (False, True):
        for Op in (gen.dense(A), gen.free(A)):
            out[ad] = pyproximal.optimization.sr3.SR3(Op, gen.linop(rng, R), d.copy(), kappa, eps, x0=x0, adaptive=ad, iter_lim_outer=3000, iter_lim_inner=100)
            m.close(out[ad], x, "SR3 solution", 5e-3 * sc if ad else 2e-3 * sc, adaptive=ad, A=A, R=R, d=d, kappa=kappa, eps=eps)
            m.event(f"SR3 adaptive={ad}")
    m.nontrivial(d.tobytes())


def fitted(m):
    """Solvers around L2 give the same path with every dense and iterative solver, and segmentation with every engine."""
    rng = m.rng
    P, O = C.P(), S.O()
    if m.index % 4 == 0:
        r = W.b_segment(rng)
        D = r.data
        outs = []
        for ks in (dict(engine="numpy", maxiter=300, xtol=1e-13), dict(engine="numba", maxiter=300, xtol=1e-13, ftol=1e-13)):
            outs.append(O.segmentation.Segment(D["y"], D["cl"], D["sigma"], D["alpha"], clsigmas=D["cs"], niter=8, x0=r.x0, kwargs_simplex=ks)[0])
        m.close(outs[0], outs[1], "segmentation does not depend on the engine", 1e-8, opts=r.opts)
        m.event("segment engines")
        m.nontrivial(D["y"].tobytes())
        return
    cplx = bool(rng.random() < .25)
    n = int(rng.integers(1, 6))
    A = gen.mat(rng, n + 1, n, cplx, cond=4.)
    b = S.vec(rng, n + 1, cplx)
    g = C.g_simple(rng, cplx, n=n)
    if not g.cvx or g.ind:
        return
    sg = gen.logu(rng, .2, 3)
    x0 = S.vec(rng, n, cplx)
    tau = gen.logu(rng, .1, 2)
    which = int(rng.integers(0, 6))
    N = int(rng.integers(2, 15))
    xs = {}
    for nm in ("None", "numpy", "scipy", "factorize", "legacy", "cg", "cgls"):
        if nm in ("legacy", "cg", "cgls"):
            f = P.L2(Op=gen.free(A), b=b, sigma=sg, niter=4 * n + 20, solver=nm, warm=bool(rng.random() < .5),
                     kwargs_solver=dict(atol=1e-14, btol=1e-14) if nm == "legacy" else dict(tol=1e-24))
        else:
            f = P.L2(Op=gen.dense(A), b=b, sigma=sg, densesolver=None if nm == "None" else nm)
        gg = g.make()
        if which == 0:
            r = O.primal.ADMM(f, gg, x0.copy(), tau, niter=N)[0]
        elif which == 1:
            r = O.primal.DouglasRachfordSplitting(f, gg, x0.copy(), tau, niter=N)[0]
        elif which == 2:
            r = O.primal.PPXA([f, gg], x0.copy(), tau, niter=N, tol=0.)
        elif which == 3:
            r = O.primal.ConsensusADMM([f, gg], x0.copy(), tau, niter=N, tol=0.)
        elif which == 4:
            r = O.primaldual.PrimalDual(f, gg, gen.dense(np.eye(n, dtype=A.dtype)), x0.copy(), tau=np.array([tau * .5] * (N // 2) + [tau * .3] * (N - N // 2)), mu=1 / tau, niter=N) if not cplx else \
                O.primaldual.PrimalDual(f, gg, gen.dense(np.eye(n, dtype=A.dtype)), x0.copy(), tau=tau * .5, mu=1 / tau, niter=N)
        else:
            r = O.primal.HQS(f, gg, x0.copy(), np.linspace(tau, tau / 2, N), niter=N)[0]
        xs[nm] = r
        m.event(f"solver {which}: {nm}")
    sc = 1 + float(np.abs(xs["None"]).max())
    for k, v in xs.items():
        m.close(v, xs["numpy"], "the path does not depend on the inner solver", (1e-9 if k in ("None", "scipy", "factorize") else 1e-4) * sc, inner=k, which=which, A=A, b=b, sigma=sg, tau=tau, N=N, g=g.name)
    m.nontrivial(x0.tobytes(), which)


QUICK_MULT = 1
GROUPS = [("magnitudes", magnitudes, 1200, 12000), ("engines", engines, 500, 12000), ("compiled", compiled, 2, 6), ("inner", inner, 200, 6000), ("explicit_free", explicit_free, 350, 8000),
          ("combine", combine, 90, 1500), ("sr3", sr3, 40, 600), ("fitted", fitted, 120, 3000)]
