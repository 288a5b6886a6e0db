"""P19: solvers reach the optimum of the problem they document, whatever path they take."""
import numpy as np

import catalog as C
import gen
import solvers as S

PROP = "P19"
RULE = ("one case = one strictly convex problem (or one critical-point problem) with an independently certified optimum and several solvers with drawn options, starts and orders run "
        "to convergence on it; non-trivial when a solver moved from its start to that optimum and at least one non-smooth term is active")

FAM = ["L1", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "Nuclear", "Box", "Simplex", "L1Ball", "EuclideanBall", "NuclearBall", "HalfSpace"]


class Skip(Exception):
    pass


def nonsmooth(rng, cplx=False, n=None):
    """A convex functional with an exact proximal step; of size n when given."""
    for _ in range(60):
        if n is not None and rng.random() < .75:
            g = S.anyf(rng, n, cplx, False)
        else:
            k = str(rng.choice(FAM if not cplx else ["L1", "L21", "L21_plus_L1", "Huber", "HuberCircular", "Euclidean", "Nuclear", "L1Ball", "EuclideanBall", "NuclearBall"]))
            g = C.ALL[k](rng, cplx=cplx)
        if g.prox is None or not g.cvx or len(g.shape) > 1 or g.n > 8 or n is not None and g.n != n:
            continue
        return g
    return S.anyf(rng, n or 4, cplx)


def quad(rng, n, cplx):
    f = S.smooth(rng, n, cplx, 3.)
    f.c = -f.grad(np.zeros(n, dtype=complex if cplx else float))
    f.mu = float(np.linalg.eigvalsh(f.H).min())
    return f


def optimum(H, c, terms, cplx, most=30000):
    """argmin 1/2 x'Hx - c'x + sum_i w_i g_i(A_i x), H positive definite, certified by its residuals."""
    n = H.shape[0]
    As = [np.eye(n) if A is None else A for A, _, _ in terms]
    rho = float(np.sqrt(np.linalg.eigvalsh(H).max() * np.linalg.eigvalsh(H).min()))
    rhos = [rho / max(np.linalg.norm(A, 2) ** 2, 1e-12) for A in As]
    K = H + sum(r * A.conj().T @ A for r, A in zip(rhos, As))
    Ki = np.linalg.inv(K)
    dt = complex if cplx else float
    zs = [np.zeros(A.shape[0], dtype=dt) for A in As]
    us = [z.copy() for z in zs]
    for k in range(most):
        x = Ki @ (c + sum(r * (A.conj().T @ (z - u)) for r, A, z, u in zip(rhos, As, zs, us)))
        res = 0.
        sc = 1 + float(np.abs(x).max())
        for i, (_, g, w) in enumerate(terms):
            v = As[i] @ x
            z = g.prox(v + us[i], w / rhos[i])
            us[i] = us[i] + v - z
            res = max(res, float(np.abs(v - z).max()), float(np.abs(z - zs[i]).max()))
            zs[i] = z
        if res < 1e-13 * sc:
            break
    ys = [r * u for r, u in zip(rhos, us)]
    grad = H @ x - c + sum(A.conj().T @ y for A, y in zip(As, ys))
    mu = float(np.linalg.eigvalsh(H).min())
    err = float(np.linalg.norm(grad)) / mu + np.sqrt(res * sum(float(np.abs(y).sum()) for y in ys) / mu) if res else 0.
    if res > 1e-11 * sc or err > 2e-6 * sc:
        raise Skip
    return x, sc


def settle(m, name, run, N, x, sc, tol=1e-5, x0=None, stay=False, **kw):
    """run(N) must be within tol of x; slow but still converging runs are not judged."""
    def err(v):
        v = np.asarray(v)
        if v.shape != x.shape:
            m.ok(False, "result is shaped like the unknown", solver=name, got=v.shape)
            return 0.
        return float(np.abs(v - x).max()) / sc
    r = run(N)
    e = err(r)
    if not e <= tol:
        r2 = run(8 * N)
        e2 = err(r2)
        if not e2 <= tol:
            if np.isfinite(e2) and e2 >= .97 * e:      # no progress at all: give it far longer before calling it stuck
                e, e2 = e2, err(run(40 * N))
            if np.isfinite(e2) and (e2 < .97 * e or e2 <= tol):
                m.event("still converging: " + name)
                return None
            m.ok(False, "the solver reaches the optimum", solver=name, error=e2, before=e, iters=8 * N, got=r2, optimum=x, **kw)
            return None
    m.event("optimum reached: " + name)
    m.ok(True, "optimum", solver=name)
    if m.index % 8 == 3 or stay:
        e8 = err(run(8 * N))
        m.event("stays at the optimum: " + name)
        m.le(e8, 0, "the solver stays at the optimum", max(tol, 2 * e), solver=name, before=e, iters=8 * N, **kw)
    return r


def st(rng, n, cplx):
    u = rng.random()
    if u < .2:
        return np.zeros(n, dtype=complex if cplx else float)
    if u < .4:
        return S.vec(rng, n, cplx) * 30
    return S.vec(rng, n, cplx)


def as_prox(rng, f):
    """f as an operator whose proximal step is exact."""
    return S.lib(not f.explicit or rng.random() < .2, f)


def composite(m):
    """min f(x) + eps g(x) by everything that can solve it."""
    rng = m.rng
    P, O = S.P(), S.O()
    cplx = bool(rng.random() < .2)
    g = nonsmooth(rng, cplx)
    n = g.n
    names = ["PG", "APG", "Anderson", "GPG", "ADMM", "DRS", "PPXA", "Consensus", "PrimalDual", "LinADMM", "ADMML2", "AdaptivePD", "HQS", "TwIST", "ADMM-eps"]
    todo = [names[(m.index + 5 * j) % len(names)] for j in range(3)]
    f = quad(rng, n, cplx)
    while f.name != "L2[Op,b]" and ("ADMML2" in todo or "TwIST" in todo):
        f = quad(rng, n, cplx)
    eps = gen.logu(rng, .1, 3) if rng.random() < .4 else 1.
    try:
        x, sc = optimum(f.H, f.c, [(None, g, eps)], cplx)
        x1, sc1 = (x, sc) if eps == 1. else optimum(f.H, f.c, [(None, g, 1.)], cplx)
    except Skip:
        return
    if n < 40 and np.linalg.norm(x - np.linalg.solve(f.H, f.c)) > 1e-9:
        m.nontrivial(x.tobytes(), f.c.tobytes())
    m.describe(f=f.name, g=g.name, cfg=g.cfg, eps=eps, L=f.L, mu=f.mu, solvers=todo, cplx=cplx)
    I = gen.dense(np.eye(n, dtype=complex if cplx else float))
    kap = f.L / f.mu
    mid = 1 / np.sqrt(f.L * f.mu)
    acc_g = max(1e-5, 20 * g.acc)
    for nm in todo:
        x0 = st(rng, n, cplx)
        go = S.lib(rng.random() < .2 or g.acc > 1e-7, g)
        tau = mid * gen.step(rng, .4, 2.5, 20.)
        eta = float(rng.uniform(.4, 1.7))
        opt = {}
        if nm in ("PG", "APG"):
            mode = int(rng.integers(0, 3))
            acc = [None, "vandenberghe", "fista"][int(rng.integers(0, 3))]
            if nm == "APG":
                acc, mode = acc or "fista", mode if mode != 1 else 0
            e1 = 1. if acc or rng.random() < .5 or nm == "APG" else float(rng.uniform(.4, 1.))
            t = None if mode == 2 else gen.logu(rng, .4, 1.) / f.L * (1 if mode == 0 else 20)
            vec = rng.random() < .2
            opt = dict(mode=mode, acc=acc, eta=e1, tau=t)
            fo = S.lib(rng.random() < .2, f)
            kw = dict(acceleration=acc) if nm == "APG" else dict(acceleration=acc, eta=e1, backtracking=mode == 1)
            fun = O.primal.AcceleratedProximalGradient if nm == "APG" else O.primal.ProximalGradient
            run = lambda N: fun(fo, go, x0.copy(), tau=t, epsg=np.full(N, eps) if vec else eps, niter=N, **kw)
            settle(m, nm, run, 400 if not acc else 1500, x, sc, acc_g, stay=mode > 0, opt=opt)
            continue
        if nm == "Anderson":
            if cplx:
                continue
            t = gen.logu(rng, .4, 1.) / f.L
            opt = dict(tau=t, nhistory=int(rng.integers(1, 6)), epsr=gen.logu(rng, 1e-8, 1e-3), safeguard=bool(rng.random() < .3))
            run = lambda N: O.primal.AndersonProximalGradient(S.lib(False, f), go, x0.copy(), tau=t, epsg=eps, niter=N, nhistory=opt["nhistory"], epsr=opt["epsr"], safeguard=opt["safeguard"])
            if not opt["safeguard"]:
                # without the guard the method may stall; judge only problems on which the textbook method does not
                y = _anderson(f, g, x0, t, eps, 400, opt["nhistory"], opt["epsr"])
                if y is None or not np.abs(y - x).max() < 1e-7 * sc:
                    m.event("Anderson stalls by nature")
                    continue
            settle(m, nm, run, 400, x, sc, max(1e-4, acc_g), opt=opt)
            continue
        if nm == "GPG":
            kg = int(rng.integers(1, 4))
            w = rng.random(kg) + .2
            w = w / w.sum()
            parts = rng.random(kg) + .3
            parts = parts / parts.sum() * eps
            kf = int(rng.integers(1, 3))
            fs = [f] if kf == 1 else [f * 1 if False else _part(f, .3), _part(f, .7)]
            t = gen.logu(rng, .4, .95) / f.L
            e1 = float(rng.uniform(.4, 1.))
            acc = None
            opt = dict(kg=kg, kf=kf, tau=t, eta=e1, acc=acc, weights=w)
            gs = [S.lib(g.acc > 1e-7, g) for _ in range(kg)]
            fo = [S.lib(False, f)] if kf == 1 else [S.refop(v) for v in fs]
            run = lambda N: O.primal.GeneralizedProximalGradient(fo, gs, x0.copy(), t, epsg=parts if kg > 1 else float(parts[0]), weights=w, eta=e1, niter=N, acceleration=acc)
            settle(m, nm, run, 800, x, sc, acc_g, opt=opt)
            continue
        gs = eps
        if nm == "ADMM-eps":
            # the scaled functional goes through any splitting
            gf = bool(rng.random() < .5)
            base = g.make()
            sg = eps * base if not g.ind else base
            fo = as_prox(rng, f)
            if g.acc > 1e-7:
                continue
            run = lambda N: O.primal.ADMM(fo, sg, x0.copy(), tau, niter=N, gfirst=gf)[0]
            settle(m, nm, run, 400, x, sc, acc_g, opt=dict(tau=tau, gfirst=gf))
            continue
        fo = as_prox(rng, f)
        gf = bool(rng.random() < .5)
        opt = dict(tau=tau, gfirst=gf)
        if nm == "ADMM":
            z0 = st(rng, n, cplx) if rng.random() < .5 else None
            run = lambda N: O.primal.ADMM(fo, go, x0.copy() if z0 is None or opt["tau"] > mid else None, tau, niter=N, z0=z0, gfirst=gf)
            both = run(300)
            m.close(both[0], both[1], "both variables agree at the optimum", 1e-3 * sc + 10 * acc_g * sc) if np.abs(both[0] - x1).max() < 1e-4 * sc1 else None
            settle(m, nm, lambda N: run(N)[int(gf)], 400, x1, sc1, acc_g, opt=opt)
        elif nm == "DRS":
            opt["eta"] = eta
            settle(m, nm, lambda N: O.primal.DouglasRachfordSplitting(fo, go, x0.copy(), tau, eta=eta, niter=N, gfirst=gf)[0], 500, x1, sc1, acc_g, opt=opt)
        elif nm == "PPXA":
            w = rng.random(2) + .2
            w = w / w.sum()
            opt.update(eta=eta, w=w)
            k0 = bool(rng.random() < .5)
            X0 = x0 if k0 else np.array([x0, st(rng, n, cplx)])
            order = bool(rng.random() < .5)
            settle(m, nm, lambda N: O.primal.PPXA([fo, go] if order else [go, fo], X0.copy(), tau, eta=eta, weights=w, niter=N, tol=0.), 800, x1, sc1, acc_g, opt=opt)
        elif nm == "Consensus":
            settle(m, nm, lambda N: O.primal.ConsensusADMM([fo, go], x0.copy(), tau, niter=N, tol=0.), 800, x1, sc1, acc_g, opt=opt)
        elif nm == "PrimalDual":
            mu = float(rng.uniform(.4, .95)) / tau
            y0 = st(rng, n, cplx) if rng.random() < .4 else None
            arr = rng.random() < .3
            opt.update(mu=mu, y0=y0 is not None, arr=arr)
            settle(m, nm, lambda N: O.primaldual.PrimalDual(fo, go, I, x0.copy(), np.full(N, tau) if arr else tau, np.full(N, mu) if arr else mu, y0=y0, niter=N, gfirst=gf), 800, x1, sc1, acc_g, opt=opt)
        elif nm == "LinADMM":
            z0 = st(rng, n, cplx) if rng.random() < .4 else None
            mu = float(rng.uniform(.3, 1.)) * tau
            settle(m, nm, lambda N: O.primal.LinearizedADMM(fo, go, I, x0.copy(), tau, mu, niter=N, z0=z0)[0], 800, x1, sc1, acc_g, opt=dict(opt, mu=mu))
        elif nm == "AdaptivePD":
            mu = float(rng.uniform(.4, .95)) / tau
            settle(m, nm, lambda N: O.primaldual.AdaptivePrimalDual(fo, go, I, x0.copy(), tau, mu, niter=N, tol=-1.)[0], 1500, x1, sc1, 1e-4, opt=dict(opt, mu=mu))
        elif nm == "HQS":
            # constant penalty: the joint optimum of f(x) + g(z) + |x-z|^2/(2 tau)
            e = np.eye(n)
            D = np.linalg.solve(np.eye(n) + tau * f.H, np.eye(n))       # x = D (z + tau c); eliminating x leaves a quadratic in z
            Hz = (np.eye(n) - D) / tau
            try:
                z, scz = optimum(Hz, D @ f.c, [(None, g, 1.)], cplx)
            except Skip:
                continue
            xx = D @ (z + tau * f.c)
            r = {}

            def run(N):
                r["v"] = O.primal.HQS(fo, go, x0.copy(), tau, niter=N, gfirst=gf)
                return np.concatenate(r["v"])
            settle(m, nm, run, 500, np.concatenate((xx, z)), scz + sc1, acc_g, opt=opt)
            # vanishing penalty: the original problem
            tv = lambda N: np.maximum(tau * .97 ** np.arange(N), 1e-9 * mid)
            if g.acc < 1e-7:
                e1 = float(np.abs(O.primal.HQS(fo, go, x0.copy(), tau, niter=600, gfirst=gf)[0] - x1).max())
                e2 = float(np.abs(O.primal.HQS(fo, go, x0.copy(), tv(600), niter=600, gfirst=gf)[0] - x1).max())
                m.event("HQS continuation " + ("closer" if e2 <= e1 + 1e-6 * sc1 else "farther"))
        elif nm == "ADMML2":
            if not hasattr(f, "arrays") or "A" not in f.arrays or f.name != "L2[Op,b]":
                continue
            s = float(np.linalg.eigvalsh(f.H).max() / np.linalg.norm(f.arrays["A"], 2) ** 2)
            Op = gen.linop(rng, np.ascontiguousarray(np.sqrt(s) * f.arrays["A"]))
            b = np.sqrt(s) * f.arrays["b"]
            z0 = st(rng, n, cplx) if rng.random() < .4 else None
            tau = mid * gen.logu(rng, .03, 30)
            settle(m, nm, lambda N: O.primal.ADMML2(go, Op, b, I, x0.copy(), tau, niter=N, z0=z0, gfirst=gf, iter_lim=40 * n + 40, atol=1e-14, btol=1e-14)[0], 250, x1, sc1, max(acc_g, 1e-4), opt=opt)
        elif nm == "TwIST":
            if f.name != "L2[Op,b]":
                continue
            A = f.arrays["A"] / np.linalg.norm(f.arrays["A"], 2)
            b = f.arrays["b"]
            try:
                xt, sct = optimum(A.conj().T @ A, A.conj().T @ b, [(None, g, 1.)], cplx)
            except Skip:
                continue
            ev = np.linalg.eigvalsh(A.conj().T @ A)
            kw = dict(eigs=(float(max(ev[-1], 1.)), float(max(ev[0], 0.)))) if n < 4 or rng.random() < .6 else {}
            settle(m, nm, lambda N: O.primal.TwIST(go, gen.dense(A), b, x0.copy(), niter=N, **kw), 300, xt, sct, acc_g, opt=dict(opt, **kw))


def _anderson(f, g, x0, t, e, N, nh, epsr):
    step = lambda v: v - t * f.grad(v)
    y = step(x0)
    x = g.prox(y, e * t)
    R, G = [y - x0], [y.copy()]
    for k in range(N):
        gk = step(x)
        R, G = ([gk - y] + R)[:nh], ([gk] + G)[:nh]
        M = np.array(R)
        nrm = float(np.sum(M ** 2))
        if nrm < 1e-28:
            return x
        w = np.linalg.pinv(M @ M.T + epsr * nrm * np.eye(len(R))) @ np.ones(len(R))
        if not np.any(w):
            return None
        y = np.array(G).T @ (w / w.sum())
        x = g.prox(y, e * t)
    return x


def _part(f, w):
    q = C.Spec("part of " + f.name, None, f.n, lambda x: w * f.f(x), None, grad=lambda x: w * f.grad(x), cplx=f.cplx)
    return q


def analysis(m):
    """min f(x) + g(Ax) + Re<z, x>."""
    rng = m.rng
    O = S.O()
    cplx = bool(rng.random() < .2)
    g = nonsmooth(rng, cplx)
    p = g.n
    n = int(rng.integers(1, 7))
    names = ["PrimalDual", "AdaptivePD", "LinADMM", "ADMML2", "PD-f-ns"]
    todo = [names[m.index % 5], names[(m.index + 2) % 5]]
    f = quad(rng, n, cplx)
    while "ADMML2" in todo and f.name != "L2[Op,b]":
        f = quad(rng, n, cplx)
    A = gen.mat(rng, p, n, cplx, cond=4. if rng.random() < .8 else None) * gen.logu(rng, .4, 2)
    if g.ind and p > n:
        # feasible: shift so that the range meets the set
        q = g.member(rng) if g.member is not None else None
        if q is None:
            q = g.prox(np.zeros(p), 1.)
        if np.linalg.norm(q) < 1e-9:
            return
        A[:, 0] = np.asarray(q).ravel()
    usez = bool(rng.random() < .5)
    z = S.vec(rng, n, cplx, 1.)
    acc_g = max(2e-5, 20 * g.acc)
    try:
        x0_, sc0 = optimum(f.H, f.c, [(A, g, 1.)], cplx)
        xz, scz = optimum(f.H, f.c - z, [(A, g, 1.)], cplx)
    except Skip:
        return
    Ao = gen.linop(rng, A)
    nA = float(np.linalg.norm(A, 2))
    m.describe(f=f.name, g=g.name, cfg=g.cfg, n=n, p=p, z=usez, cplx=cplx)
    m.nontrivial(A.tobytes(), f.c.tobytes())
    for nm in todo:
        x0 = st(rng, n, cplx)
        fo = as_prox(rng, f)
        go = S.lib(rng.random() < .2 or g.acc > 1e-7, g)
        gf = bool(rng.random() < .5)
        tau = gen.step(rng, .3, 3, 10.) / np.sqrt(f.L * f.mu)
        mu = float(rng.uniform(.4, .98)) / (tau * nA ** 2)
        zz = z if usez else None
        x, sc = (xz, scz) if usez else (x0_, sc0)
        opt = dict(tau=tau, mu=mu, gfirst=gf, z=usez)
        if nm == "PrimalDual":
            y0 = st(rng, p, cplx) if rng.random() < .4 else None
            kt = int(rng.integers(0, 3))
            tt = lambda N: tau if kt == 0 else (np.full(N, tau) if kt == 1 else tau * np.linspace(1., .7, N))
            mm = lambda N: mu if kt == 0 else np.full(N, mu)
            settle(m, nm, lambda N: O.primaldual.PrimalDual(fo, go, Ao, x0.copy(), tt(N), mm(N), y0=y0, z=zz, niter=N, gfirst=gf), 1000, x, sc, acc_g, opt=dict(opt, steps=kt, y0=y0 is not None))
        elif nm == "AdaptivePD":
            settle(m, nm, lambda N: O.primaldual.AdaptivePrimalDual(fo, go, Ao, x0.copy(), tau, mu, z=zz, niter=N, tol=-1.)[0], 1500, x, sc, 1e-4, opt=opt)
        elif nm == "LinADMM":
            t = gen.step(rng, .3, 3, 10.) * nA ** 2 / np.sqrt(f.L * f.mu)
            mu2 = float(rng.uniform(.4, 1.)) * t / nA ** 2
            z0 = st(rng, p, cplx) if rng.random() < .4 else None
            settle(m, nm, lambda N: O.primal.LinearizedADMM(fo, go, Ao, x0.copy(), t, mu2, niter=N, z0=z0)[0], 1000, x0_, sc0, acc_g, opt=dict(tau=t, mu=mu2))
        elif nm == "ADMML2":
            if f.name != "L2[Op,b]":
                continue
            s = float(f.L / np.linalg.norm(f.arrays["A"], 2) ** 2)
            Op = gen.linop(rng, np.ascontiguousarray(np.sqrt(s) * f.arrays["A"]))
            b = np.sqrt(s) * f.arrays["b"]
            t = gen.logu(rng, .03, 30) * nA ** 2 / np.sqrt(f.L * f.mu)
            z0 = st(rng, p, cplx) if rng.random() < .4 else None
            settle(m, nm, lambda N: O.primal.ADMML2(go, Op, b, Ao, x0.copy(), t, niter=N, z0=z0, gfirst=gf, iter_lim=40 * n + 40, atol=1e-14, btol=1e-14)[0], 250, x0_, sc0, max(1e-4, acc_g), opt=dict(tau=t, gfirst=gf))
        else:
            # non-smooth f, quadratic g of Ax with tall well-conditioned A
            h = nonsmooth(rng, cplx, n)
            k = n + int(rng.integers(0, 3))
            B = gen.mat(rng, k, n, cplx, cond=2.)
            q = quad(rng, k, cplx)
            H, c = B.conj().T @ q.H @ B, B.conj().T @ q.c - (z if usez else 0)
            try:
                xx, scx = optimum(H, c, [(None, h, 1.)], cplx)
            except Skip:
                continue
            nB = float(np.linalg.norm(B, 2))
            t = gen.logu(rng, .3, 3)
            u = float(rng.uniform(.4, .98)) / (t * nB ** 2)
            ho, qo = S.lib(h.acc > 1e-7, h), as_prox(rng, q)
            if rng.random() < .5:
                settle(m, nm, lambda N: O.primaldual.PrimalDual(ho, qo, gen.linop(rng, B), x0.copy(), t, u, z=zz, niter=N, gfirst=gf), 1000, xx, scx, max(2e-5, 20 * h.acc), opt=dict(tau=t, mu=u, gfirst=gf, f=h.name))
            else:
                settle(m, "AdaptivePD-f-ns", lambda N: O.primaldual.AdaptivePrimalDual(ho, qo, gen.linop(rng, B), x0.copy(), t, u, z=zz, niter=N, tol=-1.)[0], 1500, xx, scx, max(1e-4, 20 * h.acc), opt=dict(tau=t, mu=u, f=h.name))


def several(m):
    """min f(x) + sum_i g_i(x)."""
    rng = m.rng
    import pylops
    P, O = S.P(), S.O()
    cplx = bool(rng.random() < .2)
    n = int(rng.integers(1, 6))
    k = int(rng.integers(2, 4))
    gs = [S.anyf(rng, n, cplx, True) for _ in range(k - 1)] + [nonsmooth(rng, cplx, n)]
    f = quad(rng, n, cplx)
    try:
        x, sc = optimum(f.H, f.c, [(None, g, 1.) for g in gs], cplx)
    except Skip:
        return
    acc = max(2e-5, 20 * max(g.acc for g in gs))
    tau = gen.logu(rng, .4, 2.5) / np.sqrt(f.L * f.mu)
    eta = float(rng.uniform(.4, 1.6))
    x0 = st(rng, n, cplx)
    w = rng.random(k + 1) + .3
    w = w / w.sum()
    which = m.index % 4
    fo = as_prox(rng, f)
    gos = [S.lib(rng.random() < .2 or g.acc > 1e-7, g) for g in gs]
    perm = list(rng.permutation(k + 1))
    fs = [([fo] + gos)[i] for i in perm]
    m.describe(f=f.name, gs=[g.name for g in gs], which=which, tau=tau, eta=eta, weights=w, cplx=cplx)
    m.nontrivial(x.tobytes(), which)
    if which == 0:
        settle(m, "PPXA", lambda N: O.primal.PPXA(fs, x0.copy(), tau, eta=eta, weights=w if eta > 1 else None, niter=N, tol=0.), 1500, x, sc, acc)
    elif which == 1:
        settle(m, "Consensus", lambda N: O.primal.ConsensusADMM(fs, x0.copy(), tau, niter=N, tol=0.), 1500, x, sc, acc)
    elif which == 2:
        t = gen.logu(rng, .4, .95) / f.L
        wk = w[:k] / w[:k].sum()
        settle(m, "GPG", lambda N: O.primal.GeneralizedProximalGradient([S.lib(False, f)], gos, x0.copy(), t, weights=wk, eta=min(eta, 1.), niter=N), 1500, x, sc, acc)
    else:
        dt = complex if cplx else float
        I = np.eye(n, dtype=dt)
        K = pylops.VStack([gen.linop(rng, I) for _ in range(k)])
        V = P.VStack(gos, nn=[n] * k)
        mu = .9 / (tau * k)
        settle(m, "PrimalDual+VStack", lambda N: O.primaldual.PrimalDual(fo, V, K, x0.copy(), tau, mu, niter=N, gfirst=bool(eta > 1)), 1500, x, sc, acc)


def point(m):
    """Proximal point: minimisers of a functional alone."""
    rng = m.rng
    O = S.O()
    cplx = bool(rng.random() < .2)
    if rng.random() < .5:
        g = nonsmooth(rng, cplx)
    else:
        g = quad(rng, int(rng.integers(1, 6)), cplx)
        g.acc = 0
        if not g.explicit:
            g.make = lambda q=g: S.refop(q)
    x0 = st(rng, g.n, cplx)
    tau = gen.logu(rng, .3, 10)
    m.describe(g=g.name, cfg=g.cfg, tau=tau, x0=x0)
    x = O.primal.ProximalPoint(S.lib(rng.random() < .2, g), x0.copy(), tau, niter=1200)
    sc = 1 + float(np.abs(x).max())
    r = float(np.abs(g.prox(x, 1.) - x).max())
    if r > max(1e-5, 20 * g.acc) * sc:
        x = O.primal.ProximalPoint(g.make(), x0.copy(), tau, niter=15000)
        r = float(np.abs(g.prox(x, 1.) - x).max())
    m.le(r, 0, "a minimiser is a fixed point of the proximal step", max(1e-5, 20 * g.acc) * sc, g=g.name, cfg=g.cfg, x=x)
    if not g.ind:
        J = g.f(x)
        for d in [x0] + [x + S.vec(rng, g.n, cplx) * gen.logu(rng, 1e-4, 10) for _ in range(8)]:
            m.le(J, g.f(d), "no point is lower than the minimiser", max(1e-5, 20 * g.acc) * (1 + abs(J)) * sc, g=g.name, other=d, x=x)
    m.event("proximal point: " + ("set" if g.ind else "function"))
    m.nontrivial(x0.tobytes(), tau)


def bilinear(m):
    """Alternating linearised minimisation ends at a critical point."""
    rng = m.rng
    O = S.O()
    kind = m.index % 2
    b, make, X, Y = S.bilinear(rng, False, op=False)
    def term(n):
        k = int(rng.integers(0, 4))
        s = gen.logu(rng, .01, .15)
        if k == 0:
            return C.Spec("L1", lambda: S.P().L1(s), n, lambda x: s * float(np.abs(x).sum()), lambda x, t: C.soft(x, t * s))
        if k == 1:
            return C.Spec("Box", lambda: S.P().Box(-1., 1.5), n, lambda x: 0., lambda x, t: np.clip(x, -1., 1.5), ind=True)
        if k == 2:
            return C.Spec("L2", lambda: S.P().L2(sigma=s), n, lambda x: s / 2 * float(np.sum(np.abs(x) ** 2)), lambda x, t: x / (1 + t * s))
        return C.Spec("Euclidean", lambda: S.P().Euclidean(s), n, lambda x: s * float(np.linalg.norm(x)), lambda x, t: C.shrink(x, t * s))
    f, g = term(X.size), term(Y.size)
    x0, y0 = X.ravel().copy(), Y.ravel().copy()
    H = make()
    gf, gg = [gen.logu(rng, 1.05, 2) if rng.random() < .6 else None for _ in range(2)]
    m.describe(f=f.name, g=g.name, kind=kind, gammaf=gf, gammag=gg, X=X, Y=Y, d=b.d if hasattr(b, "d") else None)

    def run(N):
        H = make()
        if kind == 0:
            return O.palm.PALM(H, f.make(), g.make(), x0.copy(), y0.copy(), gammaf=gf, gammag=gg, niter=N)
        return O.palm.iPALM(H, f.make(), g.make(), x0.copy(), y0.copy(), gammaf=gf, gammag=gg, a=[.2, .2], niter=N)

    def resid(x, y):
        Xm, Ym = x.reshape(X.shape), y.reshape(Y.shape)
        R = (Xm @ Ym).ravel() - H.d.ravel()
        R = R.reshape(X.shape[0], Y.shape[1])
        gx, gy = (R @ Ym.T).ravel(), (Xm.T @ R).ravel()
        lx, ly = 1 + np.linalg.norm(Ym) ** 2, 1 + np.linalg.norm(Xm) ** 2
        rx = np.abs(f.prox(x - gx / lx, 1 / lx) - x).max()
        ry = np.abs(g.prox(y - gy / ly, 1 / ly) - y).max()
        return float(max(rx, ry)) / (1 + max(np.abs(x).max(), np.abs(y).max()))
    try:
        x, y = run(1200)[:2]
    except ZeroDivisionError:       # both factors vanished: the linearisation constant is zero, which the method excludes
        m.event("factors vanished")
        return
    e = resid(x, y)
    if not e <= 1e-4:
        x, y = run(9600)[:2]
        e2 = resid(x, y)
        if e2 > 1e-2 and not e2 < .9 * e:
            m.ok(False, "the run ends at a critical point", residual=e2, before=e, x=x, y=y, kind=kind)
        m.event("slow bilinear run")
        return
    m.ok(True, "critical", residual=e)
    if m.index % 4 == 0:
        x, y = run(9600)[:2]
        m.le(resid(x, y), 0, "the run stays at the critical point", max(1e-6, 2 * e), residual=e, x=x, y=y, kind=kind)
    m.event("critical point: " + ("PALM" if kind == 0 else "iPALM"))
    m.nontrivial(x.tobytes(), y.tobytes())


def limits(m):
    """Bregman iterations, sparse relaxed regression and plug-and-play end where their documentation says."""
    rng = m.rng
    P, O = S.P(), S.O()
    which = m.index % 4
    if which < 2:
        # Bregman: among the minimisers of f the one with the least g
        cplx = bool(rng.random() < .2)
        n = int(rng.integers(2, 6))
        k = int(rng.integers(1, n))
        A = gen.mat(rng, k, n, cplx, cond=2.)
        z = S.vec(rng, n, cplx, 1.)
        b = A @ z
        f = P.L2(Op=gen.dense(A), b=b)
        alpha = gen.logu(rng, .3, 3)
        l2 = which == 0
        x0 = st(rng, n, cplx) / (5 if l2 else 60)
        sg = gen.logu(rng, .3, 2)
        g = P.L2(sigma=sg) if l2 else P.L1(sg)
        warm = bool(rng.random() < .5)
        inner = int(rng.integers(0, 3))
        kw = [dict(solver=O.primal.ADMM, tau=1., niter=100), dict(solver=O.primal.ProximalGradient, tau=1., niter=150),
              dict(solver=O.primal.LinearizedADMM, A=gen.dense(np.eye(n, dtype=A.dtype)), tau=1., mu=.95, niter=150)][inner]
        m.describe(which="Bregman", l2=l2, alpha=alpha, warm=warm, inner=inner, A=A, b=b)
        N = 40
        x = O.bregman.Bregman(f, g, x0, alpha=alpha, niterouter=N, warm=warm, tolx=0., tolf=0., **kw)
        e = float(np.linalg.norm(A @ x - b))
        if e > 1e-4:
            kw["niter"] *= 8
            x = O.bregman.Bregman(f, g, x0, alpha=alpha, niterouter=2 * N, warm=warm, tolx=0., tolf=0., **kw)
            e2 = float(np.linalg.norm(A @ x - b))
            if e2 > 1e-4 and (e2 < .8 * e or not l2):       # sparse problems wait long on plateaus
                m.event("slow Bregman")
                return
            e = e2
        m.le(e, 0, "Bregman iterations reach the data", 1e-4 * (1 + np.linalg.norm(b)), x=x, inner=inner)
        best = np.linalg.pinv(A) @ b
        if l2:
            m.close(x, best, "Bregman limit is the least g among the minimisers of f", 2e-3 * (1 + np.abs(best).max()), inner=inner, alpha=alpha)
        else:
            N_ = np.linalg.svd(A)[2][k:].conj().T
            J = float(np.abs(x).sum())
            for q in [best, z] + [x + N_ @ S.vec(rng, n - k, cplx, gen.logu(rng, 1e-3, 2)) for _ in range(12)]:
                m.le(J, float(np.abs(q).sum()), "Bregman limit is the least g among the minimisers of f", 2e-2 * (1 + J), inner=inner, alpha=alpha, other=q, x=x)
        m.event("Bregman limit " + ("l2" if l2 else "l1"))
        m.nontrivial(A.tobytes(), b.tobytes(), which)
        return
    if which == 2:
        n = int(rng.integers(1, 6))
        mm, p = n + int(rng.integers(0, 3)), int(rng.integers(1, 7))
        A, R = gen.mat(rng, mm, n, cond=3.), gen.mat(rng, p, n)
        kappa, eps = gen.logu(rng, .3, 3), gen.logu(rng, .05, 1)
        d = rng.standard_normal(mm) * 2
        # eliminating z leaves a Huber-type penalty: 1/2|Ax-d|^2 + eps * huber(Rx)
        def hub(v, t):
            r = np.abs(v)
            a = eps / kappa
            return np.where(r > a + t * eps, v - t * eps * np.sign(v), v / (1 + t * kappa))
        h = C.Spec("hub", None, p, None, hub)
        try:
            x, sc = optimum(A.T @ A, A.T @ d, [(R, h, 1.)], False)
        except Skip:
            return
        x0 = rng.standard_normal(n) * 3 if rng.random() < .5 else None
        ad = bool(rng.random() < .5)
        m.describe(which="SR3", adaptive=ad, kappa=kappa, eps=eps)
        got = O.sr3.SR3(gen.linop(rng, A), gen.linop(rng, R), d.copy(), kappa, eps, x0=x0, adaptive=ad, iter_lim_outer=3000)
        m.close(got, x, "SR3 solution", 3e-3 * sc, adaptive=ad, kappa=kappa, eps=eps, A=A, R=R, d=d)
        m.event("SR3")
        m.nontrivial(d.tobytes())
        return
    # plug-and-play with a proximal denoiser solves the composite problem
    n = int(rng.integers(1, 6))
    f = quad(rng, n, False)
    g = S.anyf(rng, n, False, False)
    try:
        x, sc = optimum(f.H, f.c, [(None, g, 1.)], False)
    except Skip:
        return
    tau = gen.logu(rng, .5, 2) / np.sqrt(f.L * f.mu)
    kind = int(rng.integers(0, 3))
    den = lambda v, s: g.prox(np.asarray(v).ravel(), s).reshape(np.shape(v))
    x0 = st(rng, n, False)
    sol = [O.primal.ADMM, O.primal.ProximalGradient, O.primal.DouglasRachfordSplitting][kind]
    m.describe(which="PlugAndPlay", f=f.name, g=g.name, kind=kind)
    t = .9 / f.L if kind == 1 else tau
    # denoisers are handed the noise level sqrt-free: whatever they are handed, at the fixed point it is tau
    lev = []

    def den2(v, s):
        lev.append(float(np.max(s)))
        return g.prox(np.asarray(v).ravel(), t).reshape(np.shape(v))
    run = lambda N: O.pnp.PlugAndPlay(as_prox(rng, f) if kind != 1 else S.lib(False, f), den2, (n,), x0.copy(), solver=sol, tau=t, niter=N)
    def pick(N):
        r = run(N)
        return r[0] if isinstance(r, tuple) else r
    settle(m, "PlugAndPlay", pick, 600, x, sc, 2e-5, opt=dict(kind=kind, tau=t))
    m.nontrivial(x.tobytes(), kind)


QUICK_MULT = 1
GROUPS = [("composite", composite, 330, 4000), ("analysis", analysis, 150, 2000), ("several", several, 80, 1600), ("point", point, 80, 2000), ("bilinear", bilinear, 40, 900), ("limits", limits, 60, 400)]
