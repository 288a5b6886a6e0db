"""P22: bilinear models are consistent with their misfit; PALM and iPALM follow their recursion."""
import numpy as np

import catalog as C
import gen
import solvers as S
from p16 import follow

PROP = "P22"
RULE = ("one case = every view of one bilinear model (value, partial products, gradients, Lipschitz constants, state) against an "
        "independently written misfit, or one alternating minimisation run compared iterate by iterate; non-trivial when the model is not identically zero")


def model(m):
    rng = m.rng
    cplx = bool(rng.random() < .35)
    b, make, X, Y = S.bilinear(rng, cplx)
    H = make()
    tall = rng.random() < .5
    if tall:        # state given as flat vectors after an update
        x1, y1 = S.vec(rng, b.n * b.k, cplx, 1.), S.vec(rng, b.k * b.m, cplx, 1.)
        how = int(rng.integers(0, 3))
        if how == 0:
            H.updatex(x1.copy()), H.updatey(y1.copy())
        elif how == 1:
            H.updatexy(np.concatenate([x1, y1]))
        else:
            H.updatex(x1.copy())
            y1 = Y.ravel()
    else:
        x1, y1 = X.ravel(), Y.ravel()
    sx = lambda: np.array(H.x, copy=True).ravel()
    sy = lambda: np.array(H.y, copy=True).ravel()
    m.describe(shape=(b.n, b.k, b.m), op=b.B is not None, complex=cplx, flat=bool(tall))
    m.close(sx(), x1, "state x", 0)
    m.close(sy(), y1, "state y", 0)
    x, y = S.vec(rng, b.n * b.k, cplx), S.vec(rng, b.k * b.m, cplx)
    if rng.random() < .1:
        x = np.zeros_like(x)
    sc = 1 + b.f(x, y) + np.abs(b.d).max() ** 2 + b.f(x1, y) + b.f(x, y1)
    m.le(abs(H(x, y) - b.f(x, y)), 0, "value at (x, y)", 1e-10 * sc)
    m.le(abs(H(np.concatenate([x, y])) - b.f(x, y)), 0, "value at the concatenated variables", 1e-10 * sc)
    m.ok(isinstance(H(x, y), float) or np.ndim(H(x, y)) == 0, "the value is a scalar")
    m.event("values")
    tol = 1e-10 * sc * (1 + np.abs(x).max() + np.abs(y).max() + np.abs(x1).max() + np.abs(y1).max())
    if b.B is not None:
        tol *= 1 + np.linalg.norm(b.B, 2)
    if rng.random() < .3:
        tol = tol
    m.close(H._matvecx(x), b.M(x, y1), "product with the current y", tol)
    m.close(H._matvecy(y), b.M(x1, y), "product with the current x", tol)
    m.close(H.gradx(x), b.gx(x, y1), "partial gradient in x at the current y", tol)
    m.close(H.grady(y), b.gy(x1, y), "partial gradient in y at the current x", tol)
    m.close(H.grad(np.concatenate([x, y])), np.concatenate([b.gx(x, y1), b.gy(x1, y)]), "gradient", tol)
    # finite differences of the model's own value along random directions
    for nm, g, fun in (("x", H.gradx(x), lambda v: H(v, y1)), ("y", H.grady(y), lambda v: H(x1, v))):
        p = x if nm == "x" else y
        u = S.vec(rng, p.size, cplx, 1.)
        e = 1e-4
        fd = (fun(p + e * u) - fun(p - e * u)) / (2 * e)
        m.le(abs(fd - C.rdot(g, u)), 0, "gradient in " + nm + " against the value", 1e-5 * sc * (1 + np.abs(u).max()) ** 4 * (1 + np.abs(p).max()) ** 2)
    if b.n != b.m:
        v, which = (x, "x") if rng.random() < .5 else (y, "y")
        if b.n * b.k != b.m * b.k:
            m.close(H.matvec(v), b.M(x, y1) if which == "x" else b.M(x1, y), "product chosen from the size", tol)
    else:
        try:
            H.matvec(x)
            m.ok(False, "an ambiguous product is refused")
        except NotImplementedError:
            m.event("refusals")
    if b.B is None:
        m.le(abs(H.lx(x) - b.lx(x)), 0, "Lipschitz constant from x", 1e-10 * (1 + b.lx(x)))
        m.le(abs(H.ly(y) - b.ly(y)), 0, "Lipschitz constant from y", 1e-10 * (1 + b.ly(y)))
        v = S.vec(rng, x.size, cplx)
        H.updatey(y.copy())
        m.le(np.linalg.norm(H.gradx(x) - H.gradx(v)), H.ly(y) * np.linalg.norm(x - v), "ly bounds the gradient in x", 1e-9 * sc * (1 + np.linalg.norm(y) ** 2))
        H.updatey(y1.copy())
        H.updatex(x.copy())
        v = S.vec(rng, y.size, cplx)
        m.le(np.linalg.norm(H.grady(y) - H.grady(v)), H.lx(x) * np.linalg.norm(y - v), "lx bounds the gradient in y", 1e-9 * sc * (1 + np.linalg.norm(x) ** 2))
        H.updatex(x1.copy())
    else:
        for fn, v in ((H.lx, x), (H.ly, y)):
            try:
                fn(v)
                m.ok(False, "a Lipschitz constant that is not defined is refused")
            except ValueError:
                m.event("refusals")
    m.close(sx(), x1, "the state x survives every evaluation", 0)
    m.close(sy(), y1, "the state y survives every evaluation", 0)
    m.le(abs(H(x, y) - b.f(x, y)), 0, "value after a history", 1e-10 * sc)
    m.event("models")
    if b.f(x, y) > 1e-9:
        m.nontrivial(x.tobytes(), y.tobytes())


def alternate(m):
    follow(m, S.PALMS, .3)


def identities(m):
    """Runs that must coincide: no inertia, state of H irrelevant, restart, one variable frozen by its regulariser."""
    rng = m.rng
    cplx = bool(rng.random() < .2)
    run = S.b_palm(rng, cplx, None, False)
    d = run.data
    b, pf, pg, gf, gg = d["b"], d["pf"], d["pg"], d["gf"], d["gg"]
    if isinstance(b, S.Had) or b.B is not None:
        gf = gg = None
    pal = S.O().palm
    import pyproximal.utils.bilinear as bl
    if isinstance(b, S.Had):
        b, mk, X, Y = S.bilinear(rng, cplx, False)
        pf = pg = None
        x0, y0 = S.vec(rng, X.size, cplx, 1.), S.vec(rng, Y.size, cplx, 1.)
    else:
        x0, y0 = run.arrays["x0"], run.arrays["y0"]
    niter = int(rng.choice([1, 2, 5, 12]))
    Bop = None if b.B is None else gen.linop(rng, b.B)

    def H():
        sh = (b.n, b.k), (b.k, b.m)
        return bl.LowRankFactorizedMatrix(S.vec(rng, b.n * b.k, cplx).reshape(sh[0]), S.vec(rng, b.k * b.m, cplx).reshape(sh[1]), b.d, Op=Bop)

    def mk(s):
        return None if s is None else s.make()
    kw = dict(gammaf=gf, gammag=gg, niter=niter)
    if min(b.lx(x0), b.ly(y0)) < 1e-3:
        return
    try:
        with np.errstate(all="ignore"):
            A = pal.PALM(H(), mk(pf), mk(pg), x0, y0, **kw)
            Bt = pal.PALM(H(), mk(pf), mk(pg), x0, y0, **kw)
            I = pal.iPALM(H(), mk(pf), mk(pg), x0, y0, a=[0., 0.], **kw)
    except ZeroDivisionError:
        m.event("degenerate Lipschitz constant")
        return
    m.describe(shape=(b.n, b.k, b.m), op=b.B is not None, **kw)
    if not (np.all(np.isfinite(A[0])) and np.all(np.isfinite(A[1]))):
        return
    for j, v in enumerate("xy"):
        m.close(A[j], Bt[j], "the result does not depend on the state of the bilinear model: " + v, 0)
        m.close(A[j], I[j], "no inertia gives the plain alternating minimisation: " + v, 0)
    hh = H()
    pal.PALM(hh, mk(pf), mk(pg), x0, y0, **kw)
    m.close(np.ravel(hh.x), A[0], "the model is left at the last x", 0)
    m.close(np.ravel(hh.y), A[1], "the model is left at the last y", 0)
    m.nontrivial(A[0].tobytes(), str(kw))


class Full:
    """The same misfit as an ordinary functional of the stacked variables, with its full gradient and no state."""
    hasgrad = True

    def __init__(self, b):
        self.b, self.nx = b, b.n * b.k

    def __call__(self, z):
        return self.b.f(z[:self.nx], z[self.nx:])

    def grad(self, z):
        x, y = z[:self.nx], z[self.nx:]
        return np.concatenate([self.b.gx(x, y), self.b.gy(x, y)])


def joint(m):
    """Both factors updated together: the proximal gradient method on a bilinear model is the one on its misfit."""
    rng = m.rng
    cplx = bool(rng.random() < .3)
    b, make, X, Y = S.bilinear(rng, cplx)
    x0 = np.concatenate([X.ravel(), Y.ravel()])
    g = S.anyf(rng, x0.size, cplx, False)
    L = (np.linalg.norm(X) ** 2 + np.linalg.norm(Y) ** 2 + np.linalg.norm(b.d)) * (1 if b.B is None else 1 + np.linalg.norm(b.B, 2) ** 2)
    back = bool(rng.random() < .4)
    kw = dict(tau=gen.logu(rng, .02, .4) / (1 + L) * (1 if not back else 10), epsg=float(rng.choice([1., .3, 2.])), niter=int(rng.choice([1, 3, 8])),
              eta=float(rng.choice([1., .7])), backtracking=back, beta=.5, acceleration=[None, "None"][int(rng.integers(0, 2))])
    if back:
        kw["niter"] = min(kw["niter"], 3)
        if rng.random() < .3:
            kw["tau"] = None
    m.describe(shape=(b.n, b.k, b.m), op=b.B is not None, g=g.name, **kw)
    H, fa, fb = make(), [], []
    PG = S.O().primal.ProximalGradient
    with np.errstate(all="ignore"):
        rb = PG(Full(b), g.make(), x0.copy(), callback=lambda v: fb.append(v.copy()), **kw)
        ra = PG(H, g.make(), x0.copy(), callback=lambda v: fa.append(v.copy()), **kw)
    if not np.all(np.isfinite(rb)) or np.abs(rb).max() > 1e4 * (1 + np.abs(x0).max()):
        m.event("diverged")
        return
    m.ok(len(fa) == len(fb), "number of iterations", got=len(fa), want=len(fb))
    sc = 1 + max(np.abs(v).max() for v in fb)
    for i, (u, v) in enumerate(zip(fa, fb)):
        if not m.close(u, v, "joint iterate equals the proximal gradient iterate of the misfit", (1e-9 if not back else 1e-5) * sc, i=i):
            return
        m.event("joint iterates")
    m.close(ra, fa[-1], "the result is the last iterate", 0)
    m.close(np.concatenate([np.ravel(H.x), np.ravel(H.y)]), ra, "the model is left at the last iterate", 0)
    if np.abs(ra - x0).max() > 1e-9:
        m.nontrivial(x0.tobytes(), str(kw))


GROUPS = [("model", model, 2500, 10000), ("alternate", alternate, 2500, 10000), ("identities", identities, 1000, 4000),
          ("joint", joint, 1500, 6000)]
