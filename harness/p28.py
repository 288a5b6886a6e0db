"""P28: total-variation denoising in one to four dimensions against an independently certified minimiser."""
import itertools

import numpy as np

import catalog as C
import gen

PROP = "P28"
RULE = ("one case = one array of one to four dimensions (extents 2..7), one weight and step; the proximal step is compared with an independent dual solver whose duality gap bounds its own "
        "error, with the rate the accelerated dual method guarantees for its iteration count, and with itself on transformed inputs; non-trivial when the step moves the input "
        "and the answer is not constant")


def P():
    return C.P()


def diffs(x):
    """Forward differences along every axis, zero at the end: shape (d,) + x.shape."""
    g = np.zeros((x.ndim,) + x.shape, x.dtype if x.dtype.kind in "fc" else float)
    for a in range(x.ndim):
        lo = [slice(None)] * x.ndim
        hi = [slice(None)] * x.ndim
        lo[a], hi[a] = slice(None, -1), slice(1, None)
        g[(a,) + tuple(lo)] = x[tuple(hi)] - x[tuple(lo)]
    return g


def adj(p):
    """Adjoint of diffs."""
    x = np.zeros(p.shape[1:], p.dtype)
    for a in range(x.ndim):
        lo = [slice(None)] * x.ndim
        hi = [slice(None)] * x.ndim
        lo[a], hi[a] = slice(None, -1), slice(1, None)
        q = p[a][tuple(lo)]
        x[tuple(hi)] += q
        x[tuple(lo)] -= q
    return x


def tv(x):
    return float(np.sqrt((np.abs(diffs(x)) ** 2).sum(0)).sum())


def minimiser(y, gam, target=1e-11, niter=12000):
    """argmin gam TV(x) + |x-y|^2/2: (x, bound on the distance to it, a dual point)."""
    L = 4. * y.ndim
    p = np.zeros((y.ndim,) + y.shape, y.dtype)
    q, t = p, 1.
    best = (y, np.inf, p)
    sc = 1e-300 + float((np.abs(y - y.mean()) ** 2).sum())
    for i in range(niter):
        w = q + diffs(y - gam * adj(q)) / (L * gam)
        pn = w / np.maximum(1., np.sqrt((np.abs(w) ** 2).sum(0)))
        d = pn - p
        if np.real(np.vdot(q - pn, d)) > 0:      # restart
            q, t = pn, 1.
        else:
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            q, t = pn + (t - 1) / tn * d, tn
        p = pn
        if i % 50 == 49 or i == niter - 1:
            x = y - gam * adj(p)
            g = diffs(x)
            gap = gam * float(np.sqrt((np.abs(g) ** 2).sum(0)).sum() - np.real(np.vdot(p, g)))
            gap = max(gap, 0.)
            if gap < best[1]:
                best = (x, gap, p)
            if gap <= target * sc:
                break
    x, gap, p = best
    return x, float(np.sqrt(2 * gap)) + 1e-13 * float(np.abs(y).max(initial=0)) * y.size, p


def draw(rng, nd=None, cplx=None):
    nd = int(rng.choice([1, 1, 2, 2, 3, 4])) if nd is None else nd
    hi = {1: 25, 2: 8, 3: 5, 4: 4}[nd]
    dims = tuple(int(rng.integers(2, hi)) if rng.random() < .8 else int(rng.integers(2, 4)) for _ in range(nd))
    cplx = bool(rng.random() < .15) if cplx is None else cplx
    k = rng.integers(0, 6)
    if k == 0:       # piecewise constant plus noise
        y = np.zeros(dims)
        for _ in range(2):
            y[tuple(slice(int(rng.integers(0, q)), None) for q in dims)] += rng.standard_normal() * 2
        y = y + .1 * rng.standard_normal(dims)
    elif k == 1:     # ties
        y = rng.integers(-2, 3, dims).astype(float)
    elif k == 2:     # ramp
        y = sum(np.arange(q).reshape([-1 if i == a else 1 for i in range(nd)]) * rng.standard_normal() for a, q in enumerate(dims)) + np.zeros(dims)
    elif k == 3:     # spike
        y = np.zeros(dims)
        y[tuple(int(rng.integers(0, q)) for q in dims)] = 3.
    else:
        y = rng.standard_normal(dims)
    y = y * gen.logu(rng, .1, 20) + (rng.standard_normal() * 3 if rng.random() < .5 else 0.)
    if cplx:
        y = y * np.exp(1j * rng.standard_normal()) + 1j * rng.standard_normal(dims)
    return dims, np.ascontiguousarray(y), cplx


def weight(rng, y):
    """A product sigma * tau between 'hardly moves' and 'nearly flat'."""
    sp = float(np.abs(y - y.mean()).max()) + 1e-3
    return sp * gen.logu(rng, .01, 2.)


def split(rng, gam):
    s = gen.logu(rng, .05, 20)
    return s, gam / s


def make(dims, sigma, niter, rtol=0.):
    return P().TV(dims=dims, sigma=sigma, niter=niter, rtol=rtol)


def rate(y, gam, p, K):
    """What an accelerated dual method started at zero guarantees after K steps (extrapolated point)."""
    return 3 * 4 * gam * np.sqrt(y.ndim) * float(np.sqrt((np.abs(p) ** 2).sum())) / max(K, 1)


def optimum(m):
    rng = m.rng
    dims, y, cplx = draw(rng)
    gam = weight(rng, y)
    s, t = split(rng, gam)
    K = int(rng.choice([30, 100, 300, 1000, 2500]))
    m.describe(dims=dims, sigma=s, tau=t, niter=K, y=y.ravel())
    want, bound, p = minimiser(y, gam)
    flat = dims if len(dims) > 1 or rng.random() < .5 else None
    f = make(flat, s, K)
    r = np.asarray(f.prox(y.ravel().copy(), t))
    kw = dict(dims=dims, sigma=s, tau=t, niter=K, y=y.ravel())
    if not m.ok(r.shape == (y.size,), "a vector of the input's size", got=r.shape, **kw):
        return
    r = r.reshape(dims)
    e = float(np.linalg.norm(r - want))
    sp = float(np.abs(y - y.mean()).max())
    m.le(e, rate(y, gam, p, K) + bound, "the step approaches the minimiser at the guaranteed rate", 1e-9 * sp * y.size, got=r.ravel(), want=want.ravel(), **kw)
    if K == 2500:
        m.le(e, bound, "the step reaches the minimiser", 1e-3 * sp + 1e-11 * float(np.abs(y).max()) * y.size, got=r.ravel(), want=want.ravel(), **kw)
        F = lambda v: gam * tv(v) + .5 * float((np.abs(v - y) ** 2).sum())
        m.le(F(r), F(want) + gam * bound, "the step reaches the smallest objective", 1e-3 * (1e-12 + F(y)), **kw)
    m.close(np.mean(r), np.mean(y), "the mean is kept", 1e-11 * (1 + np.abs(y).max() + gam) * K ** .5, **kw)
    if not cplx:
        slack = rate(y, gam, p, K) + bound + 1e-9 * sp
        if K == 2500:
            slack = min(slack, 1e-3 * sp + bound + 1e-11 * float(np.abs(y).max()))
        m.le(r.max(), y.max(), "the result stays in the input's range", slack, **kw)
        m.le(y.min(), r.min(), "the result stays in the input's range", slack, **kw)
    # more iterations of the same operator
    m.event(f"compared in {len(dims)}-D" + (" complex" if cplx else ""))
    if np.abs(want - want.mean()).max() > 1e-3 * sp and sp > 0 and np.abs(want - y).max() > 1e-3 * sp:
        m.nontrivial(dims, y.tobytes(), gam, K)


def symmetry(m):
    rng = m.rng
    dims, y, cplx = draw(rng)
    nd = len(dims)
    gam = weight(rng, y)
    s, t = split(rng, gam)
    K = int(rng.choice([1, 2, 5, 20, 150]))
    sp = float(np.abs(y).max()) + gam
    tol = 1e-10 * sp * (1 + K)
    kw = dict(dims=dims, sigma=s, tau=t, niter=K, y=y.ravel())
    m.describe(**kw)
    go = lambda v, d=dims, s_=s, t_=t: np.asarray(make(d, s_, K).prox(v.ravel().copy(), t_)).reshape(d)
    r = go(y)
    m.close(np.mean(r), np.mean(y), "the mean is kept", tol, **kw)
    m.close(go(-y), -r, "commutes with negation", tol, **kw)
    c = rng.standard_normal() * sp
    m.close(go(y + c), r + c, "commutes with adding a constant", 10 * tol + 1e-10 * abs(c) * (1 + K), **kw)
    k = 2. ** int(rng.integers(-20, 21))
    m.close(go(y * k, dims, s * k, t) / k, r, "scales with the input", tol, k=k, **kw)
    k = gen.logu(rng, .1, 10)
    m.close(go(y, dims, s * k, t / k), r, "depends on the product of weight and step only", tol * 10, k=k, **kw)
    if nd > 1:
        perms = list(itertools.permutations(range(nd)))
        pm = perms[int(rng.integers(1, len(perms)))]
        m.close(go(np.transpose(y, pm), tuple(dims[i] for i in pm)), np.transpose(r, pm), "commutes with permuting axes", tol * 10, perm=pm, **kw)
    else:
        m.close(go(y[::-1].copy()), r[::-1], "commutes with reversal in one dimension", tol * 10, **kw)
        m.close(np.asarray(make(None, s, K).prox(y.copy(), t)), r, "dims=None means one dimension", tol, **kw)
    cst = np.full(dims, y.ravel()[0])
    m.close(go(cst), cst, "constants are returned unchanged", 1e-12 * sp, **kw)
    if cplx:
        w = np.exp(1j * rng.standard_normal())
        m.close(go(y * w), r * w, "commutes with a phase", tol * 10, **kw)
    f = make(dims, s, lambda i: K)
    m.close(np.asarray(f.prox(y.ravel().copy(), t)).reshape(dims), r, "a scheduled iteration count acts like a constant one", tol, **kw)
    g = make(dims, s, K)
    g.prox(rng.standard_normal(y.size), 1.)
    m.close(np.asarray(g.prox(y.ravel().copy(), t)).reshape(dims), r, "a second call starts afresh", tol, **kw)
    m.event(f"transformed in {nd}-D")
    if np.abs(r - y).max() > 1e-6 * sp:
        m.nontrivial(dims, y.tobytes(), gam, K)


def embedded(m):
    """An array that does not vary along some axes is denoised like the smaller array."""
    rng = m.rng
    nd = int(rng.integers(1, 4))
    dims, y, cplx = draw(rng, nd)
    dims = tuple(min(d, 5) for d in dims)
    y = np.ascontiguousarray(y[tuple(slice(0, d) for d in dims)])
    gam = weight(rng, y)
    s, t = split(rng, gam)
    ax = int(rng.integers(0, nd + 1))
    rep = int(rng.integers(2, 4))
    big = np.repeat(np.expand_dims(y, ax), rep, ax)
    K = 1500
    m.describe(dims=dims, axis=ax, sigma=s, tau=t, y=y.ravel())
    want, bound, p = minimiser(y, gam)
    pb = np.insert(np.repeat(np.expand_dims(p, ax + 1), rep, ax + 1), ax, 0., axis=0)
    r = np.asarray(make(big.shape, s, K).prox(big.ravel().copy(), t)).reshape(big.shape)
    sp = float(np.abs(y - y.mean()).max())
    for i in range(rep):
        e = float(np.linalg.norm(np.take(r, i, ax) - want))
        m.le(e, rate(big, gam, pb, K) + bound, "a repeated slice is denoised like the slice", 1e-9 * sp * y.size, slice=i, dims=dims, axis=ax, sigma=s, tau=t, y=y.ravel())
        m.le(e, bound, "a repeated slice is denoised like the slice (practical)", 1e-2 * sp + 1e-11 * float(np.abs(y).max()), slice=i, dims=dims, axis=ax, sigma=s, tau=t, y=y.ravel())
    m.event(f"embedded {nd}-D in {nd + 1}-D")
    if np.abs(want - y).max() > 1e-3 * sp:
        m.nontrivial(dims, ax, y.tobytes(), gam)


def flattening(m):
    """Beyond the critical weight the answer is the mean."""
    rng = m.rng
    dims, y, cplx = draw(rng, int(rng.integers(1, 3)))
    dims = tuple(min(d, 8) for d in dims)
    y = np.ascontiguousarray(y[tuple(slice(0, d) for d in dims)])
    # |y - mean| = adj(p) with |p| <= 1 is enough: in one dimension the critical weight is the largest partial sum
    if len(dims) == 1:
        crit = float(np.abs(np.cumsum(y - y.mean())).max())
        gam = crit * float(rng.choice([.5, .9, 1.05, 2.]))
    else:
        d0 = y - y.mean()
        gam = float(np.abs(d0).sum()) + .1
        crit = None
    if gam == 0:
        return
    s, t = split(rng, gam)
    K = 4000
    m.describe(dims=dims, sigma=s, tau=t, y=y.ravel(), critical=crit)
    r = np.asarray(make(dims, s, K).prox(y.ravel().copy(), t)).reshape(dims)
    sp = float(np.abs(y - y.mean()).max())
    if crit is None or gam > crit:
        m.close(r, np.full(dims, y.mean()), "beyond the critical weight the answer is the mean", 2e-2 * sp + 1e-12, dims=dims, sigma=s, tau=t, y=y.ravel())
        m.event("flat answers")
    else:
        # partial sums of the dual reach gam: the answer is not constant, by a margin
        m.le(float((crit - gam) / len(y)), float(np.abs(r - y.mean()).max()), "below the critical weight the answer is not constant", 1e-2 * sp, dims=dims, sigma=s, tau=t, y=y.ravel())
        m.event("non-flat answers")
        m.nontrivial(dims, y.tobytes(), gam)


def stopping(m):
    """With a tolerance the step may stop early, close to the minimiser."""
    rng = m.rng
    dims, y, cplx = draw(rng)
    gam = weight(rng, y)
    s, t = split(rng, gam)
    rtol = 10. ** -int(rng.integers(5, 10))
    if rng.random() < .4:       # the data may be in any unit
        u = gen.logu(rng, 1e-9, 1e4)
        y, gam = y * u, gam * u
        s, t = split(rng, gam)
    else:
        u = 1.
    m.describe(dims=dims, sigma=s, tau=t, rtol=rtol, y=y.ravel())
    want, bound, p = minimiser(y, gam)
    r = np.asarray(make(dims, s, 6000, rtol).prox(y.ravel().copy(), t)).reshape(dims)
    sp = float(np.abs(y - y.mean()).max())
    nr = float(np.linalg.norm(y))
    m.le(float(np.linalg.norm(r - want)), bound, "a stop by tolerance is close to the minimiser", 5e-2 * sp + 300 * rtol * nr + 1e-5 * u, dims=dims, sigma=s, tau=t, rtol=rtol, y=y.ravel(), got=r.ravel(), want=want.ravel())
    m.event(f"tolerance stops in {len(dims)}-D")
    m.nontrivial(dims, y.tobytes(), gam, rtol)


def stalling(m):
    """A stop by tolerance happens only when the answer has stopped moving (momentum makes the objective stall earlier)."""
    rng = m.rng
    nd = int(rng.choice([1, 1, 1, 2]))
    dims = tuple(int(rng.integers(2, 5)) for _ in range(nd))
    y = rng.standard_normal(dims) * gen.logu(rng, .3, 3)
    u = gen.logu(rng, 1e-9, 1e4) if rng.random() < .4 else 1.
    gam = weight(rng, y) * u
    y = y * u
    s, t = split(rng, gam)
    rtol = gen.logu(rng, 1e-4, 3e-2)
    K = 120
    r = np.asarray(make(dims, s, K, rtol).prox(y.ravel().copy(), t))
    m.describe(dims=dims, sigma=s, tau=t, rtol=rtol, y=y.ravel())
    prev, moves = None, []
    for j in range(K):
        cur = np.asarray(make(dims, s, j).prox(y.ravel().copy(), t))
        if np.array_equal(cur, r):      # the run may have stopped here
            if prev is None:
                return
            moves.append(float(np.linalg.norm(r - prev)))
            if moves[-1] == 0:
                break
        elif moves:
            break
        prev = cur
    if moves:
        m.le(min(moves), 10 * rtol * float(np.linalg.norm(r)), "a stop by tolerance happens only when the answer moves less than the tolerance", 1e-9 * (u + np.abs(y).max()),
             dims=dims, sigma=s, tau=t, rtol=rtol, y=y.ravel(), got=r)
        m.event("stops located")
        m.nontrivial(dims, y.tobytes(), gam, rtol)


def value(m):
    rng = m.rng
    dims, y, cplx = draw(rng)
    if rng.random() < .1:
        y = y * 0
    s = gen.logu(rng, .01, 50)
    f = P().TV(dims=dims, sigma=s)
    m.describe(dims=dims, sigma=s, y=y.ravel())
    v = f(y.ravel().copy())
    w = 0.
    for ix in np.ndindex(*dims):
        q = 0.
        for a in range(len(dims)):
            if ix[a] + 1 < dims[a]:
                j = ix[:a] + (ix[a] + 1,) + ix[a + 1:]
                q += abs(complex(y[j]) - complex(y[ix])) ** 2
        w += q ** .5
    kw = dict(dims=dims, sigma=s, y=y.ravel())
    m.close(v, s * w, "the value is the discrete total variation", 1e-11 * (1 + s * w + s * np.abs(y).max() * y.size), **kw)
    tol = 1e-10 * (1 + abs(v) + s * np.abs(y).max() * y.size)
    z = rng.standard_normal(dims) * np.abs(y).max()
    m.le(f((y + z).ravel()), v + f(z.ravel()), "triangle inequality", tol, **kw)
    m.close(f((y + 5.).ravel()), v, "constants do not count", tol + 1e-10 * s * y.size, **kw)
    m.close(f((-3. * y).ravel()), 3. * v, "absolutely homogeneous", 5 * tol, **kw)
    m.close(f.prox(y.ravel().copy(), 1.).shape, (y.size,), "value and step accept flat vectors", 0)
    m.close(f(y.ravel().copy()), v, "the value does not change with use", tol, **kw)
    yi = np.round(np.real(y)).astype(int)
    m.close(f(yi.ravel()), f(yi.ravel().astype(float)), "integers have the same value", tol, **kw)
    m.event(f"values in {len(dims)}-D")
    if w > 0:
        m.nontrivial(dims, y.tobytes(), s)


QUICK_MULT = 1
GROUPS = [("optimum", optimum, 200, 2400), ("symmetry", symmetry, 500, 8000), ("embedded", embedded, 60, 600), ("flattening", flattening, 50, 500), ("stopping", stopping, 150, 2400), ("stalling", stalling, 1500, 20000), ("value", value, 800, 10000)]
