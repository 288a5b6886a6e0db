"""P07: gradients are the derivative of the functional they belong to."""
import numpy as np

import catalog as C
import gen

PROP = "P07"
RULE = ("one case = one functional with a gradient (or the Moreau envelope of one without), drawn options and a point "
        "where the derivative exists; non-trivial when the gradient is non-zero")

GR = dict(L2=C.g_l2, L2Convolve=C.g_l2conv, Euclidean=C.g_euclid, Quadratic=C.g_quadratic, Nonlinear=C.g_nonlinear,
          VStack=C.g_vstack)
ENV = {**{k: v for k, v in C.CONVEX.items() if k not in GR}, **C.SETS}


def directional(f, x, d, h0):
    """Richardson-extrapolated central difference of a real value along d, with an error estimate."""
    def c(h):
        return (f(x + h * d) - f(x - h * d)) / (2 * h)
    a, b, e = c(h0), c(h0 / 2), c(h0 / 4)
    r1, r2 = (4 * b - a) / 3, (4 * e - b) / 3
    r = (16 * r2 - r1) / 15
    return r, abs(r - r2)


def check_derivative(m, f, g, x, what, h=1e-2, **kw):
    rng = m.rng
    for _ in range(2):
        d = rng.standard_normal(x.shape)
        if np.iscomplexobj(x):
            d = d + 1j * rng.standard_normal(x.shape)
        d /= np.linalg.norm(d)
        sc = max(1.0, float(np.abs(x).max()))
        num, err = directional(f, x, d, h * sc)
        fs = max(abs(float(f(x))), 1e-12)
        ana = C.rdot(g, d)
        m.ok(abs(num - ana) <= 20 * err + 1e-9 * fs / (h * sc) + 1e-7 * (1 + float(np.linalg.norm(g))),
             what + ": directional derivative of its own value", numeric=num, analytic=ana, err=err, x=x, d=d, **kw)


def own(m):
    rng = m.rng
    s = C.pick(m, GR, 0.3)
    if s.grad is None:
        s = C.g_l2(rng)
    op = s.make()
    m.ok(op.hasgrad is True, "declares a gradient", spec=s.name)
    for rep in range(2):
        x = s.draw(rng, 1.0, kind=None if s.extreme else "normal")
        if s.name == "Euclidean" and np.linalg.norm(x) < 1e-6:
            x = x + 1.0
        m.describe(spec=s.name, cfg=s.cfg, x=x)
        if "Euclidean" in s.name and s.name.startswith("VStack"):
            x = x + rng.standard_normal(x.shape)
        g = op.grad(x.copy())
        m.event("gradients")
        ref = s.grad(x)
        sc = s.scale(x, ref)
        m.close(np.asarray(g), np.broadcast_to(ref, x.shape), "gradient equals the closed form", 1e-9 * sc * x.size, x=x, spec=s.name, cfg=s.cfg)
        if np.abs(x).max() < 1e3:
            if "Euclidean" not in s.name or np.linalg.norm(x) > .3:
                check_derivative(m, lambda z: float(op(z)), g, x, "gradient", h=1e-2 if "Euclidean" not in s.name else 1e-3 * min(1, np.linalg.norm(x)), spec=s.name, cfg=s.cfg)
        if np.any(g):
            m.nontrivial(s.name, x.tobytes())


def envelope(m):
    """Operators without a gradient of their own give that of their Moreau envelope."""
    rng = m.rng
    s = C.pick(m, ENV, 0.25)
    if s.prox is None or s.acc > 1e-7:
        return
    op = s.make()
    if not s.hasgrad and not s.name.startswith(("VStack", "TV")):
        m.ok(not op.hasgrad, "no gradient is declared where the functional has none of its own", spec=s.name)
    sm = 1.0
    if rng.random() < .7:
        sm = gen.logu(rng, .1, 10)
        op.sigmame = sm
    x = s.draw(rng, sm, kind="normal" if rng.random() < .5 else None)
    m.describe(spec=s.name, cfg=s.cfg, x=x, envelope=sm)
    g = op.grad(x.copy())
    ref = (x - s.prox(x, sm)) / sm
    sc = s.scale(x)
    m.close(g, ref, "envelope gradient equals (x - prox)/sigma", (1e-9 + 2 * s.acc) * sc / min(sm, 1) + s.ball_tol / sm, x=x, spec=s.name, cfg=s.cfg, envelope=sm)
    if np.abs(x).max() < 100 and not s.ind and "Box" not in s.name:
        def env(z):
            p = op.prox(z.copy(), sm)
            return float(op(p)) + float(np.sum(np.abs(z - p) ** 2)) / (2 * sm)
        if s.value and s.acc < 1e-9 + 1e-12:
            d = rng.standard_normal(x.shape)
            if np.iscomplexobj(x):
                d = d + 1j * rng.standard_normal(x.shape)
            d /= np.linalg.norm(d)
            # the envelope has a 1/sigma-Lipschitz gradient: bracket the difference quotient
            h = 1e-3 * max(1.0, float(np.abs(x).max()))
            q = (env(x + h * d) - env(x - h * d)) / (2 * h)
            m.le(abs(q - C.rdot(g, d)), h / (2 * sm), "envelope gradient is the derivative of the envelope",
                 1e-9 * abs(env(x)) / h + 1e-7 * (1 + np.linalg.norm(g)) + 1e-12 * sc ** 2 / sm / h, x=x, spec=s.name, cfg=s.cfg, envelope=sm)
    if np.any(g):
        m.nontrivial(s.name, x.tobytes())


def combined(m):
    """Gradients of sums with vectors, scalings, affine precompositions and stacks, nested."""
    import pyproximal as pp
    rng = m.rng
    cplx = bool(rng.random() < .35)

    def arr(k):
        return rng.standard_normal(k) + (1j * rng.standard_normal(k) if cplx else 0.)
    for _ in range(100):
        s = [C.g_l2, C.g_quadratic, C.g_euclid][int(rng.integers(0, 3))](rng, cplx)
        if s.acc < 1e-6:
            break
    n = s.n
    op, f, g = s.make(), s.f, s.grad
    txt = s.name
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(0, 5))
        v = arr(n) if rng.random() < .8 else rng.standard_normal(n)
        if k == 0:
            op, f, g = op + v, (lambda x, f=f, v=v: f(x) + C.rdot(v, x)), (lambda x, g=g, v=v: g(x) + v)
        elif k == 1:
            op, f, g = op - v, (lambda x, f=f, v=v: f(x) - C.rdot(v, x)), (lambda x, g=g, v=v: g(x) - v)
        elif k == 2:
            w = gen.logu(rng, .2, 5)
            op, f, g = w * op, (lambda x, f=f, w=w: w * f(x)), (lambda x, g=g, w=w: w * g(x))
        elif k == 3:
            a = float(rng.choice([-2., -.5, .5, 3.]))
            b = v if rng.random() < .5 else float(v[0].real)
            op, f, g = op.precomposition(a, b), (lambda x, f=f, a=a, b=b: f(a * x + b)), (lambda x, g=g, a=a, b=b: a * g(a * x + b))
        else:
            s2 = C.g_l2(rng, cplx, which=int(rng.integers(0, 2)))
            op = pp.VStack([op, s2.make()], nn=[n, s2.n])
            f, g = (lambda x, f=f, n=n, s2=s2: f(x[:n]) + s2.f(x[n:])), (lambda x, g=g, n=n, s2=s2: np.concatenate([g(x[:n]), s2.grad(x[n:])]))
            n += s2.n
        txt += "/" + str(k)
    x = arr(n) * gen.logu(rng, .3, 10)
    m.describe(expr=txt, x=x)
    m.event("combination of " + ("complex" if cplx else "real") + " data")
    m.close(float(np.real(op(x.copy()))), f(x), "value of a combination", 1e-9 * max(1, abs(f(x))) * (1 + np.abs(x).max()) ** 2, expr=txt, x=x, cfg=s.cfg)
    m.ok(bool(op.hasgrad), "combination of functionals with gradients declares a gradient", expr=txt)
    got, ref = op.grad(x.copy()), g(x)
    m.close(got, ref, "gradient of a combination", 1e-9 * max(1, np.abs(ref).max()) * (1 + np.abs(x).max()), expr=txt, x=x, cfg=s.cfg)
    if "Euclidean" not in txt:
        check_derivative(m, lambda z: float(np.real(op(z))), got, x, "gradient of a combination", expr=txt)
    m.nontrivial(txt, x.tobytes())


def options(m):
    """Linear-term gradient switch, padded convolution transforms, stacks with mixed gradients, complex models."""
    import pyproximal as pp
    rng = m.rng
    k = m.index % 4
    if k == 0:
        n = int(rng.integers(1, 6))
        sg, al = gen.logu(rng, .1, 5), gen.logu(rng, .1, 5)
        q, b = rng.standard_normal(n), rng.standard_normal(n)
        x = rng.standard_normal(n)
        mode = int(rng.integers(0, 3))
        kw = [{}, dict(b=b), None][mode]
        if kw is None:
            A = rng.standard_normal((4, n))
            bb = rng.standard_normal(4)
            kw, base = dict(Op=gen.linop(rng, A), b=bb), sg * A.T @ (A @ x - bb)
        else:
            base = sg * (x - (b if mode else 0))
        for qg in (True, False):
            g = pp.L2(sigma=sg, q=q, alpha=al, qgrad=qg, **kw).grad(x.copy())
            m.close(g, base + (al * q if qg else 0), "linear term enters the gradient exactly when asked", 1e-9 * (1 + np.abs(base).max() + al * np.abs(q).max()), x=x, qgrad=qg, mode=mode)
        m.nontrivial("q", x.tobytes())
    elif k == 1:
        # convolution with more transform samples than unknowns: value and gradient of the padded model
        dims = [None, (3, 4), (2, 3, 4)][int(rng.integers(0, 3))]
        d = -1 if dims is None else int(rng.integers(0, len(dims)))
        shp = (int(rng.integers(2, 8)),) if dims is None else dims
        L = shp[d]
        nfft = L + int(rng.integers(0, 6))
        nh = int(rng.integers(1, nfft + 1))
        h, sg = rng.standard_normal(nh), gen.logu(rng, .1, 4)
        bs = list(shp)
        bs[d] = nfft if rng.random() < .5 else L
        b = rng.standard_normal(bs)
        kw = {} if dims is None else dict(dims=dims, dir=d)
        op = pp.L2Convolve(h, b, nfft=nfft, sigma=sg, **kw)
        M = np.zeros((nfft, L))
        for i in range(nfft):
            for j in range(nh):
                c = (i - j) % nfft
                if c < L:
                    M[i, c] += h[j]
        x = rng.standard_normal(shp)
        pad = [(0, 0)] * len(shp)
        pad[d] = (0, nfft - bs[d])
        bp = np.pad(b, pad)

        def ap(M, z):
            return np.moveaxis(np.tensordot(M, np.moveaxis(z, d, 0), axes=1), 0, d)
        r = ap(M, x) - bp
        m.describe(h=h, dims=dims, dir=d, nfft=nfft, x=x)
        m.close(float(op(x.ravel())), sg / 2 * float(np.sum(r ** 2)), "padded convolution: value", 1e-9 * (1 + np.sum(r ** 2) * sg), nfft=nfft, dims=dims, dir=d, h=h)
        m.close(op.grad(x.ravel()), sg * ap(M.T, r).ravel(), "padded convolution: gradient", 1e-9 * (1 + np.sum(r ** 2) * sg), nfft=nfft, dims=dims, dir=d, h=h)
        t = gen.logu(rng, .1, 5)
        m.close(op.prox(x.ravel(), t).shape, (x.size,), "padded convolution: prox has the size of its input", 0) if False else \
            m.ok(op.prox(x.ravel(), t).shape == (x.size,), "padded convolution: prox has the size of its input", nfft=nfft, dims=dims)
        m.nontrivial("conv", x.tobytes())
    elif k == 2:
        a, b = C.g_simple(rng), C.g_l2(rng, which=int(rng.integers(0, 2)))
        x = rng.standard_normal(a.n + b.n)
        op = pp.VStack([a.make(), b.make()], nn=[a.n, b.n])
        ga = a.grad(x[:a.n]) if a.grad is not None else x[:a.n] - a.prox(x[:a.n], 1.0)
        m.close(op.grad(x.copy()), np.concatenate([ga, b.grad(x[a.n:])]), "stack gradient is the stack of gradients", 1e-8 * (1 + np.abs(x).max()) * max(1, a.scale(x)), x=x, specs=[a.name, b.name])
        m.ok(bool(op.hasgrad), "stack with a differentiable part declares a gradient")
        N = a.n + b.n
        import pylops
        perm = rng.permutation(N)
        ia, ib = perm[:a.n], perm[a.n:]
        op = pp.VStack([a.make(), b.make()], restr=[pylops.Restriction(N, ia), pylops.Restriction(N, ib)])
        ref = np.zeros(N)
        ref[ia] = a.grad(x[ia]) if a.grad is not None else x[ia] - a.prox(x[ia], 1.0)
        ref[ib] = b.grad(x[ib])
        m.close(op.grad(x.copy()), ref, "stack gradient is the stack of gradients (index sets)", 1e-8 * (1 + np.abs(x).max()) * max(1, a.scale(x)), x=x, specs=[a.name, b.name])
        m.nontrivial("stack", x.tobytes())
    else:
        s = C.g_l2(rng, cplx=True)
        op = s.make()
        x = s.draw(rng, 1.0, kind="normal")
        g = op.grad(x.copy())
        check_derivative(m, lambda z: float(op(z)), g, x, "complex gradient", spec=s.name)
        m.nontrivial("complex", x.tobytes())


GROUPS = [("own", own, 4000, 20000), ("envelope", envelope, 4000, 20000), ("combined", combined, 2400, 12000),
          ("options", options, 2400, 12000)]
