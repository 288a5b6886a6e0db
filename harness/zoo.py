"""Every operator the library can build, basic or derived, as black boxes.

Used by the monitors that watch how an operator behaves (rejections, mutation, history,
schedules, finiteness, ambient state) rather than which function it computes.
"""
import numpy as np

import catalog as C
import gen


class Item:
    """make() builds a fresh operator; draw(rng, tau) an input it accepts."""

    def __init__(self, name, make, draw, *, arrays=None, sched=False, grad=None, value=True, dual=True, vectau=None,
                 iterative=False, cplx=False, logs=None, n=None, scale=1.0, det=True):
        self.name, self.make, self.draw = name, make, draw
        self.arrays = arrays or {}
        self.sched, self.grad, self.value, self.dual = sched, grad, value, dual
        self.vectau, self.iterative, self.cplx, self.logs, self.n, self.scale, self.det = vectau, iterative, cplx, logs, n, scale, det


def from_spec(s, scale=None):
    return Item(s.name, s.make, lambda r, t=1.0: s.draw(r, t, kind="normal"), arrays=s.arrays, vectau=s.vectau,
                iterative=s.acc > 1e-6 or s.name.startswith(("L2[free", "Quadratic[free", "Nonlinear", "Affine", "Simplex", "L1Ball", "NuclearBall", "Generic", "Intersection")),
                cplx=s.cplx, n=s.n, grad=s.hasgrad, scale=s.scale())


def P():
    return C.P()


def tv(rng):
    d = int(rng.integers(1, 5))
    dims = tuple(int(v) for v in rng.integers(2, 5, d))
    sigma = gen.logu(rng, .1, 3)
    niter = int(rng.integers(1, 12))
    n = int(np.prod(dims))
    return Item("TV%dd" % d, lambda: P().TV(dims=dims, sigma=sigma, niter=niter, rtol=1e-10),
                lambda r, t=1.0: r.standard_normal(n), n=n, iterative=True)


def sched_fn(rng, vals, log=None):
    """A schedule that logs the positions it is asked for; periodic so that any position is defined."""
    vals = list(vals)

    def fn(k):
        if log is not None:
            log.append(k)
        return vals[k % len(vals)]
    return fn


SCHED = ("L1", "L0", "L0Ball", "L10Ball", "RelaxedMumfordShah", "RelaxedMumfordShah2", "L2", "TV", "RelaxedMumfordShahBoth",
         "L1array", "L0array")


def scheduled(rng, which=None, cplx=False):
    """An operator whose parameter is a function of the step counter."""
    w = SCHED[int(rng.integers(0, len(SCHED)))] if which is None else which
    n = int(rng.integers(1, 7))
    L = int(rng.integers(2, 6))
    it = None
    log = []
    if w == "L1":
        v = [gen.logu(rng, .1, 4) for _ in range(L)]
        g = gen.vec(rng, n, 1.0, None, cplx, "normal") if rng.random() < .4 else None
        make = lambda f=None: P().L1(sigma=f or sched_fn(rng, v, log), g=g)
        ref = lambda k: P().L1(sigma=v[k % L], g=g)
        arrs = {} if g is None else dict(g=g)
    elif w == "L0":
        v = [gen.logu(rng, .1, 3) for _ in range(L)]
        make, ref, arrs = (lambda f=None: P().L0(sigma=f or sched_fn(rng, v, log))), (lambda k: P().L0(sigma=v[k % L])), {}
    elif w == "L0Ball":
        v = [int(q) for q in rng.integers(0, n + 1, L)]
        make, ref, arrs = (lambda f=None: P().L0Ball(f or sched_fn(rng, v, log))), (lambda k: P().L0Ball(v[k % L])), {}
    elif w == "L10Ball":
        nd, kk = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        n = nd * kk
        v = [int(q) for q in rng.integers(0, kk + 1, L)]
        make, ref, arrs = (lambda f=None: P().L10Ball(nd, f or sched_fn(rng, v, log))), (lambda k: P().L10Ball(nd, v[k % L])), {}
    elif w == "RelaxedMumfordShah":
        v = [gen.logu(rng, .1, 3) for _ in range(L)]
        ka = gen.logu(rng, .1, 3)
        make = lambda f=None: P().RelaxedMumfordShah(f or sched_fn(rng, v, log), ka)
        ref, arrs = (lambda k: P().RelaxedMumfordShah(v[k % L], ka)), {}
    elif w == "RelaxedMumfordShah2":
        v = [gen.logu(rng, .1, 3) for _ in range(L)]
        si = gen.logu(rng, .1, 3)
        make = lambda f=None: P().RelaxedMumfordShah(si, f or sched_fn(rng, v, log))
        ref, arrs = (lambda k: P().RelaxedMumfordShah(si, v[k % L])), {}
    elif w == "RelaxedMumfordShahBoth":
        v = [(gen.logu(rng, .1, 3), gen.logu(rng, .1, 3)) for _ in range(L)]
        make = lambda f=None: P().RelaxedMumfordShah(sched_fn(rng, [q[0] for q in v], log), sched_fn(rng, [q[1] for q in v], log))
        ref, arrs = (lambda k: P().RelaxedMumfordShah(*v[k % L])), {}
    elif w in ("L1array", "L0array"):
        mm = int(rng.integers(1, 4))
        v = [np.exp(rng.uniform(-2, 1, n)) for _ in range(L)]
        cls = w[:2]
        make = lambda f=None: getattr(P(), cls)(sigma=f or sched_fn(rng, v, log))
        ref, arrs = (lambda k: getattr(P(), cls)(sigma=v[k % L])), {}
    elif w == "L2":
        m = n + int(rng.integers(0, 3))
        A, b = gen.mat(rng, m, n, cplx), gen.vec(rng, m, 1.0, None, cplx, "normal")
        v = [int(q) for q in rng.integers(1, 6, L)]
        so = ["legacy", "cg", "cgls"][int(rng.integers(0, 3))]
        make = lambda f=None: P().L2(Op=gen.free(A), b=b, niter=f or sched_fn(rng, v, log), solver=so, warm=False)
        ref = lambda k: P().L2(Op=gen.free(A), b=b, niter=v[k % L], solver=so, warm=False)
        arrs = dict(A=A, b=b)
    else:
        d = int(rng.integers(1, 4))
        dims = tuple(int(q) for q in rng.integers(2, 5, d))
        n = int(np.prod(dims))
        v = [int(q) for q in rng.integers(1, 9, L)]
        make = lambda f=None: P().TV(dims=dims, niter=f or sched_fn(rng, v, log), rtol=1e-12)
        ref, arrs = (lambda k: P().TV(dims=dims, niter=v[k % L], rtol=1e-12)), {}
    if w in ("L2", "TV"):
        cplx = cplx and w == "L2"
    draw = lambda r, t=1.0: gen.vec(r, n, 1.0, None, cplx, "normal") * 2
    if w in ("L1array", "L0array"):
        draw = lambda r, t=1.0: gen.vec(r, mm * n, 1.0, None, cplx, "normal").reshape(mm, n) * 2
    it = Item("sched:" + w, make, draw, arrays=arrs, sched=True,
              cplx=cplx, logs=log, n=n)
    it.ref, it.vals, it.L, it.kind = ref, v, L, w
    return it


def sums(rng, kind=None):
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, 5))
    ss = [C.g_simple(rng, False, n) for _ in range(k)]
    w = None
    if rng.random() < .5:
        w = rng.random(k) + .1
        w = [float(v) for v in w / w.sum()]
    par = bool(rng.random() < .5)
    orig = bool(rng.random() < .3)
    niter = int(rng.integers(1, 60))
    arrs = {}
    for j, s in enumerate(ss):
        arrs.update({f"{kk}{j}": v for kk, v in s.arrays.items()})
    warr = np.array(w) if w is not None and rng.random() < .5 else w
    if isinstance(warr, np.ndarray):
        arrs["weights"] = warr
    return Item(f"Sum[{k}{' par' if par else ''}]",
                lambda: P().Sum([s.make() for s in ss], weights=warr, niter=niter, tol=1e-12, use_parallel=par, use_original_tau=orig),
                lambda r, t=1.0: r.standard_normal(n) * 2, arrays=arrs, n=n, iterative=True, scale=max(s.scale() for s in ss))


def derived(rng, base=None, cplx=False):
    """One or two combinators around an operator of the zoo."""
    it = base or from_spec(C.g_simple(rng, cplx))
    x = it.draw(rng)
    n = x.size
    v = gen.vec(rng, n, 1.0, None, False, "normal").reshape(x.shape)
    k = int(rng.integers(0, 9))
    arrs = dict(it.arrays)
    mk = it.make
    draw = it.draw
    nm = it.name
    scale = max(it.scale, float(np.abs(v).max()))
    if k == 0:
        arrs["v"] = v
        make, nm = (lambda: mk() + v), nm + "+v"
    elif k == 1:
        arrs["v"] = v
        make, nm = (lambda: mk() - v), nm + "-v"
    elif k == 2:
        w = gen.logu(rng, .1, 6)
        make, nm = (lambda: w * mk()), "w*" + nm
    elif k == 3:
        a = float(rng.choice([-2., -.5, .7, 3.]))
        arrs["b"] = v
        make, nm = (lambda: mk().precomposition(a, v)), nm + "(ax+b)"
    elif k == 4:
        make, nm = (lambda: mk().H), nm + ".H"
    elif k == 5:
        n2 = n if len(x.shape) == 1 else None
        if n2 is None or n > 6:
            return derived(rng, None, cplx)
        g = C.g_simple(rng, it.cplx, n)
        arrs.update({"g" + kk: vv for kk, vv in g.arrays.items()})
        make, nm = (lambda: mk().chain(g.make())), nm + ".chain(" + g.name + ")"
        scale = max(scale, g.scale())
    elif k == 6:
        if len(x.shape) > 1:
            return derived(rng, None, cplx)
        g = C.g_simple(rng, it.cplx)
        arrs.update({"g" + kk: vv for kk, vv in g.arrays.items()})
        make, nm = (lambda: P().VStack([mk(), g.make()], nn=[n, g.n])), "VStack[" + nm + "," + g.name + "]"
        scale = max(scale, g.scale())
        draw0 = it.draw
        draw = lambda r, t=1.0: np.concatenate([draw0(r, t), g.draw(r, t, kind="normal")])
    elif k == 7:
        if len(x.shape) > 1:
            return derived(rng, None, cplx)
        Q = gen.orth(rng, n, False)
        arrs["Q"], arrs["b"] = Q, v
        useb = bool(rng.random() < .5)
        part = bool(rng.random() < .5)
        make, nm = (lambda: P().Orthogonal(mk(), gen.dense(Q), partial=part, b=v if useb else None)), "Orth[" + nm + "]"
    else:
        make, nm = (lambda: mk().H.H), nm + ".H.H"
    return Item(nm, make, draw, arrays=arrs, sched=it.sched, iterative=it.iterative, cplx=it.cplx, n=None, logs=it.logs, scale=scale,
                value=it.value and k != 5 and not (k < 2 and x.ndim > 1))


NAMES = list(C.ALL) + ["TV", "Sum", "sched", "derived", "derived2", "Hilbert"]


def pick(m, cplx_frac=0.2, names=None):
    """Case index chooses the family."""
    names = names or NAMES
    rng = m.rng
    nm = names[m.index % len(names)]
    if nm == "TV":
        it = tv(rng)
    elif nm == "Sum":
        it = sums(rng)
    elif nm == "sched":
        it = scheduled(rng, SCHED[(m.index // len(names)) % len(SCHED)], bool(rng.random() < cplx_frac))
    elif nm == "derived":
        it = derived(rng, None, bool(rng.random() < cplx_frac))
    elif nm == "derived2":
        it = derived(rng, derived(rng, from_spec(C.ALL[list(C.ALL)[int(rng.integers(0, len(C.ALL)))]](rng))))
    elif nm == "Hilbert":     # an operator written by the user: prox only, or dual only
        it = user(rng)
    else:
        it = from_spec(C.ALL[nm](rng, cplx=nm in C.COMPLEX_OK and rng.random() < cplx_frac))
    m.event("operator:" + (nm if nm not in ("sched",) else it.name))
    return it


_user = {}


def user(rng):
    """A user-defined operator that only implements one of the two steps."""
    if not _user:
        from pyproximal.ProxOperator import ProxOperator, _check_tau

        class OnlyProx(ProxOperator):
            def __init__(self, w):
                super().__init__(None, False)
                self.w = w

            def __call__(self, x):
                return self.w * float(np.sum(np.abs(x)))

            @_check_tau
            def prox(self, x, tau):
                return C.soft(x, self.w * tau)

        class OnlyDual(ProxOperator):
            def __init__(self, w):
                super().__init__(None, False)
                self.w = w

            def __call__(self, x):
                return self.w * float(np.sum(np.abs(x)))

            @_check_tau
            def proxdual(self, x, tau):
                a = np.abs(x)
                return np.where(a > self.w, x * (self.w / np.where(a > 0, a, 1)), x)
        _user.update(p=OnlyProx, d=OnlyDual)
    w = gen.logu(rng, .1, 4)
    n = int(rng.integers(1, 6))
    k = "pd"[int(rng.integers(0, 2))]
    return Item("user:" + k, lambda: _user[k](w), lambda r, t=1.0: r.standard_normal(n) * 2, n=n)
