"""P08: operator algebra gives the operator of the composed functional."""
import numpy as np

import catalog as C
import gen
from common import competitors

PROP = "P08"
RULE = ("one case = one random expression over the combinators (depth 1 to 5) with leaves from the catalogue; non-trivial "
        "when the composed prox moves the point and the tree has at least one combinator")


class Node:
    """Library operator with the reference value, prox and gradient of the composed functional."""

    def __init__(self, op, n, f, prox, grad, ind, txt, scale, parts, box=False):
        self.op, self.n, self.f, self.prox, self.grad = op, n, f, prox, grad
        self.ind, self.txt, self.scale, self.parts, self.box = ind, txt, scale, parts, box


def leaf(rng, n=None, noind=False, cplx=False):
    while True:
        r = rng.random()
        if n is None and r < .12:
            s = C.g_l21(rng, cplx)
        elif n is None and r < .2:
            s = C.g_nuclear(rng, cplx, False)
        elif n is None and r < .3:
            s = C.g_quadratic(rng)
            if s.acc > 1e-6 or cplx:
                continue
        else:
            s = C.g_simple(rng, cplx, n)
        if (noind and s.ind) or len(s.shape) > 1:
            continue
        return Node(s.make(), s.n, s.f, s.prox, s.grad, s.ind, s.name, s.scale(), [s], s.name == "Box")


def rnd(rng, n, cplx):
    v = rng.standard_normal(n)
    return v * np.exp(1j * rng.uniform(0, 6, n)) if cplx else v


def grow(m, rng, depth, noind=False, cplx=False, n=None):
    if depth == 0:
        return leaf(rng, n, noind, cplx)
    k = int(rng.integers(0, 8 if n is None else 5))
    if k <= 4:
        c = grow(m, rng, depth - 1, noind, cplx, n)
        v = rnd(rng, c.n, cplx)
        f, prox, grad = c.f, c.prox, c.grad
        if k in (0, 1):
            sg = 1 if k == 0 else -1
            m.event("combinator:" + ("add" if k == 0 else "subtract"))
            if True:
                op = c.op + v if k == 0 and rng.random() < .6 else (c.op.affine_addition(v) if k == 0 else c.op - v)
                return Node(op, c.n, lambda x: f(x) + sg * C.rdot(v, x), lambda x, t: prox(x - sg * t * v, t),
                            None if grad is None else (lambda x: grad(x) + sg * v), c.ind, f"({c.txt}{'+' if sg > 0 else '-'}v)",
                            max(c.scale, np.abs(v).max()), c.parts + [v], c.box)
        if k == 2:
            w = gen.logu(rng, .1, 6)
            if rng.random() < .2:
                w = int(rng.integers(1, 5))
            m.event("combinator:scale")
            op = w * c.op if rng.random() < .6 else c.op.postcomposition(float(w))
            return Node(op, c.n, lambda x: w * f(x), lambda x, t: prox(x, w * t),
                        None if grad is None else (lambda x: w * grad(x)), c.ind, f"({w:.3g}*{c.txt})", c.scale, c.parts, c.box)
        if k == 3:
            a = float(rng.choice([-3., -1., -.4, .3, 1., 2.]))
            b = v if rng.random() < .6 else float(rng.standard_normal())
            m.event("combinator:precompose")
            return Node(c.op.precomposition(a, b), c.n, lambda x: f(a * x + b), lambda x, t: (prox(a * x + b, a * a * t) - b) / a,
                        None if grad is None else (lambda x: a * grad(a * x + b)), c.ind, f"({c.txt}({a}x+b))",
                        (max(c.scale, np.abs(b).max() if isinstance(b, np.ndarray) else abs(b))) * max(1, 1 / abs(a)),
                        c.parts + ([b] if isinstance(b, np.ndarray) else []), c.box)
        # orthogonal map
        import pyproximal as pp
        m.event("combinator:orthogonal")
        if rng.random() < .5 or n is not None:
            Q = gen.orth(rng, c.n, cplx)
            al, partial = 1.0, bool(rng.random() < .5)
        else:
            al, partial = float(rng.choice([.25, 1., 3.])), True
            Q = np.ascontiguousarray(np.sqrt(al) * gen.orth(rng, c.n + int(rng.integers(0, 3)), cplx)[:c.n])
        useb = rng.random() < .5
        b = v if useb else None
        off = v if useb else 0.0
        QH = Q.conj().T
        op = pp.Orthogonal(c.op, gen.linop(rng, Q), partial=partial, b=b, alpha=al)
        return Node(op, Q.shape[1], lambda x: f(Q @ x + off), lambda x, t: x + QH @ (prox(Q @ x + off, al * t) - (Q @ x + off)) / al,
                    None, c.ind, f"({c.txt}(Qx{'+b' if useb else ''}))", max(c.scale, np.abs(v).max()) * max(1, 1 / al), c.parts + [Q] + ([v] if useb else []), c.box)
    if k == 5:
        # dual of the dual view
        c = grow(m, rng, depth - 1, noind, cplx, n)
        m.event("combinator:dual-dual")
        return Node(c.op.H.H, c.n, c.f, c.prox, None, c.ind, f"{c.txt}.H.H", c.scale, c.parts, c.box)
    import pylops
    import pyproximal as pp
    kids = [grow(m, rng, int(rng.integers(0, depth)), True, cplx) for _ in range(int(rng.integers(1, 4)))]
    nn = [c.n for c in kids]
    N = sum(nn)
    ends = np.cumsum(nn)
    m.event("combinator:stack")
    if k == 6:
        idx = [np.arange(e - s, e) for e, s in zip(ends, nn)]
        op = pp.VStack([c.op for c in kids], nn=nn)
    else:
        perm = rng.permutation(N)
        idx = [perm[e - s:e] for e, s in zip(ends, nn)]
        op = pp.VStack([c.op for c in kids], restr=[pylops.Restriction(N, i, dtype="complex128" if cplx else "float64") for i in idx])

    def prox(x, t):
        y = x.copy()
        for c, i in zip(kids, idx):
            y[i] = c.prox(x[i], t)
        return y

    def grad(x):
        y = x.copy()
        for c, i in zip(kids, idx):
            y[i] = c.grad(x[i])
        return y
    return Node(op, N, lambda x: sum(c.f(x[i]) for c, i in zip(kids, idx)), prox,
                grad if all(c.grad is not None for c in kids) else None, False, "[" + ",".join(c.txt for c in kids) + "]",
                max(c.scale for c in kids), sum((c.parts for c in kids), []), any(c.box for c in kids))


def has(txt, *names):
    return any(t in txt for t in names)


def trees(m):
    rng = m.rng
    cplx = bool(rng.random() < .25)
    depth = 1 + m.index % 5
    nd = grow(m, rng, depth, rng.random() < .7, cplx)
    t = gen.logu(rng, .05, 10)
    x = rnd(rng, nd.n, cplx) * gen.logu(rng, .3, 8)
    if rng.random() < .2:
        x = x * (rng.random(nd.n) < .5)
    m.describe(expr=nd.txt, x=x, tau=t)
    op = nd.op
    p = op.prox(x.copy(), t)
    ref = nd.prox(x, t)
    sc = max(1.0, np.abs(x).max(), np.abs(ref).max(), nd.scale) * max(1, t)
    tol = 3e-9 * sc * 3.0 ** depth
    m.event("expression trees")
    m.close(p, ref, "prox of the composed functional", tol, expr=nd.txt, x=x, tau=t)
    d = op.proxdual(x.copy(), t)
    dref = x - t * nd.prox(x / t, 1 / t)
    m.close(d, dref, "dual step of the composed functional", tol * max(1, t) * max(1, 1 / t), expr=nd.txt, x=x, tau=t)
    if not nd.ind and not has(nd.txt, ".H"):
        v, fv = op(x.copy()), nd.f(x)
        m.ok(not np.iscomplexobj(v), "values are real", expr=nd.txt, got=v)
        m.close(float(np.real(v)), fv, "value of the composed functional", 1e-9 * (sc ** 2) * nd.n * 10.0 ** min(depth, 3), expr=nd.txt, x=x)
        if not nd.box and nd.f is not None:
            o = nd.f(p) + float(np.sum(np.abs(p - x) ** 2)) / (2 * t)
            for _ in range(6):
                q = p + rnd(rng, nd.n, cplx) * 10.0 ** rng.uniform(-5, 0)
                oq = nd.f(q) + float(np.sum(np.abs(q - x) ** 2)) / (2 * t)
                m.le(o, oq, "no competitor has a lower composed objective", 1e-9 * (abs(o) + abs(oq) + sc ** 2) , expr=nd.txt, x=x, tau=t, q=q)
    if nd.grad is not None and bool(op.hasgrad) and not has(nd.txt, "Euclid", ".H", "Qx"):
        m.close(op.grad(x.copy()), nd.grad(x), "gradient of the composed functional", 1e-8 * sc * 30.0 ** min(depth, 3), expr=nd.txt, x=x)
        m.event("composed gradients")
    if np.any(p != x):
        m.nontrivial(nd.txt, x.tobytes())


def ingredients(m):
    """Building (and using) combinations leaves the ingredients as they were; one part may serve several combinations."""
    import pyproximal as pp
    rng = m.rng
    n = int(rng.integers(1, 6))
    s = C.g_simple(rng, False, n)
    base = s.make()
    t = gen.logu(rng, .1, 5)
    x = s.draw(rng, t, kind="normal")
    p0, d0 = base.prox(x.copy(), t), base.proxdual(x.copy(), t)
    g0 = base.grad(x.copy()) if np.any(x) else None
    v, b = rng.standard_normal(n), rng.standard_normal(n)
    v0, b0 = v.copy(), b.copy()
    Q = gen.orth(rng, n)
    Q0 = Q.copy()
    s2 = C.g_simple(rng, False)
    o2 = s2.make()
    nn = [n, s2.n]
    combos = [base + v, base - v, 2.5 * base, base.precomposition(-1.5, b), base.H, pp.VStack([base, o2], nn=nn),
              pp.Orthogonal(base, gen.linop(rng, Q), b=b), base.chain(s.make()), (base + v) - v]
    want = [s.prox(x - t * v, t), s.prox(x + t * v, t), s.prox(x, 2.5 * t), (s.prox(-1.5 * x + b, 2.25 * t) - b) / -1.5,
            x - t * s.prox(x / t, 1 / t), None, Q.T @ (s.prox(Q @ x + b, t) - b), s.prox(s.prox(x, t), t), s.prox(x, t)]
    x2 = s2.draw(rng, t, kind="normal")
    order = rng.permutation(len(combos))
    sc = max(s.scale(x), np.abs(v).max() * t, np.abs(b).max(), 1) * max(1, t)
    for i in order:
        if want[i] is None:
            got = combos[i].prox(np.concatenate([x, x2]), t)
            m.close(got, np.concatenate([s.prox(x, t), s2.prox(x2, t)]), "shared part in a stack", 1e-8 * max(sc, s2.scale(x2)), specs=[s.name, s2.name], x=x)
        else:
            m.close(combos[i].prox(x.copy(), t), want[i], "shared part in combination %d" % i, 1e-8 * sc, spec=s.name, x=x, tau=t)
    m.describe(spec=s.name, x=x, tau=t)
    m.close(base.prox(x.copy(), t), p0, "ingredient's prox unchanged by combinations", 0, spec=s.name)
    m.close(base.proxdual(x.copy(), t), d0, "ingredient's dual step unchanged by combinations", 0, spec=s.name)
    if g0 is not None:
        m.close(base.grad(x.copy()), g0, "ingredient's gradient unchanged by combinations", 0, spec=s.name)
    m.ok(np.array_equal(v, v0) and np.array_equal(b, b0) and np.array_equal(Q, Q0), "operand arrays unchanged", spec=s.name)
    m.nontrivial(s.name, x.tobytes())


def chains(m):
    """Chaining applies the steps in order; exact for the cases where chaining is documented to be valid."""
    rng = m.rng
    n = int(rng.integers(1, 6))
    s = C.g_simple(rng, False, n)
    r = C.g_simple(rng, False, n)
    t = gen.logu(rng, .1, 5)
    x = rng.standard_normal(n) * 3
    want = r.prox(s.prox(x, t), t)
    sc = max(s.scale(x), r.scale(x)) * max(1, t)
    f, g = s.make(), r.make()
    m.describe(specs=[s.name, r.name], x=x, tau=t)
    m.close(f.chain(g).prox(x.copy(), t), want, "chain: second step after the first", 1e-9 * sc, specs=[s.name, r.name], x=x, tau=t)
    if type(g) is not type(f):       # Python only asks the right operand when the types differ
        m.close((g * f).prox(x.copy(), t), want, "chain through the product sign", 1e-9 * sc, specs=[s.name, r.name], x=x, tau=t)
    u = C.g_simple(rng, False, n)
    h = u.make()
    m.close(f.chain(g).chain(h).prox(x.copy(), t), u.prox(want, t), "chain of three", 1e-8 * max(sc, u.scale(x)), specs=[s.name, r.name, u.name], x=x, tau=t)
    # l1 then l2: the chain is the prox of the elastic net
    import pyproximal as pp
    a, b = gen.logu(rng, .1, 3), gen.logu(rng, .1, 3)
    z = np.sign(x) * np.maximum(np.abs(x) - a * t, 0) / (1 + b * t)
    m.close(pp.L1(a).chain(pp.L2(sigma=b)).prox(x.copy(), t), z, "chain of l1 and l2 is the elastic net", 1e-12 * sc, x=x, tau=t)
    m.nontrivial(s.name, r.name, x.tobytes())


def sizes(m):
    """Stacks refuse inputs of the wrong size in every operation; lengths may be any sequence of integers."""
    import pyproximal as pp
    rng = m.rng
    k = int(rng.integers(1, 4))
    ss = [C.g_simple(rng) for _ in range(k)]
    nn = [s.n for s in ss]
    N = sum(nn)
    nn_kind = [list, tuple, np.array][int(rng.integers(0, 3))](nn)
    op = pp.VStack([s.make() for s in ss], nn=nn_kind)
    bad = np.ones(N + int(rng.choice([-1, 1, 2])))
    for nm, call in (("value", lambda: op(bad)), ("prox", lambda: op.prox(bad, 1.0)), ("gradient", lambda: op.grad(bad)),
                     ("dual", lambda: op.proxdual(bad, 1.0))):
        try:
            call()
            m.ok(False, "stack refuses inputs of the wrong size: " + nm, nn=nn, size=bad.size)
        except ValueError:
            m.ok(True, "stack refuses inputs of the wrong size: " + nm)
    x = rng.standard_normal(N)
    t = gen.logu(rng, .1, 5)
    ends = np.cumsum(nn)
    ref = np.concatenate([s.prox(x[e - s.n:e], t) for s, e in zip(ss, ends)])
    m.close(op.prox(x.copy(), t), ref, "stack by lengths", 1e-9 * max(s.scale(x) for s in ss) * max(1, t), nn=nn, x=x)
    m.nontrivial(tuple(nn), x.tobytes())


GROUPS = [("trees", trees, 10000, 50000), ("ingredients", ingredients, 1600, 8000), ("chains", chains, 1200, 5000),
          ("sizes", sizes, 800, 3000)]
