"""Oracles shared by several properties."""
import numpy as np

import catalog as C
import gen


def tau_for(rng, s):
    """Step size: inner solvers get steps their documented iteration budget can serve."""
    if s.acc > 1e-6:
        return gen.logu(rng, 0.05, 10)
    return gen.tau(rng)


def tol_for(s, *arrs):
    return (C.TOL + s.acc) * s.scale(*arrs)


def competitors(rng, s, x, p, tau, n=24):
    """Points that a wrong proximal step would lose against."""
    out = [x, x * 0, (x + p) / 2, p * 0.999, p * 1.001, 2 * p - x]
    if s.member is not None:
        out = [np.asarray(s.member(rng)).reshape(x.shape) for _ in range(8)]
    sc = s.scale(x, p)
    cplx = np.iscomplexobj(p)
    for _ in range(n):
        d = rng.standard_normal(p.shape) * (rng.random(p.shape) < rng.choice([0.3, 1.0]))
        if cplx:
            d = d + 1j * rng.standard_normal(p.shape)
        mag = 10.0 ** rng.uniform(-6, 0.5) * (sc if rng.random() < .5 else max(1e-12, float(np.max(np.abs(x - p), initial=0))))
        out.append(p + d * mag)
    for i in range(min(p.size, 4)):
        y = p.copy()
        y.flat[rng.integers(0, p.size)] = 0
        out.append(y)
    return out


def check_prox(m, s, x, tau, p, what="prox"):
    """p must be the minimiser of f + |.-x|^2/(2 tau)."""
    if not isinstance(p, np.ndarray) or p.shape != x.shape:
        m.ok(False, what + ": returns an array shaped like its input", got=type(p), shape=getattr(p, "shape", None))
        return False
    if not np.all(np.isfinite(p)):
        m.ok(False, what + ": finite result", p=p, x=x, tau=tau)
        return False
    good = True
    ref = s.prox(x, tau) if s.prox is not None else None
    tol = tol_for(s, x, p, ref)
    if ref is not None:
        good &= m.close(p, ref, what + ": equals the independently computed minimiser", tol,
                        x=x, tau=tau, spec=s.name, cfg=s.cfg)
    if s.ind:
        # nearest point: variational inequality against members of the set
        good &= m.le(s.dist(p), 0, what + ": lies in the set", max(tol, s.ball_tol), p=p, x=x, spec=s.name, cfg=s.cfg)
        if s.cvx:
            for q in competitors(m.rng, s, x, p, tau, 0)[:8]:
                gap = C.rdot(x - p, q - p)
                good &= m.le(gap, 0, what + ": no member of the set is nearer",
                             (tol + s.ball_tol) * 4 * (np.linalg.norm(q - p) + np.linalg.norm(x - p) + 1),
                             q=q, p=p, x=x, spec=s.name, cfg=s.cfg)
        return good
    if s.cvx:
        op = s.obj(p, x, tau)
        sc = s.scale(x, p)
        for q in competitors(m.rng, s, x, p, tau):
            oq = s.obj(q, x, tau)
            # first-order slack of an inexact p: |grad| * tol <= (|x-p|/tau + ...) * tol
            slack = 1e-10 * (abs(op) + abs(oq)) + (1e-11 * sc) ** 2 * (1 + 1 / tau) + 1e-14 * sc * (sc if s.name[:2] in ('L2', 'Qu', 'VS', 'Or') else 1) + 1e-300
            if "Box" in s.name:      # the reference membership has a margin of 1e-9
                slack += 1e-8 * sc * (float(np.linalg.norm(x - p)) + sc * 1e-8) / tau * p.size
            if s.acc > 1e-6 or ref is None:
                slack += tol * (float(np.linalg.norm(x - p)) + sc) * (1 + 1 / tau) * 10 + tol
            good &= m.le(op, oq, what + ": no competitor has a lower objective", slack,
                         q=q, p=p, x=x, tau=tau, spec=s.name, cfg=s.cfg)
    return good


def nontriv(m, s, x, p, tau):
    """A case counts when the step moved the point but did not merely annihilate it."""
    if p.size and np.max(np.abs(p - x)) > 0 and np.max(np.abs(p)) > 0:
        m.nontrivial(s.name, x.tobytes(), tau)
