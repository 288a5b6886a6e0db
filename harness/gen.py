"""Input generators: realistic and hostile vectors, steps, matrices and linear operators."""
import numpy as np


def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def tau(rng):
    k = rng.integers(0, 6)
    if k == 0:
        return 1.0
    if k == 1:
        return float(rng.choice([0.1, 0.5, 2.0, 10.0]))
    if k == 2:
        return logu(rng, 1e-4, 1e4)
    return logu(rng, 0.05, 20.0)


def step(rng, lo, hi, wide=50.):
    """A step length; one in four comes from a much wider range."""
    if rng.random() < .25:
        lo, hi = lo / wide, hi * wide
    return logu(rng, lo, hi)


def short(rng, lo):
    """A fraction of the largest admissible step; one in eight is very short."""
    return logu(rng, lo / 100 if rng.random() < .125 else lo, 1.)


def size(rng, lo, hi, cap=None):
    """A length in [lo, hi); one in twenty is several times, one in a hundred many times longer (up to cap)."""
    u = rng.random()
    if u > .06:
        return int(rng.integers(lo, hi))
    top = 6 * hi if u > .01 else 40 * hi
    return int(rng.integers(hi, max(min(top, cap or top), hi + 1)))


def layout(rng, x):
    """An equal array in a random memory layout (the values are the same, the strides are not)."""
    x = np.asarray(x)
    k = int(rng.integers(0, 6))
    if k == 0 or x.ndim == 0:
        return x.copy()
    if k == 1:                      # every other entry of a larger buffer
        big = np.full(tuple(2 * s + 1 for s in x.shape), -7, dtype=x.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in x.shape)]
        v[...] = x
        return v
    if k == 2:                      # reversed strides
        r = (slice(None, None, -1),) * x.ndim
        return x[r].copy()[r]
    if k == 3:
        return np.asfortranarray(x)
    if k == 4:                      # column of a matrix / not owning its data
        big = np.full(x.shape + (3,), 5, dtype=x.dtype)
        big[..., 1] = x
        return big[..., 1]
    v = x.copy()
    v.flags.writeable = False
    return v


def cplx_noise(rng, n):
    return (rng.standard_normal(n) + 1j * rng.standard_normal(n)) / np.sqrt(2)


KINDS = ("normal", "normal", "normal", "sparse", "ties", "near", "mixed", "huge", "tiny",
         "zero", "const", "uniform", "onehot")


def vec(rng, n, scale=1.0, thr=None, cplx=False, kind=None, extreme=True):
    """A vector; thr = magnitude of interest (a threshold the code branches on)."""
    if kind is None:
        kind = KINDS[int(rng.integers(0, len(KINDS)))]
    if not extreme and kind in ("huge", "tiny", "mixed"):
        kind = "normal"
    t = scale if thr is None else float(thr)
    if kind == "normal":
        x = rng.standard_normal(n) * scale * logu(rng, 0.3, 5)
    elif kind == "uniform":
        x = rng.uniform(-2, 2, n) * t
    elif kind == "sparse":
        x = rng.standard_normal(n) * scale * 3 * (rng.random(n) < 0.4)
    elif kind == "ties":
        x = rng.choice([-2.0, -1.0, 0.0, 1.0, 1.0, 3.0], n) * t
    elif kind == "near":
        eps = rng.choice([0, 1e-12, 1e-8, 1e-4, 1e-2, 0.1, 0.5], n) * rng.choice([-1, 1], n)
        x = rng.choice([-1.0, 1.0], n) * t * (1 + eps)
    elif kind == "mixed":
        x = rng.standard_normal(n) * scale * 10.0 ** rng.uniform(-4, 4, n)
    elif kind == "huge":
        x = rng.standard_normal(n) * scale * logu(rng, 1e3, 1e7)
    elif kind == "tiny":
        x = rng.standard_normal(n) * scale * logu(rng, 1e-9, 1e-3)
    elif kind == "zero":
        x = np.zeros(n)
    elif kind == "const":
        x = np.full(n, t * rng.choice([-3.0, -1.0, 0.5, 1.0, 2.0]))
    elif kind == "onehot":
        x = np.zeros(n)
        x[rng.integers(0, n)] = t * rng.choice([-5.0, -1.0, 1.0, 2.0, 5.0])
    else:
        raise KeyError(kind)
    x = np.asarray(x, dtype=float)
    if cplx:
        x = x * np.exp(1j * rng.uniform(0, 2 * np.pi, n))
    return x


def mat(rng, m, n, cplx=False, cond=None):
    """A well-scaled dense matrix (optional bound on the condition number)."""
    A = cplx_noise(rng, (m, n)) if cplx else rng.standard_normal((m, n))
    if cond is not None:
        U, s, Vh = np.linalg.svd(A, full_matrices=False)
        s = np.linspace(1.0, 1.0 / cond, s.size) if s.size > 1 else np.ones(1)
        A = (U * s) @ Vh
    return np.ascontiguousarray(A)


def orth(rng, n, cplx=False):
    A = mat(rng, n, n, cplx)
    Q, R = np.linalg.qr(A)
    return np.ascontiguousarray(Q)


def spd(rng, n, lo=0.1, hi=3.0, cplx=False):
    Q = orth(rng, n, cplx)
    d = np.exp(rng.uniform(np.log(lo), np.log(hi), n))
    M = (Q * d) @ Q.conj().T
    return (M + M.conj().T) / 2


_classes = {}


def _op_classes():
    """pylops operators defined by the harness: matrix-free, counting, optionally hostile."""
    if _classes:
        return _classes
    import pylops

    class FreeMat(pylops.LinearOperator):
        """Matrix-free operator around a dense matrix that logs its calls."""

        def __init__(self, A):
            self.M = A
            self.log = []
            super().__init__(dtype=A.dtype, shape=A.shape)

        def _matvec(self, x):
            self.log.append("f")
            return self.M @ x

        def _rmatvec(self, x):
            self.log.append("a")
            return self.M.conj().T @ x

    class InplaceIdentity(pylops.LinearOperator):
        """Legal identity operator that hands back the very array it was given."""

        def __init__(self, n, dtype="float64"):
            super().__init__(dtype=np.dtype(dtype), shape=(n, n))

        def _matvec(self, x):
            return x

        def _rmatvec(self, x):
            return x

    class Diag(pylops.LinearOperator):
        def __init__(self, d):
            self.d = d
            super().__init__(dtype=d.dtype, shape=(d.size, d.size))

        def _matvec(self, x):
            return self.d * x

        def _rmatvec(self, x):
            return self.d.conj() * x

    _classes.update(FreeMat=FreeMat, InplaceIdentity=InplaceIdentity, Diag=Diag)
    return _classes


def free(A):
    return _op_classes()["FreeMat"](A)


def inplace_identity(n, dtype="float64"):
    return _op_classes()["InplaceIdentity"](n, dtype)


def diag(d):
    return _op_classes()["Diag"](np.asarray(d))


def dense(A):
    import pylops
    return pylops.MatrixMult(A, dtype=A.dtype)


def linop(rng, A):
    """The same matrix as an explicit or a matrix-free operator."""
    return dense(A) if rng.random() < 0.5 else free(A)
