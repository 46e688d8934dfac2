"""Workload generators shared by the case families."""
import numpy as np


def orth(rng, m):
    """A random orthogonal matrix."""
    Q, R = np.linalg.qr(rng.normal(size=(m, m)))
    return Q * np.sign(np.diag(R))


def logu(rng, lo, hi):
    return 10.0 ** rng.uniform(lo, hi)


def chance(rng, p):
    return rng.rand() < p


READONLY = True       # X01 lets the arrays be writable, so that writes happen and are seen


def layout(rng, A, readonly=True):
    """The same values in one of several memory layouts."""
    k = rng.randint(5)
    A = np.asarray(A)
    if k == 1:
        A = np.asfortranarray(A)
    elif k == 2 and A.ndim == 2:
        B = np.zeros((2 * A.shape[0], A.shape[1] + 1), dtype=A.dtype)
        B[::2, :-1] = A
        A = B[::2, :-1]
    elif k == 3 and A.ndim == 2:
        A = A[::-1].copy()[::-1]
    else:
        A = A.copy()
    if chance(rng, 0.7) and readonly and READONLY:
        A.flags.writeable = False
    return A


ROUND = [16, 32, 64, 100, 128, 200, 250, 256, 300, 500, 512, 1000, 1024]      # where block sizes are likely


def sizes(rng, lo, hi, big=None, pbig=0.05):
    """Mostly small sizes, sometimes a large one."""
    if big and chance(rng, pbig):
        near = [r + k for r in ROUND for k in (-1, 0, 1) if hi <= r + k <= big]
        if near and chance(rng, 0.5):
            return int(near[rng.randint(len(near))])
        return int(rng.randint(hi, big + 1))
    return int(rng.randint(lo, hi + 1))


def weights(rng, M):
    """Quadrature-like weights: uniform, random, with zeros, integers, unnormalized."""
    k = rng.randint(9)
    if k == 0:
        w = np.ones((M, 1)) / M
    elif k == 7:                                          # about equal
        w = (1 + 10.0 ** rng.uniform(-4, -1) * rng.rand(M, 1)) / M
    elif k == 8:                                          # about a probability
        w = rng.dirichlet(np.ones(M)).reshape(M, 1)
        w = w * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-6, -1))
    elif k == 1:
        w = rng.dirichlet(np.ones(M)).reshape(M, 1)
    elif k == 2:
        w = rng.rand(M, 1) + 0.01
    elif k == 3:
        w = rng.randint(0, 4, size=(M, 1)).astype(float)
        w[rng.randint(M)] = 1.0
    elif k == 4:
        w = rng.dirichlet(0.3 * np.ones(M)).reshape(M, 1)
    elif k == 5:
        w = (logu(rng, -6, 6) if chance(rng, 0.6) else logu(rng, -18, 9)) * (rng.rand(M, 1) + 0.1)
    else:
        w = rng.randint(1, 5, size=(M, 1))
    return w


def points(rng, M, m, kind=None):
    """Sample inputs of several kinds."""
    kind = kind or ['uniform', 'gauss', 'wide', 'grid', 'int', 'tiny', 'shift'][rng.randint(7)]
    if kind == 'uniform':
        X = rng.uniform(-1, 1, size=(M, m))
        if chance(rng, 0.2):
            X[rng.randint(M), rng.randint(m)] = rng.choice([-1.0, 1.0, 0.0])
    elif kind == 'gauss':
        X = rng.normal(size=(M, m))
    elif kind == 'wide':
        X = rng.normal(size=(M, m)) * 10.0 ** rng.uniform(-1, 1, size=(1, m))
    elif kind == 'grid':
        X = rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0], size=(M, m))
    elif kind == 'int':
        X = rng.randint(-9, 10, size=(M, m))
    elif kind == 'tiny':
        X = rng.uniform(-1, 1, size=(M, m)) * 1e-2
    else:
        X = rng.uniform(-1, 1, size=(M, m)) + rng.uniform(-3, 3, size=(1, m))
    return X


def convex_quadratic(rng, n, cond=2.0):
    V = orth(rng, n)
    return np.dot(V * 10.0 ** rng.uniform(-cond / 2, cond / 2, size=n), V.T)


def subspaces(rng, m, n, W=None, e=None):
    """A Subspaces object with given or random eigenpairs, partitioned at n."""
    from active_subspaces.subspaces import Subspaces
    s = Subspaces()
    s.eigenvecs = orth(rng, m) if W is None else W
    if e is None:
        e = np.sort(10.0 ** rng.uniform(-3, 1, size=(m, 1)), axis=0)[::-1].copy()
    s.eigenvals = e
    s.partition(int(n))
    return s


def general_position(W1, tol=1e-2):
    """No zero rows, no nearly parallel rows: every zonotope vertex has a cone that sampling finds."""
    m, n = W1.shape
    r = np.sqrt((W1 ** 2).sum(1))
    if r.min() < tol:
        return False
    if n == 1:
        return True
    U = W1 / r[:, None]
    if n == 2:
        ang = np.sort(np.mod(np.arctan2(U[:, 1], U[:, 0]), np.pi))
        gaps = np.diff(np.r_[ang, ang[0] + np.pi])
        return gaps.min() > tol
    import itertools
    for c in itertools.combinations(range(m), n):
        if abs(np.linalg.det(U[list(c)])) < tol * 0.2:
            return False
    return True


def cones_seen(rng, W1, N=20000, least=3):
    """Every vertex of the zonotope has a cone of directions wide enough for random directions to hit it."""
    from math import comb
    m, n = W1.shape
    T = np.dot(np.dot(rng.normal(size=(N, n)), W1.T) > 0, 2 ** np.arange(m))
    k = np.unique(np.concatenate((T, 2 ** m - 1 - T)), return_counts=True)[1]
    return k.size == 2 * sum(comb(m - 1, i) for i in range(n)) and k.min() >= least


def bounded_pair(rng, m, n, tries=60):
    """(Subspaces, BoundedActiveVariableDomain) in general position."""
    from active_subspaces.domains import BoundedActiveVariableDomain
    tol = 1e-2
    for i in range(tries):
        s = subspaces(rng, m, n)
        if general_position(s.W1, tol * (0.3 if m > 5 else 1)):
            return s, BoundedActiveVariableDomain(s)
        tol *= 0.9
    from .core import Skip
    raise Skip('no general position')


def support(W1, u):
    """max of u.y over the zonotope {W1^T x : |x| <= 1}."""
    return np.abs(np.dot(W1, u)).sum()


def zonotope_halfspaces(W1):
    """Facets (a_i, h_i): |a_i . y| <= h_i, from all (n-1)-subsets of generators; independent of Qhull."""
    import itertools
    m, n = W1.shape
    A = []
    if n == 1:
        A = [np.ones(1)]
    else:
        for c in itertools.combinations(range(m), n - 1):
            B = W1[list(c)]
            u, sv, vt = np.linalg.svd(B)
            if sv.min() < 1e-9:
                continue
            A.append(vt[-1])
    A = np.array(A)
    h = np.abs(np.dot(A, W1.T)).sum(1)
    return A, h


def in_hypercube_y(rng, W1, k):
    """k active-variable points with preimages in the hypercube: interior, near the boundary, the center."""
    m, n = W1.shape
    out = []
    for i in range(k):
        c = rng.randint(6)
        if c == 0:
            x = np.zeros(m)
        elif c == 1:
            x = np.sign(np.dot(W1, rng.normal(size=n))) * rng.uniform(0.5, 0.995)
        elif c == 2:
            x = rng.choice([-1.0, 1.0], size=m) * rng.uniform(0.2, 1)
        else:
            x = rng.uniform(-1, 1, size=m)
        out.append(np.dot(x, W1))
    return np.array(out).reshape(k, n)


def ks_uniform(x, lo, hi):
    """Kolmogorov statistic times sqrt(N) of x against U(lo, hi)."""
    u = np.sort((np.asarray(x).ravel() - lo) / (hi - lo))
    N = u.size
    i = np.arange(1, N + 1)
    return np.sqrt(N) * max((i / float(N) - u).max(), (u - (i - 1) / float(N)).max())


def ks_cdf(x, cdf):
    u = np.sort(cdf(np.asarray(x).ravel()))
    N = u.size
    i = np.arange(1, N + 1)
    return np.sqrt(N) * max((i / float(N) - u).max(), (u - (i - 1) / float(N)).max())


KS_LIMIT = 3.6       # P(sqrt(N) D > 3.6) < 2 exp(-2*3.6^2) = 1.1e-11
