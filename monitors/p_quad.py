"""Q01..Q06: quadrature rules, designs and integrals."""
import itertools
import copy
import math

import numpy as np
from scipy.special import roots_jacobi

from active_subspaces import domains as dm
from active_subspaces import integrals as ig
from active_subspaces import response_surfaces as rs
from active_subspaces.utils import designs as de
from active_subspaces.utils import misc as mi
from active_subspaces.utils import quadrature as gq
from active_subspaces.utils.response_surfaces import PolynomialApproximation
from active_subspaces.utils.simrunners import SimulationRunner

from .core import family, about, Skip
from . import gen
from .gen import chance, layout

# ---------------------------------------------------------------------------------------------------------------- Q01
about('Q01', """moments: the N-point rule must integrate products of the orthonormal polynomials (three-term recurrence written here)
 of total degree up to 2N-1 like the identity; nodes and weights against numpy's and scipy's independent rules.""")


def hermite_he(x, K):
    """Orthonormal probabilists' Hermite polynomials of degree < K at x (columns)."""
    x = np.asarray(x, dtype=float).ravel()
    P = np.ones((x.size, max(K, 2)))
    P[:, 1] = x
    for k in range(1, K - 1):
        P[:, k + 1] = (x * P[:, k] - np.sqrt(k) * P[:, k - 1]) / np.sqrt(k + 1.0)
    return P[:, :K]


def legendre(x, K):
    """Orthonormal Legendre polynomials with respect to the uniform density on [-1, 1]."""
    x = np.asarray(x, dtype=float).ravel()
    P = np.ones((x.size, max(K, 2)))
    P[:, 1] = x
    for k in range(1, K - 1):
        P[:, k + 1] = ((2 * k + 1) * x * P[:, k] - k * P[:, k - 1]) / (k + 1.0)
    return P[:, :K] * np.sqrt(2 * np.arange(K) + 1.0)


def reference_1d(N, kind):
    if kind == 'Hermite':
        x, w = np.polynomial.hermite_e.hermegauss(N)
        return x, w / np.sqrt(2 * np.pi)
    x, w = np.polynomial.legendre.leggauss(N)
    return x, w / 2.0


@family('Q01', 120, 900)
def q01_rules(mon, rng):
    kind = ['Hermite', 'Legendre'][rng.randint(2)]
    N = gen.sizes(rng, 1, 25, 80, 0.2)
    mon.input(nontrivial=N > 1, N=N, kind=kind)
    calls = [lambda: gq.gh1d(N), lambda: gq.gauss_hermite(N), lambda: gq.gauss_hermite([N]), lambda: gq.g1d(N, 'Hermite')] \
        if kind == 'Hermite' else \
        [lambda: gq.gl1d(N), lambda: gq.gauss_legendre(N), lambda: gq.gauss_legendre([N]), lambda: gq.g1d(N, 'Legendre')]
    xr, wr = reference_1d(N, kind)
    for c in calls:
        with mon.guard('rule'):
            x, w = c()
        if not (mon.shape(x, (N, 1), 'rule:nodes shape') and mon.shape(w, (N, 1), 'rule:weights shape')):
            continue
        mon.check(x.dtype.kind == 'f' and w.dtype.kind == 'f', 'rule:real numbers', dtypes=(x.dtype, w.dtype))
        mon.check(np.all(w >= 0), 'rule:weights not negative', w=w)
        mon.check(np.all(np.diff(x.ravel()) > 0), 'rule:distinct nodes in increasing order', x=x)
        mon.close(np.array(w.sum()), np.array(1.0), 'rule:weights sum to one', rtol=1e-11)
        mon.close(x.ravel(), xr, 'rule:nodes', rtol=1e-10, scale=1 + np.abs(xr).max(), N=N, kind=kind)
        mon.close(w.ravel(), wr, 'rule:weights', rtol=1e-10, N=N, kind=kind)
        mon.close(x.ravel(), -x.ravel()[::-1], 'rule:symmetric nodes', atol=1e-10 * (1 + np.abs(xr).max()))
        if kind == 'Legendre':
            mon.check(np.all(np.abs(x) < 1), 'rule:nodes inside (-1,1)', x=x)
        P = (hermite_he if kind == 'Hermite' else legendre)(x, N)
        G = np.dot(P.T, w * P)
        if kind == 'Legendre' or N <= 15:
            mon.close(G, np.eye(N), 'rule:exact for polynomials of degree up to 2N-1', atol=1e-8)
        if N <= 12:
            for d in range(2 * N):
                if kind == 'Hermite':
                    want = 0.0 if d % 2 else float(np.prod(np.arange(d - 1, 0, -2))) if d else 1.0
                else:
                    want = 0.0 if d % 2 else 1.0 / (d + 1)
                sc = np.dot(w.ravel(), np.abs(x.ravel()) ** d)
                mon.close(np.dot(w.ravel(), x.ravel() ** d), np.array(want), 'rule:moments', atol=1e-10 * max(sc, 1e-3),
                          d=d, N=N, kind=kind)


@family('Q01', 80, 800)
def q01_jacobi(mon, rng):
    """General Jacobi recurrence coefficients: the Jacobi matrix has the nodes of the rule as eigenvalues."""
    N = int(rng.randint(2, 20))
    a, b = [(0.0, 0.0), (rng.uniform(-0.9, 4), rng.uniform(-0.9, 4)), (-0.5, -0.5), (2, 1), (0.5, 0.5), (1, 0)][rng.randint(6)]
    l = rng.uniform(-3, 3) if chance(rng, 0.5) else int(rng.randint(-3, 3))
    r = l + (gen.logu(rng, -1, 1) if chance(rng, 0.5) else int(rng.randint(1, 5)))
    mon.input(N=N, a=a, b=b, l=l, r=r)
    with mon.guard('r_jacobi'):
        ab = gq.r_jacobi(N, l, r, a, b)
        J = gq.jacobi_matrix(ab)
    mon.check(ab.ndim == 2 and ab.shape[1] == 2, 'jacobi:coefficients in two columns', shape=ab.shape)
    n = J.shape[0]
    mon.shape(J, (ab.shape[0] - 1, ab.shape[0] - 1), 'jacobi:matrix shape')
    mon.close(J, J.T, 'jacobi:symmetric', atol=0)
    mon.check(np.all(np.triu(J, 2) == 0), 'jacobi:tridiagonal')
    x, w = roots_jacobi(n, a, b)
    w = w / w.sum()
    e, V = np.linalg.eigh(J)
    mon.close(e, l + (r - l) * (x + 1) / 2, 'jacobi:nodes', rtol=1e-9, scale=1 + abs(l) + abs(r), a=a, b=b)
    mon.close(V[0] ** 2, w, 'jacobi:weights', rtol=1e-8, a=a, b=b)
    with mon.guard('r_hermite'):
        H = gq.jacobi_matrix(gq.r_hermite(N))
    x, w = reference_1d(H.shape[0], 'Hermite')
    e, V = np.linalg.eigh(H)
    mon.close(e, x, 'hermite matrix:nodes', rtol=1e-10, scale=1 + np.abs(x).max())
    mon.close(V[0] ** 2, w, 'hermite matrix:weights', rtol=1e-9)


@family('Q01', 24, 60)
def q01_refusals(mon, rng):
    N = int(rng.randint(2, 9))
    mon.input(N=N)
    for bad in (float(N), str(N), None):
        mon.raises(lambda: gq.r_hermite(bad), 'refusal:r_hermite type', TypeError)
        mon.raises(lambda: gq.r_jacobi(bad, -1, 1, 0, 0), 'refusal:r_jacobi type', TypeError)
        mon.raises(lambda: gq.gauss_hermite(bad), 'refusal:gauss_hermite type', TypeError)
        mon.raises(lambda: gq.gauss_legendre(bad), 'refusal:gauss_legendre type', TypeError)
        mon.raises(lambda: gq.gauss_legendre((N, N)), 'refusal:tuple', TypeError)
        mon.raises(lambda: gq.gauss_hermite(np.array([N, N])), 'refusal:array', TypeError)
    for bad in (0, -N):
        mon.raises(lambda: gq.r_hermite(bad), 'refusal:r_hermite range', ValueError)
        mon.raises(lambda: gq.r_jacobi(bad, -1, 1, 0, 0), 'refusal:r_jacobi range', ValueError)
    mon.raises(lambda: gq.g1d(N, 'Laguerre'), 'refusal:unknown kind', ValueError)
    mon.raises(lambda: gq.g1d(N, 'hermite'), 'refusal:unknown kind', ValueError)
    mon.raises(lambda: gq.jacobi_matrix(rng.rand(2 * N)), 'refusal:matrix of one dimension', ValueError)
    mon.raises(lambda: gq.jacobi_matrix(rng.rand(N, 3)), 'refusal:three columns', ValueError)


# ---------------------------------------------------------------------------------------------------------------- Q02
about('Q02', """a tensor rule must be, as a set of (node, weight) pairs, the product of the reference one-dimensional rules, in every
 dimension and for unequal numbers of points.""")


@family('Q02', 200, 3000)
def q02_tensor(mon, rng):
    kind = ['Hermite', 'Legendre'][rng.randint(2)]
    while True:
        d = int(rng.randint(1, 6))
        big = 16 if chance(rng, 0.15) else 8
        NN = [int(rng.randint(1, big)) for i in range(d)]
        if np.prod(NN) <= (4000 if big > 8 else 800):
            break
    mon.input(nontrivial=d > 1, NN=NN, kind=kind)
    arg = list(NN)
    with mon.guard('tensor rule'):
        x, w = (gq.gauss_hermite if kind == 'Hermite' else gq.gauss_legendre)(arg)
    K = int(np.prod(NN))
    if not (mon.shape(x, (K, d), 'tensor:nodes shape', NN=NN) and mon.shape(w, (K, 1), 'tensor:weights shape', NN=NN)):
        return
    mon.check(arg == NN, 'tensor:numbers of points not changed')
    one = [reference_1d(n, kind) for n in NN]
    # locate every node on the grid
    ix = np.zeros((K, d), dtype=int)
    for j in range(d):
        D = np.abs(x[:, j][:, None] - one[j][0][None])
        ix[:, j] = D.argmin(1)
        mon.close(D.min(1), np.zeros(K), 'tensor:coordinates are one-dimensional nodes', atol=1e-10 * 10, NN=NN)
    mon.check(len(set(map(tuple, ix))) == K, 'tensor:every grid point once', NN=NN)
    want = np.prod([one[j][1][ix[:, j]] for j in range(d)], axis=0)
    mon.close(w.ravel(), want, 'tensor:weights are products', rtol=1e-10, NN=NN)
    mon.close(np.array(w.sum()), np.array(1.0), 'tensor:weights sum to one', rtol=1e-10)
    # per-coordinate moments, mixed moment
    al = [int(rng.randint(0, 2 * n)) for n in NN]
    want = 1.0
    for a in al:
        if a % 2:
            want = 0.0
        else:
            want *= (float(np.prod(np.arange(a - 1, 0, -2))) if a else 1.0) if kind == 'Hermite' else 1.0 / (a + 1)
    t = np.prod(x ** np.array(al), axis=1)
    sc = np.dot(w.ravel(), np.abs(t))
    mon.close(np.dot(w.ravel(), t), np.array(want), 'tensor:mixed moments', atol=1e-9 * max(sc, 1e-3), al=al, NN=NN)
    if kind == 'Hermite':
        with mon.guard('gauss_hermite_design'):
            D = de.gauss_hermite_design(list(NN))
        mon.shape(D, (K, d), 'tensor design:shape')
        mon.close(D, x, 'tensor design:nodes of the rule', atol=0)


# ---------------------------------------------------------------------------------------------------------------- Q03
about('Q03', """the rule on the full space is decomposed by its index into active points (compared with reference Gauss-Hermite
 grids or interval midpoints) and conditional samples; integrals are compared with exact Gaussian moments and with the
 weighted sums over the evaluations recorded inside the integrand.""")


def umap(rng, m, n):
    s = gen.subspaces(rng, m, n)
    return s, dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))


def bmap(rng, m, n):
    s, d = gen.bounded_pair(rng, m, n)
    return s, dm.BoundedActiveVariableMap(d)


def per_dim(N, n):
    k = 1
    while (k + 1) ** n <= N:
        k += 1
    return k


def grid(k, n):
    x, w = reference_1d(k, 'Hermite')
    Y = np.array(list(itertools.product(x, repeat=n))).reshape((-1, n))
    W = np.array([np.prod(t) for t in itertools.product(w, repeat=n)])
    return Y, W


def match(mon, A, B, label):
    """Permutation p with A[p] = B up to rounding."""
    D = np.abs(A[:, None, :] - B[None]).max(2)
    p = D.argmin(0)
    ok = len(set(p)) == len(B) and A.shape == B.shape
    mon.check(ok and D.min(0).max() < 1e-9, label, got=A, want=B)
    return p if ok else None


def pick_N(rng, n):
    k = int(rng.randint(1, {1: 12, 2: 7, 3: 6}.get(n, 3)))
    N = k ** n + [0, 0, -1, 1, int(rng.randint(0, 5))][rng.randint(5)]
    return max(1, N)


@family('Q03', 150, 3000)
def q03_unbounded_rule(mon, rng):
    m = int(rng.randint(1, 7))
    n = int(rng.randint(1, min(m, 4) + 1))
    N, NMC = pick_N(rng, n), int(rng.randint(1, 12))
    s, mp = umap(rng, m, n)
    mon.input(nontrivial=N > 1, W=s.eigenvecs, n=n, N=N, NMC=NMC)
    k = per_dim(N, n)
    Y, W = grid(k, n)
    with mon.guard('av_quadrature_rule'):
        Yp, Yw = ig.av_quadrature_rule(mp, N)
    K = k ** n
    mon.event('active nodes', K)
    if not (mon.shape(Yp, (K, n), 'unbounded:most points that fit', N=N, n=n) and mon.shape(Yw, (K, 1), 'unbounded:weights shape')):
        return
    p = match(mon, Yp, Y, 'unbounded:Gauss-Hermite grid')
    if p is not None:
        mon.close(Yw.ravel()[p], W, 'unbounded:weights', rtol=1e-10)
    with mon.guard('quadrature_rule'):
        Xp, Xw, ind = ig.quadrature_rule(mp, N, NMC=NMC) if NMC != 10 or chance(rng, 0.5) else ig.quadrature_rule(mp, N)
    mon.shape(Xp, (K * NMC, m), 'full rule:nodes shape')
    mon.shape(Xw, (K * NMC, 1), 'full rule:weights shape')
    mon.close(np.array(Xw.sum()), np.array(1.0), 'full rule:weights sum to one', rtol=1e-10)
    g = ind.ravel().astype(int)
    mon.check(g.size == K * NMC and np.array_equal(np.bincount(g, minlength=K), NMC * np.ones(K, dtype=int)),
              'full rule:NMC points per active node', ind=ind)
    A = np.dot(Xp, s.W1)
    p = match(mon, np.array([A[g == i][0] for i in range(K)]), Y, 'full rule:active coordinates on the grid')
    if p is not None:
        pos = np.argsort(p)
        mon.close(A, Y[pos[g]], 'full rule:points of an index share the active node', atol=1e-9)
        mon.close(Xw.ravel(), W[pos[g]] / NMC, 'full rule:weights divided equally', rtol=1e-10)


@family('Q03', 60, 1000)
def q03_bounded_rule(mon, rng):
    m = int(rng.randint(1, 6))
    n = int(rng.randint(1, min(m, 3) + 1)) if chance(rng, 0.6) else 1
    n = min(n, 2) if chance(rng, 0.8) else n
    N, NMC = int(rng.randint(1, 15 if n == 1 else 7)), int(rng.randint(1, 6))
    if n > 1:
        N = max(N, 2)
    s, mp = bmap(rng, m, n)
    mon.input(nontrivial=m > 1, W=s.eigenvecs, n=n, N=N, NMC=NMC)
    from .p_respsurf import design_may_fail
    with mon.guard('quadrature_rule'), design_may_fail():
        Xp, Xw, ind = ig.quadrature_rule(mp, N, NMC=NMC)
    T = len(Xp)
    g = ind.ravel().astype(int)
    K = g.max() + 1
    if n == 1:
        mon.check(K == N, 'bounded rule:N active nodes on an interval', K=K, N=N)
    mon.check(T == K * NMC and Xp.shape == (T, m) and Xw.shape == (T, 1), 'bounded rule:shapes')
    mon.check(np.array_equal(np.bincount(g, minlength=K), NMC * np.ones(K, dtype=int)), 'bounded rule:NMC points per active node')
    mon.check(np.abs(Xp).max() <= 1 + 1e-6, 'bounded rule:nodes in the hypercube', worst=np.abs(Xp).max())
    mon.check(np.all(Xw >= 0), 'bounded rule:weights not negative')
    mon.close(np.array(Xw.sum()), np.array(1.0), 'bounded rule:weights sum to one', atol=1e-3 if n > 1 else 1e-10)
    A = np.dot(Xp, s.W1)
    for i in range(K):
        mon.close(A[g == i], np.tile(A[g == i][0], (NMC, 1)), 'bounded rule:points of an index share the active node', atol=1e-8)
        mon.close(Xw[g == i], np.tile(Xw[g == i][0], (NMC, 1)), 'bounded rule:weights divided equally', rtol=1e-12)
    if n == 1:
        r = np.abs(s.W1).sum()
        y = -r + 2 * r * (np.arange(N) + 0.5) / N
        mon.close(np.sort([A[g == i][0, 0] for i in range(K)]), y, 'bounded rule:midpoints of equal cells', rtol=1e-8, scale=r)


class Integrand(object):
    """Wraps f(x) and records what it was asked for."""

    def __init__(self, f):
        self.f, self.X = f, []

    def __call__(self, x):
        x = np.array(x, dtype=float)
        self.X.append(x.ravel().copy())
        return self.f(x.ravel())


def smooth_function(rng, m):
    a, b, c = rng.normal(size=m), rng.normal(size=m), rng.normal()
    return lambda x: c + np.dot(a, x) + np.sin(np.dot(b, x)) + 0.3 * np.dot(x, x)


@family('Q03', 100, 2000)
def q03_integrate_unbounded(mon, rng):
    """The estimate and its bounds are those of the recorded evaluations."""
    m = int(rng.randint(1, 6))
    n = int(rng.randint(1, min(m, 3) + 1))
    N, NMC = pick_N(rng, n), int(rng.randint(1, 12))
    s, mp = umap(rng, m, n)
    k = per_dim(N, n)
    Y, W = grid(k, n)
    h, off, amp = smooth_function(rng, m), 0.0, 1.0
    if chance(rng, 0.3):
        off, amp = rng.normal() * gen.logu(rng, 0, 3), gen.logu(rng, -5, 0)      # almost constant
    F = Integrand(lambda x: off + amp * h(x))
    seed = int(rng.randint(2 ** 31))
    mon.input(W=s.eigenvecs, n=n, N=N, NMC=NMC, seed=seed, off=off, amp=amp)
    np.random.seed(seed)
    fun = SimulationRunner(F) if chance(rng, 0.3) else F
    with mon.guard('integrate'):
        r = ig.integrate(fun, mp, N, NMC=NMC) if NMC != 10 or chance(rng, 0.5) else ig.integrate(fun, mp, N)
    mon.check(isinstance(r, tuple) and len(r) == 3 and all(np.ndim(v) == 0 for v in r), 'integrate:three numbers')
    mu, lb, ub = [float(v) for v in r]
    X = np.array(F.X)
    mon.check(len(X) == NMC * k ** n, 'integrate:evaluations', got=len(X), N=N, NMC=NMC)
    A = np.dot(X, s.W1)
    D = np.abs(A[:, None, :] - Y[None]).max(2)
    g = D.argmin(1)
    mon.check(D.min(1).max() < 1e-9 and np.array_equal(np.bincount(g, minlength=len(Y)), NMC * np.ones(len(Y), dtype=int)),
              'integrate:evaluates at the nodes of the rule')
    f = np.array([F.f(x) for x in X])
    E = np.array([f[g == i].mean() for i in range(len(Y))])
    V = np.array([f[g == i].var() for i in range(len(Y))])
    sc = np.abs(f).max() + 1e-300
    mon.close(np.array(mu), np.array(np.dot(W, E)), 'integrate:weighted average of the conditional averages', rtol=1e-9, scale=sc)
    half = 1.96 * np.sqrt(np.dot(W ** 2, V) / NMC)
    mon.close(np.array(ub - mu), np.array(half), 'integrate:upper bound', rtol=1e-6, scale=half + 1e-7 * sc, N=N, NMC=NMC)
    mon.close(np.array(mu - lb), np.array(half), 'integrate:lower bound', rtol=1e-6, scale=half + 1e-7 * sc)
    mon.check(lb <= mu <= ub, 'integrate:bounds enclose the estimate')
    # the same seed gives the same answer
    np.random.seed(seed)
    with mon.guard('integrate'):
        r2 = ig.integrate(Integrand(F.f), mp, N, NMC=NMC)
    mon.check(tuple(map(float, r2)) == (mu, lb, ub), 'integrate:reproducible', r=r, r2=r2)


@family('Q03', 100, 2000)
def q03_exact(mon, rng):
    """Constants everywhere, polynomials of the active variables on the Gaussian space: exact, without uncertainty."""
    m = int(rng.randint(1, 6))
    bounded = chance(rng, 0.3)
    n = int(rng.randint(1, min(m, 2 if bounded else 3) + 1))
    s, mp = (bmap if bounded else umap)(rng, m, n)
    c = rng.normal() * gen.logu(rng, -3, 3)
    N, NMC = pick_N(rng, n), int(rng.randint(1, 6))
    if bounded:
        N = max(N, 2)
    mon.input(W=s.eigenvecs, n=n, N=N, c=c, bounded=bounded)
    from .p_respsurf import design_may_fail
    with mon.guard('integrate'), design_may_fail():
        mu, lb, ub = ig.integrate(lambda x: c, mp, N, NMC=NMC)
        ma = ig.av_integrate(lambda y: c, mp, N)
    lost = 1e-3 if bounded and n > 1 else 1e-10
    for v in (mu, lb, ub, ma):
        mon.close(np.array(v), np.array(c), 'exact:constants', rtol=lost)
    if bounded:
        return
    k = per_dim(N, n)
    al = [int(rng.randint(0, 2 * k)) for i in range(n)]
    want = 0.0 if any(a % 2 for a in al) else float(np.prod([np.prod(np.arange(a - 1, 0, -2)) if a else 1.0 for a in al]))
    sc = float(np.prod([np.prod(np.arange(a, 0, -2)) if a else 1.0 for a in al])) + 1
    al = np.array(al)
    with mon.guard('integrate'):
        mu, lb, ub = ig.integrate(lambda x: np.prod(np.dot(x.ravel(), s.W1) ** al), mp, N, NMC=NMC)
        ma = ig.av_integrate(lambda y: np.prod(y.ravel() ** al), mp, N)
    for v in (mu, lb, ub, ma):
        mon.close(np.array(v), np.array(want), 'exact:polynomials of the active variables', atol=1e-8 * sc, al=al, N=N)


@family('Q03', 60, 1000)
def q03_integrate_bounded(mon, rng):
    """Linear in the integrand, weights of the cells, bounds from the evaluations: with the same seed every time."""
    m = int(rng.randint(1, 5))
    N, NMC = int(rng.randint(1, 8)), int(rng.randint(1, 6))
    s, mp = bmap(rng, m, 1)
    seed = int(rng.randint(2 ** 31))
    r = np.abs(s.W1).sum()
    mon.input(nontrivial=N > 1, W=s.eigenvecs, N=N, NMC=NMC, seed=seed)

    def run(f):
        np.random.seed(seed)
        with mon.guard('integrate'):
            return [float(v) for v in ig.integrate(f, mp, N, NMC=NMC)]

    def cell(x):
        return int(np.clip(np.floor((np.dot(x, s.W1)[0] + r) / (2 * r) * N), 0, N - 1))

    w = np.array([run(lambda x: 1.0 if cell(x.ravel()) == i else 0.0)[0] for i in range(N)])
    mon.check(np.all(w >= 0), 'bounded integral:weights not negative', w=w)
    mon.close(np.array(w.sum()), np.array(1.0), 'bounded integral:weights sum to one', rtol=1e-10)
    F = Integrand(smooth_function(rng, m))
    G = smooth_function(rng, m)
    mu, lb, ub = run(F)
    X = np.array(F.X)
    mon.check(len(X) == N * NMC, 'bounded integral:evaluations', got=len(X))
    mon.check(np.abs(X).max() <= 1 + 1e-6, 'bounded integral:evaluates in the hypercube', worst=np.abs(X).max())
    f = np.array([F.f(x) for x in X])
    g = np.array([cell(x) for x in X])
    mon.check(np.array_equal(np.bincount(g, minlength=N), NMC * np.ones(N, dtype=int)), 'bounded integral:NMC points per cell')
    E = np.array([f[g == i].mean() for i in range(N)])
    V = np.array([f[g == i].var() for i in range(N)])
    sc = np.abs(f).max()
    mon.close(np.array(mu), np.array(np.dot(w, E)), 'bounded integral:weighted conditional averages', rtol=1e-9, scale=sc)
    half = 1.96 * np.sqrt(np.dot(w ** 2, V) / NMC)
    mon.close(np.array(ub - mu), np.array(half), 'bounded integral:upper bound', rtol=1e-7, scale=half + 1e-6 * sc)
    mon.close(np.array(mu - lb), np.array(half), 'bounded integral:lower bound', rtol=1e-7, scale=half + 1e-6 * sc)
    a, b = rng.normal(size=2)
    mg = run(lambda x: G(x.ravel()))[0]
    ml = run(lambda x: a * F.f(x.ravel()) + b * G(x.ravel()))[0]
    mon.close(np.array(ml), np.array(a * mu + b * mg), 'bounded integral:linear', rtol=1e-9, scale=(abs(a) + abs(b)) * (sc + abs(mg) + 1))
    np.random.seed(seed)
    with mon.guard('av_integrate'):
        h = lambda y: np.cos(3 * y.ravel()[0]) + y.ravel()[0]
        ma = ig.av_integrate(h, mp, N)
    y = -r + 2 * r * (np.arange(N) + 0.5) / N
    mon.check(abs(ma) <= 1 + r, 'av_integrate:between the extremes of the integrand')
    mon.check(min(h(np.array([t])) for t in y) - 1e-9 <= ma <= max(h(np.array([t])) for t in y) + 1e-9, 'av_integrate:average of the node values')


@family('Q03', 60, 1000)
def q03_surface(mon, rng):
    """A response surface of the active variables is integrated like the function it is."""
    m = int(rng.randint(2, 6))
    bounded = chance(rng, 0.5)
    n = int(rng.randint(1, min(m, 2) + 1))
    s, mp = (bmap if bounded else umap)(rng, m, n)
    R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2) if chance(rng, 0.6) else None)
    X = rng.uniform(-1, 1, size=(40, m)) if bounded else rng.normal(size=(40, m))
    f = np.array([np.sin(x[0]) + np.dot(x, s.W1[:, 0]) ** 2 for x in X]).reshape((-1, 1))
    N = max(pick_N(rng, n), 2)
    seed = int(rng.randint(2 ** 31))
    mon.input(X=X, f=f, W=s.eigenvecs, n=n, N=N, bounded=bounded)
    from .p_respsurf import design_may_fail
    with mon.guard('av_integrate'), design_may_fail():
        R.train_with_data(X, f)
        np.random.seed(seed)
        a = ig.av_integrate(R, mp, N)
        np.random.seed(seed)
        b = ig.av_integrate(lambda y: R.predict_av(y.reshape((1, n)))[0][0, 0], mp, N)
        other = copy.deepcopy(mp) if chance(rng, 0.5) else type(mp)(copy.deepcopy(mp.domain))
        np.random.seed(seed)
        a2 = ig.av_integrate(R, other, N)
    mon.close(np.array(a), np.array(b), 'surface:same as the function', rtol=1e-9, scale=np.abs(f).max())
    mon.close(np.array(a2), np.array(a), 'surface:same over an equal map', rtol=1e-9, scale=np.abs(f).max())
    mon.check(np.ndim(a) == 0, 'surface:a number')


@family('Q03', 24, 100)
def q03_refusals(mon, rng):
    m = int(rng.randint(2, 5))
    s, mp = umap(rng, m, 1)
    mon.input(W=s.eigenvecs)
    f = lambda x: 1.0
    for bad in (mp.domain, s, None, s.W1):
        mon.raises(lambda: ig.integrate(f, bad, 4), 'refusal:not a map', TypeError)
        mon.raises(lambda: ig.av_integrate(f, bad, 4), 'refusal:not a map', TypeError)
        mon.raises(lambda: ig.quadrature_rule(bad, 4), 'refusal:not a map', TypeError)
    for bad in (4.0, '4', None, [4]):
        mon.raises(lambda: ig.integrate(f, mp, bad), 'refusal:N not an integer', TypeError)
        mon.raises(lambda: ig.av_integrate(f, mp, bad), 'refusal:N not an integer', TypeError)
        mon.raises(lambda: ig.quadrature_rule(mp, bad), 'refusal:N not an integer', TypeError)
        mon.raises(lambda: ig.quadrature_rule(mp, 4, NMC=bad), 'refusal:NMC not an integer', TypeError)


# ---------------------------------------------------------------------------------------------------------------- Q04
about('Q04', """cell weights against the distribution of W1^T x for uniform x: the exact closed form (inclusion-exclusion over the
 corners) for intervals and large reference samples for zonotopes, at deviations of probability below 1e-9.""")


def pushforward_cdf(w, t):
    """P(w . x <= t) for x uniform on [-1,1]^m."""
    w = np.abs(np.asarray(w, dtype=float).ravel())
    m = w.size
    s = 0.0
    for sg in itertools.product([-1, 1], repeat=m):
        sg = np.array(sg)
        s += np.prod(sg) * max(t + np.dot(sg, w), 0.0) ** m
    return s / (2.0 ** m * math.factorial(m) * np.prod(w))


def binom_dev(p, n):
    """Deviation of a relative frequency exceeded with probability < 1e-9 (Bernstein)."""
    L = 21.5
    return np.sqrt(2 * p * (1 - p) * L / n) + L / n


@family('Q04', 150, 2500)
def q04_interval(mon, rng):
    m = int(rng.randint(7, 24)) if chance(rng, 0.12) else int(rng.randint(1, 7))
    if m > 6 and chance(rng, 0.6):
        # few of many inputs matter: the law of the active variable is far from normal
        w = 0.01 * rng.normal(size=(m, 1))
        w[:int(rng.randint(1, 3))] = 1.0
        W = np.linalg.qr(np.hstack((w[rng.permutation(m)], rng.normal(size=(m, m - 1)))))[0]
        s = gen.subspaces(rng, m, 1, W=W)
        mp = dm.BoundedActiveVariableMap(dm.BoundedActiveVariableDomain(s))
    else:
        s, mp = bmap(rng, m, 1)
    w = s.W1.ravel()
    exact = m <= 5 and np.abs(w).min() > 0.08
    N = gen.sizes(rng, 1, 12, 60)
    NX = [None, 500, 20000, 10000][rng.randint(4)]
    mon.input(nontrivial=m > 1, W=s.eigenvecs, N=N, NX=NX)
    with mon.guard('interval_quadrature_rule'):
        if NX is None and chance(rng, 0.5):
            Yp, Yw = ig.av_quadrature_rule(mp, N)
        else:
            Yp, Yw = ig.interval_quadrature_rule(mp, N) if NX is None else ig.interval_quadrature_rule(mp, N, NX=NX)
    NX = NX or 10000
    r = np.abs(w).sum()
    edges = np.linspace(-r, r, N + 1)
    if not (mon.shape(Yp, (N, 1), 'interval:N nodes') and mon.shape(Yw, (N, 1), 'interval:N weights')):
        return
    o = np.argsort(Yp.ravel())
    mon.close(Yp.ravel()[o], 0.5 * (edges[1:] + edges[:-1]), 'interval:midpoints of equal cells', rtol=1e-9, scale=r)
    mon.check(np.all(Yw >= 0), 'interval:weights not negative')
    mon.close(np.array(Yw.sum()), np.array(1.0), 'interval:weights sum to one', rtol=1e-9)
    if exact:
        F = np.array([pushforward_cdf(w, t) for t in edges])
        p = np.diff(F)
        lim = binom_dev(np.clip(p, 0, 1), NX) + 1e-6
        mon.event('exact law')
    else:
        NR = 200000
        y = np.dot(rng.uniform(-1, 1, size=(NR, m)), w)
        p = np.histogram(y, bins=edges)[0] / float(NR)
        lim = binom_dev(np.clip(p + binom_dev(p, NR), 0, 0.5), NX) + binom_dev(p, NR)
        mon.event('sampled law')
    d = np.abs(Yw.ravel()[o] - p)
    mon.check(np.all(d <= lim), 'interval:weights are the probabilities of the cells', w=w, got=Yw.ravel()[o], p=p, lim=lim)


@family('Q04', 50, 800)
def q04_zonotope(mon, rng):
    m = int(rng.randint(2, 7))
    n = 2 if chance(rng, 0.8) else min(3, m)
    s, mp = bmap(rng, m, n)
    N = int(rng.randint(1, 8 if n == 2 else 5))
    NX = [None, 3000, 20000][rng.randint(3)]
    mon.input(W=s.eigenvecs, n=n, N=N, NX=NX)
    from .p_respsurf import design_may_fail
    with mon.guard('zonotope_quadrature_rule'), design_may_fail():
        if NX is None and chance(rng, 0.5):
            Yp, Yw = ig.av_quadrature_rule(mp, N)
        else:
            Yp, Yw = ig.zonotope_quadrature_rule(mp, N) if NX is None else ig.zonotope_quadrature_rule(mp, N, NX=NX)
        D = de.maximin_design(mp.domain.vertY, N)
    NX = NX or 10000
    from scipy.spatial import Delaunay
    T = Delaunay(np.vstack((mp.domain.vertY, D)))
    K = T.nsimplex
    if not (mon.shape(Yp, (K, n), 'zonotope:one node per simplex') and mon.shape(Yw, (K, 1), 'zonotope:one weight per simplex')):
        return
    cen = T.points[T.simplices].mean(1)
    dist = np.abs(Yp[:, None, :] - cen[None]).max(2)
    p = dist.argmin(0)
    if not mon.check(dist.min(0).max() < 1e-9 and len(set(p)) == K, 'zonotope:nodes are the centroids of the simplices'):
        return
    A, h = gen.zonotope_halfspaces(s.W1)
    mon.check(np.all(np.abs(np.dot(Yp, A.T)) <= h * (1 + 1e-6)), 'zonotope:nodes inside the zonotope')
    mon.check(np.all(Yw >= 0), 'zonotope:weights not negative')
    mon.close(np.array(Yw.sum()), np.array(1.0), 'zonotope:weights sum to one', atol=1e-3)
    NR = 100000
    y = np.dot(rng.uniform(-1, 1, size=(NR, m)), s.W1)
    # own point location: barycentric coordinates in every simplex
    q = np.zeros(K)
    for i in range(K):
        V = T.points[T.simplices[i]]
        M = (V[1:] - V[0]).T
        if abs(np.linalg.det(M)) < 1e-10:
            q[i] = np.nan
            continue
        b = np.linalg.solve(M, (y - V[0]).T)
        q[i] = np.mean(np.all(b >= 0, axis=0) & (b.sum(0) <= 1))
    ok = ~np.isnan(q)
    q = np.where(ok, q, 0.0)
    lim = binom_dev(np.clip(q + binom_dev(q, NR), 0, 0.5), NX) + binom_dev(q, NR) + 1e-4
    d = np.abs(Yw.ravel()[p] - q)
    mon.check(np.all((d <= lim)[ok]), 'zonotope:weights are the probabilities of the cells', got=Yw.ravel()[p], q=q, lim=lim)
    mon.event('cells', K)


@family('Q04', 30, 300)
def q04_precision(mon, rng):
    """The weights scatter no more than relative frequencies of the documented number of samples do."""
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, 3))
    s, mp = bmap(rng, m, n)
    n = s.W1.shape[1]
    N = int(rng.randint(3, 20 if n == 1 else 6))
    NX = [None, 1000, 10000][rng.randint(3)]
    mon.input(W=s.eigenvecs, n=n, N=N, NX=NX)
    from .p_respsurf import design_may_fail
    R, w = 8, []
    for i in range(R):
        with mon.guard('quadrature rule'), design_may_fail():
            if NX is None:
                w.append(ig.av_quadrature_rule(mp, N)[1].ravel())
            else:
                w.append((ig.interval_quadrature_rule if n == 1 else ig.zonotope_quadrature_rule)(mp, N, NX=NX)[1].ravel())
    NX = NX or 10000
    w = np.array(w)
    p = w.mean(0)
    ok = p * NX * R > 40
    K = ok.sum()
    if K < 2:
        raise Skip('one cell')
    S = (((w - p) ** 2)[:, ok] / p[ok]).sum() * NX
    from scipy.stats import chi2
    mon.event('cells', K)
    mon.check(S < 1.2 * chi2.isf(1e-10, (R - 1) * K), 'precision:weights scatter as the documented sample size allows',
              S=S, expected=(R - 1) * (K - 1), n=n)


# ---------------------------------------------------------------------------------------------------------------- Q05
about('Q05', """intervals: the design equals the interior of an equally spaced grid; polytopes: inequalities of an independently computed
 hull, pairwise and vertex separations, repeatability and the state of the random generator.""")


@family('Q05', 120, 1500)
def q05_interval(mon, rng):
    a = rng.normal() * gen.logu(rng, -2, 2) if chance(rng, 0.7) else int(rng.randint(-5, 5))
    b = a + gen.logu(rng, -3, 3) if chance(rng, 0.8) else a + int(rng.randint(1, 9))
    N = gen.sizes(rng, 1, 20, 400)
    mon.input(a=a, b=b, N=N)
    with mon.guard('interval_design'):
        D = de.interval_design(a, b, N)
    if not mon.shape(D, (N, 1), 'interval design:N points in a column'):
        return
    want = a + (b - a) * (np.arange(N) + 1.0) / (N + 1)
    mon.close(D.ravel(), want, 'interval design:equally spaced', rtol=1e-12, scale=abs(a) + abs(b))
    if b - a > 1e-6 * (abs(a) + abs(b)):
        mon.check(np.all(D > a) and np.all(D < b), 'interval design:without the endpoints')


def polytope(rng):
    n = int(rng.randint(2, 4))
    k = rng.randint(4)
    if k == 0:
        V = rng.normal(size=(int(rng.randint(n + 2, 10)), n))
    elif k == 1:
        V = np.array(list(itertools.product([-1.0, 1.0], repeat=n))) * rng.uniform(0.5, 2, size=n)
    else:
        m = int(rng.randint(n, 7))
        s, d = gen.bounded_pair(rng, m, n)
        V = d.vertY
    from scipy.spatial import ConvexHull
    V = V[ConvexHull(V).vertices]
    sh = np.zeros(n)
    if k == 3:
        sh = rng.normal(size=n) * 3
        V = V + sh
    return V, k, sh


def separation(D, V):
    """Smallest distance among the points and to the vertices."""
    d = np.sqrt(((D[:, None, :] - V[None]) ** 2).sum(2)).min()
    if len(D) > 1:
        E = np.sqrt(((D[:, None, :] - D[None]) ** 2).sum(2)) + 1e9 * np.eye(len(D))
        d = min(d, E.min())
    return d


def random_inside(rng, V, A, b, N):
    lo, hi = V.min(0), V.max(0)
    P = rng.uniform(lo, hi, size=(400 * N, V.shape[1]))
    return P[np.all(np.dot(P, A.T) + b <= 0, axis=1)][:N]


@family('Q05', 120, 2000)
def q05_polytope(mon, rng):
    V, kind, sh = polytope(rng)
    n = V.shape[1]
    N = int(rng.randint(1, 8 if n == 2 else 6))
    if chance(rng, 0.12):
        N = int(rng.randint(8, 41))
    mon.input(V=V, N=N)
    mon.event(['general polytope', 'box', 'zonotope', 'shifted zonotope'][kind])
    np.random.seed(int(rng.randint(2 ** 31)))
    st = np.random.get_state()
    from .p_respsurf import design_may_fail
    V0 = layout(rng, V)
    with mon.guard('maximin_design'), design_may_fail():
        D = de.maximin_design(V0, N)
    st2 = np.random.get_state()
    mon.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], 'maximin:random generator as before')
    if not mon.shape(D, (N, n), 'maximin:N points'):
        return
    from scipy.spatial import ConvexHull
    C = ConvexHull(V)
    A, b = C.equations[:, :n], C.equations[:, n]
    size = np.ptp(V, axis=0).max()
    mon.check((np.dot(D, A.T) + b).max() <= 1e-9 * size, 'maximin:inside the polytope', worst=(np.dot(D, A.T) + b).max())
    sep = separation(D, V)
    mon.check(sep > 1e-3 * size * (1 if kind else 1e-3) * (1 if N < 8 else 1e-2), 'maximin:points apart from each other and from the vertices', sep=sep,
              size=size, D=D, V=V)
    if kind and N < 8:                                    # with more points the local searches end further from the best
        best = 0.0
        for t in range(30):
            R = random_inside(rng, V, A, b, N)
            if len(R) == N:
                best = max(best, separation(R, V))
        mon.check(sep >= 0.4 * best, 'maximin:spread out like the best of random designs', sep=sep, best=best, V=V, D=D)
        mon.event('designs compared with random ones')
    np.random.seed(int(rng.randint(2 ** 31)))
    with mon.guard('maximin_design'), design_may_fail():
        D2 = de.maximin_design(V0, N)
    mon.close(D2, D, 'maximin:repeatable', atol=0)


# ---------------------------------------------------------------------------------------------------------------- Q06
about('Q06', "averages and population variances of every group, by exactly rounded sums over the group's members.")


@family('Q06', 300, 5000)
def q06_groups(mon, rng):
    n = gen.sizes(rng, 1, 10, 80)
    cnt = rng.randint(1, [2, 4, 12, 90][rng.randint(4)] + 1, size=n)
    if chance(rng, 0.1):
        cnt[rng.randint(n)] = gen.sizes(rng, 100, 700, 5000, 0.3)
    ind = np.repeat(np.arange(n), cnt)
    if chance(rng, 0.6):
        ind = ind[rng.permutation(ind.size)]
    f = rng.normal(size=ind.size) * gen.logu(rng, -3, 3) + rng.normal() * gen.logu(rng, -2, 2)
    k = rng.randint(4)
    if k == 0:
        f = rng.randint(-9, 10, size=ind.size)
    if k == 1:
        f = f[rng.randint(ind.size)] * np.ones(ind.size)
    dt = [int, float, np.int64][rng.randint(3)]
    F, I = f.reshape((-1, 1)), ind.astype(dt).reshape((-1, 1))
    mon.input(nontrivial=n > 1, f=f, ind=ind)
    with mon.guard('conditional_expectations'):
        E, V = mi.conditional_expectations(layout(rng, F), layout(rng, I))
    if not (mon.shape(E, (n, 1), 'groups:averages shape') and mon.shape(V, (n, 1), 'groups:variances shape')):
        return
    we, wv = np.zeros(n), np.zeros(n)
    for i in range(n):
        g = [float(v) for v, j in zip(f, ind) if j == i]
        we[i] = math.fsum(g) / len(g)
        wv[i] = math.fsum((v - we[i]) ** 2 for v in g) / len(g)
    if f.dtype.kind == 'f' and chance(rng, 0.15):
        # an output that is not a number makes its group's average none either, and no other group's
        bad = int(rng.randint(ind.size))
        B = np.array(F)
        B[bad] = [np.nan, np.inf, -np.inf][rng.randint(3)]
        with mon.guard('conditional_expectations'):
            EB = mi.conditional_expectations(B, I)[0].ravel()
        k = int(ind[bad])
        mon.check(not np.isfinite(EB[k]), 'groups:missing outputs are not hidden', E=EB, group=k)
        mon.close(np.delete(EB, k), np.delete(we, k), 'groups:missing outputs stay in their group', rtol=1e-12, scale=np.abs(f).max())
    sc = np.abs(f).max()
    mon.close(E.ravel(), we, 'groups:averages', rtol=1e-12, scale=sc)
    mon.check(np.all(np.abs(V.ravel() - wv) <= 1e-11 * wv + 1e-22 * sc ** 2), 'groups:variances', got=V, want=wv)
    mon.check(np.all(V >= 0), 'groups:variances not negative')


@family('Q06', 60, 800)
def q06_conditional_of_map(mon, rng):
    """With the index of an inverse map: a function of the active variables has its values as averages and no variance."""
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, m + 1))
    s, mp = umap(rng, m, n)
    NY, N = int(rng.randint(1, 12)), int(rng.randint(1, 9))
    Y = rng.normal(size=(NY, n))
    mon.input(Y=Y, W=s.eigenvecs, N=N)
    a = rng.normal(size=n)
    with mon.guard('conditional_expectations'):
        X, ind = mp.inverse(Y, N)
        E, V = mi.conditional_expectations(np.cos(np.dot(np.dot(X, s.W1), a)).reshape((-1, 1)), ind)
    mon.close(E.ravel(), np.cos(np.dot(Y, a)), 'active functions:averages', atol=1e-9)
    mon.close(V.ravel(), np.zeros(NY), 'active functions:no variance', atol=1e-15)
