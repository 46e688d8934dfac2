"""D01..D04: domains of the active variables and the maps between coordinates."""
import itertools

import numpy as np
from scipy.optimize import linprog

from active_subspaces import domains as dm
from active_subspaces import subspaces as ss

from .core import family, about, Skip
from . import gen
from .gen import chance, layout

# ---------------------------------------------------------------------------------------------------------------- D01
about('D01', """the reported boundary is compared with the image of the hypercube through its support function
 (sum of |w_i . u| over the rows of the basis) and through facets from (n-1)-subsets of rows, neither of which uses
 sampling or Qhull.""")


def cons_list(c):
    return [c] if isinstance(c, dict) else list(c)


def check_domain(mon, d, W1, rng, label):
    m, n = W1.shape
    V, X = d.vertY, d.vertX
    mon.check(V.ndim == 2 and V.shape[1] == n and X.shape == (V.shape[0], m), label + ':shapes', V=V.shape, X=X.shape)
    mon.close(np.dot(X, W1), V, label + ':corner k maps to vertex k', atol=1e-11 * m)
    mon.check(np.all(np.abs(X) <= 1), label + ':corners in the hypercube')
    if np.all(np.abs(W1).max(1) > 0):
        mon.check(np.all(np.abs(X) == 1), label + ':corners of the hypercube', X=X)
    for t in range(12):
        u = rng.normal(size=n)
        if t < n:
            u = np.eye(n)[t]
        mon.close(np.array(np.dot(V, u).max()), np.array(gen.support(W1, u)), label + ':support function', rtol=1e-9)
        mon.close(np.array(np.dot(V, u).min()), np.array(-gen.support(W1, u)), label + ':support function (below)',
                  rtol=1e-9)
    if n == 1:
        mon.check(V.shape == (2, 1) and V[0, 0] < V[1, 0], label + ':interval in order', V=V)
        mon.check(d.convhull is None and d.constraints is None, label + ':no hull of an interval')
        return
    mon.check(V.shape[0] == dm.nzv(m, n), label + ':number of vertices', got=V.shape[0], m=m, n=n)
    D = np.abs(V[:, None, :] - V[None]).max(2) + np.eye(len(V))
    mon.check(D.min() > 1e-9, label + ':vertices distinct')
    A, h = gen.zonotope_halfspaces(W1)
    mon.check(np.all(np.abs(np.dot(V, A.T)).max(0) >= h * (1 - 1e-9)), label + ':every facet is touched')
    onf = (np.abs(np.abs(np.dot(V, A.T)) - h) < 1e-9).sum(1)
    mon.check(np.all(onf >= n), label + ':vertices are extreme points', onf=onf)
    H = d.convhull.equations
    mon.check(np.all(np.dot(V, H[:, :n].T) + H[:, n] <= 1e-9), label + ':hull contains the vertices')
    cons = cons_list(d.constraints)
    mon.check(all(c['type'] == 'ineq' for c in cons), label + ':inequality constraints')
    for t in range(30):
        y = rng.normal(size=n)
        s = (np.abs(np.dot(A, y)) / h).max()
        y = y / s * [0.3, 0.9, 0.999, 1.001, 1.1, 2.0, 1 - 1e-7, 1 + 1e-7][rng.randint(8)]
        if t % 3 == 0:                           # next to a vertex, or between vertices of the same facet
            k = rng.randint(len(A))
            on = V[np.abs(np.dot(V, A[k]) - h[k]) < 1e-9 * h[k]]
            if len(on):
                w = rng.dirichlet(np.ones(len(on))) if chance(rng, 0.5) else np.eye(len(on))[rng.randint(len(on))]
                y = np.dot(w, on) * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -3))
        g = np.concatenate([np.ravel(c['fun'](y)) for c in cons])
        inside = (np.abs(np.dot(A, y)) <= h).all()
        mon.check((g.min() >= 0) == inside, label + ':constraints hold inside only', y=y, g=g.min(), inside=inside)
        # the smallest slack is the distance to the boundary for unit normals: at least the sign change is on it
        if 'jac' in cons[0]:
            for c in cons:
                J = np.atleast_2d(c['jac'](y))
                dy = rng.normal(size=n)
                mon.close(np.ravel(c['fun'](y + dy)) - np.ravel(c['fun'](y)), np.dot(J, dy),
                          label + ':constraint gradient', atol=1e-9)


def basis_1d(rng, m):
    w = rng.normal(size=(m, 1)) * 10.0 ** rng.uniform(-3, 0, size=(m, 1))
    if chance(rng, 0.3):
        w[rng.randint(m)] = 0.0
    if chance(rng, 0.2):
        w = np.ones((m, 1)) * rng.choice([-1, 1], size=(m, 1))
    if not np.any(w):
        w[0] = 1
    return w / np.linalg.norm(w)


@family('D01', 250, 5000)
def d01_interval(mon, rng):
    m = gen.sizes(rng, 1, 10, 60)
    W1 = basis_1d(rng, m)
    mon.input(nontrivial=m > 1, W1=W1)
    Q = np.linalg.qr(np.hstack((W1, rng.normal(size=(m, m - 1)))))[0]
    Q[:, :1] = W1
    s = gen.subspaces(rng, m, 1, W=Q)
    with mon.guard('BoundedActiveVariableDomain n=1'):
        d = dm.BoundedActiveVariableDomain(s)
        Y, X = dm.interval_endpoints(layout(rng, W1))
    mon.check(d.m == m and d.n == 1 and d.subspaces is s, 'interval:attributes')
    check_domain(mon, d, W1, rng, 'interval')
    r = np.abs(W1).sum()
    mon.close(Y, np.array([[-r], [r]]), 'interval:endpoints', rtol=1e-12)
    mon.close(np.dot(X, W1), Y, 'interval:corners map to endpoints', rtol=1e-12)


@family('D01', 120, 2500)
def d01_zonotope(mon, rng):
    n = int(rng.randint(2, 4))
    m = int(rng.randint(n, 8 if n == 2 else 7))
    s = gen.subspaces(rng, m, n)
    if not gen.general_position(s.W1, 2e-3 if n == 3 else 4e-3):
        raise Skip('general position')
    mon.input(W1=s.W1)
    with mon.guard('BoundedActiveVariableDomain'):
        d = dm.BoundedActiveVariableDomain(s)
    mon.check(d.m == m and d.n == n and d.subspaces is s, 'zonotope:attributes')
    mon.event('vertices', len(d.vertY))
    check_domain(mon, d, s.W1, rng, 'zonotope')


@family('D01', 60, 900)
def d01_tiny_rows(mon, rng):
    """Some inputs hardly matter: short edges, and facets that are almost parallel."""
    n = int(rng.randint(2, 4))
    m = int(rng.randint(n + 1, 7))
    A = rng.normal(size=(m, n)) * 10.0 ** -np.where(rng.rand(m) < 0.5, rng.uniform(1, 4, size=m), 0).reshape(m, 1)
    W1 = np.linalg.qr(A)[0]
    if not gen.general_position(W1 / np.linalg.norm(W1, axis=1).reshape(m, 1), 2e-2) or not gen.cones_seen(rng, W1):
        raise Skip('general position')
    Q = np.linalg.qr(np.hstack((W1, rng.normal(size=(m, m - n)))))[0]
    Q[:, :n] = W1
    s = gen.subspaces(rng, m, n, W=Q)
    mon.input(W1=W1)
    with mon.guard('BoundedActiveVariableDomain'):
        d = dm.BoundedActiveVariableDomain(s)
    mon.event('shortest generator 1e%d' % np.floor(np.log10(np.linalg.norm(W1, axis=1).min())))
    check_domain(mon, d, W1, rng, 'tiny rows')


@family('D01', 60, 1200)
def d01_vertices_small_samples(mon, rng):
    """Few samples per sweep: the search must go on until all vertices are found."""
    n = int(rng.randint(1, 5))
    m = int(rng.randint(n, 7))
    W1 = gen.orth(rng, m)[:, :n]
    if not gen.general_position(W1, 5e-3) or not gen.cones_seen(rng, W1):
        raise Skip('general position')
    k = int(rng.randint(1, 60))
    mon.input(W1=W1, k=k)
    with mon.guard('zonotope_vertices'):
        Y, X = dm.zonotope_vertices(layout(rng, W1), Nsamples=float(k) if chance(rng, 0.3) else k)
    mon.check(Y.shape == (dm.nzv(m, n), n) and X.shape == (dm.nzv(m, n), m), 'sweeps:all vertices', Y=Y.shape)
    mon.close(np.dot(X, W1), Y, 'sweeps:corners map to vertices', atol=1e-11)
    mon.check(np.unique(X, axis=0).shape[0] == X.shape[0], 'sweeps:no corner twice')
    mon.check(np.all(np.abs(X) == 1), 'sweeps:corners')
    for t in range(20):
        u = rng.normal(size=n)
        mon.close(np.array(np.dot(Y, u).max()), np.array(gen.support(W1, u)), 'sweeps:support function', rtol=1e-9)


@family('D01', 30, 500)
def d01_many_vertices(mon, rng):
    """Domains with up to a few hundred vertices."""
    n = int(rng.randint(2, 6))
    m = int(rng.randint({2: 2, 3: 7, 4: 7, 5: 7}[n], {2: 45, 3: 12, 4: 9, 5: 8}[n]))
    if n == 2:
        t = np.pi * (np.arange(m) + rng.uniform(-0.35, 0.35, size=m)) / m
        W1 = np.array([np.cos(t), np.sin(t)]).T * rng.uniform(0.3, 1, size=(m, 1))
        W1 = W1[rng.permutation(m)] * rng.choice([-1, 1], size=(m, 1))
    else:
        for t in range(6):
            W1 = gen.orth(rng, m)[:, :n]
            if gen.cones_seen(rng, W1, 60000, 5):
                break
        else:
            raise Skip('narrow cones')
    if not gen.cones_seen(rng, W1, 60000, 5):
        raise Skip('narrow cones')
    mon.input(W1=W1)
    with mon.guard('zonotope_vertices'):
        Y, X = dm.zonotope_vertices(layout(rng, np.ascontiguousarray(W1)))
    mon.event('vertices', len(Y))
    mon.event('more than 64 vertices', int(len(Y) > 64))
    mon.check(Y.shape == (dm.nzv(m, n), n) and X.shape == (dm.nzv(m, n), m), 'many:all vertices', Y=Y.shape)
    mon.close(np.dot(X, W1), Y, 'many:corners map to vertices', atol=1e-11)
    mon.check(np.unique(X, axis=0).shape[0] == X.shape[0] and np.all(np.abs(X) == 1), 'many:distinct corners')
    for t in range(20):
        u = rng.normal(size=n)
        mon.close(np.array(np.dot(Y, u).max()), np.array(gen.support(W1, u)), 'many:support function', rtol=1e-9)


@family('D01', 30, 300)
def d01_budget(mon, rng):
    """When the sampling budget is too small the points found are still right, and none is invented."""
    n = int(rng.randint(2, 4))
    m = int(rng.randint(n + 3, 9))
    W1 = gen.orth(rng, m)[:, :n]
    mon.input(W1=W1)
    with mon.guard('zonotope_vertices'):
        Y, X = dm.zonotope_vertices(W1, Nsamples=int(rng.randint(1, 4)), maxcount=int(rng.randint(0, 3)))
    mon.close(np.dot(X, W1), Y, 'budget:corners map to vertices', atol=1e-11)
    A, h = gen.zonotope_halfspaces(W1)
    mon.check(np.all(np.abs(np.dot(Y, A.T)) <= h * (1 + 1e-9)), 'budget:inside the zonotope')
    mon.check(np.unique(X, axis=0).shape[0] == X.shape[0] and np.array_equal(
        np.unique(X, axis=0), np.unique(-X, axis=0)), 'budget:found in opposite pairs')


@family('D01', 40, 400)
def d01_nzv(mon, rng):
    from math import comb
    m = int(rng.randint(1, 30))
    n = int(rng.randint(1, m + 1))
    mon.input(m=m, n=n)
    with mon.guard('nzv'):
        k = dm.nzv(m, n)
    mon.check(k == 2 * sum(comb(m - 1, i) for i in range(n)), 'nzv:number of zonotope vertices', m=m, n=n, k=k)
    if n == m:
        mon.check(k == 2 ** m, 'nzv:hypercube', k=k)
    for bad in ((2.0, 1), (3, 1.0), ('3', 1)):
        mon.raises(lambda: dm.nzv(*bad), 'nzv:non-integers rejected', TypeError)


@family('D01', 50, 900)
def d01_repartition(mon, rng):
    """After the dimension is changed, recomputing the boundary describes the new active subspace."""
    m = int(rng.randint(3, 6))
    W = gen.orth(rng, m)
    ns = [int(rng.randint(1, 4)) for i in range(3)]
    if not all(gen.general_position(W[:, :k], 1e-2) for k in ns if k <= m):
        raise Skip('general position')
    s = gen.subspaces(rng, m, ns[0], W=W)
    mon.input(W=W, ns=ns)
    with mon.guard('BoundedActiveVariableDomain'):
        d = dm.BoundedActiveVariableDomain(s)
    for k in ns:
        s.partition(k)
        with mon.guard('compute_boundary'):
            d.compute_boundary()
        check_domain(mon, d, W[:, :k], rng, 'repartition')
    for cls in (dm.BoundedActiveVariableDomain, dm.UnboundedActiveVariableDomain):
        mon.raises(lambda: cls(ss.Subspaces()), 'domain:uncomputed subspaces rejected', ValueError)
        mon.raises(lambda: cls(W), 'domain:not a Subspaces rejected', TypeError)
    with mon.guard('UnboundedActiveVariableDomain'):
        u = dm.UnboundedActiveVariableDomain(s)
    mon.check(u.vertY is None and u.vertX is None and u.convhull is None and u.constraints is None
              and (u.m, u.n) == (m, ns[-1]), 'domain:unbounded has no boundary')


@family('D01', 50, 900)
def d01_recompute(mon, rng):
    """The boundary computed again after the subspaces were: of similar data, of other data, of rescaled bases."""
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 3) + 1))
    s = ss.Subspaces()
    M = 4 * m + 5
    df = rng.normal(size=(M, m)) * 10.0 ** rng.uniform(-1, 1, size=m)
    d = None
    mon.input(df=df, n=n)
    for k in range(3):
        s.compute(df=df)
        s.partition(n)
        if not gen.general_position(s.W1, 1e-2):
            raise Skip('general position')
        with mon.guard('compute_boundary'):
            if d is None:
                d = dm.BoundedActiveVariableDomain(s)
            else:
                d.compute_boundary()
        check_domain(mon, d, s.W1.copy(), rng, 'recompute')
        if chance(rng, 0.7):
            df = df + 10.0 ** rng.uniform(-3, -1) * rng.normal(size=df.shape) * np.abs(df).max()
        else:
            df = rng.normal(size=(M, m))


@family('D01', 30, 500)
def d01_several(mon, rng):
    """Domains that exist at the same time describe each their own subspace."""
    m = int(rng.randint(3, 6))
    D = []
    for k in range(3):
        n = int(rng.randint(1, 4)) if k else 2
        W = gen.orth(rng, m)
        if not gen.general_position(W[:, :n], 1e-2):
            raise Skip('general position')
        s = gen.subspaces(rng, m, n, W=W)
        with mon.guard('BoundedActiveVariableDomain'):
            D.append((dm.BoundedActiveVariableDomain(s), W[:, :n].copy()))
    mon.input(D=[w for d, w in D])
    for i in rng.permutation(3):
        check_domain(mon, D[i][0], D[i][1], rng, 'one of several')


# ---------------------------------------------------------------------------------------------------------------- D02
about('D02', """forward coordinates are recomputed column by column and must reconstruct X; inverse results are grouped by their
 index and mapped forward again.""")


def check_inverse(mon, mp, s, Y, N, X, ind, label):
    m = s.eigenvecs.shape[0]
    NY = Y.shape[0]
    mon.shape(X, (NY * N, m), label + ':X shape')
    mon.shape(ind, (NY * N, 1), label + ':ind shape')
    k = np.asarray(ind).ravel()
    mon.check(np.array_equal(k, np.round(k)) and np.array_equal(np.bincount(k.astype(int), minlength=NY),
                                                                N * np.ones(NY, dtype=int)),
              label + ':N points per active point', ind=k)
    mon.check(np.all(np.diff(k) >= 0), label + ':grouped by active point', ind=k)
    k = k.astype(int)
    back = np.dot(X, s.W1)
    mon.close(back, Y[k].astype(float), label + ':points map back to their active point', rtol=1e-9, atol=1e-9)


@family('D02', 300, 6000)
def d02_forward(mon, rng):
    m, M = gen.sizes(rng, 1, 8, 25), gen.sizes(rng, 1, 40, 1500)
    n = int(rng.randint(1, m + 1))
    s = gen.subspaces(rng, m, n)
    d = dm.UnboundedActiveVariableDomain(s)
    mp = [dm.ActiveVariableMap, dm.UnboundedActiveVariableMap, dm.BoundedActiveVariableMap][rng.randint(3)](d)
    X = gen.points(rng, M, m)
    mon.input(nontrivial=m > 1, X=X, W=s.eigenvecs, n=n)
    for rep in range(2):
        n = s.W1.shape[1]
        with mon.guard('forward'):
            Y, Z = mp.forward(layout(rng, X))
        mon.shape(Y, (M, n), 'forward:Y shape')
        mon.shape(Z, (M, m - n), 'forward:Z shape')
        for j in range(m):
            col = Y[:, j] if j < n else Z[:, j - n]
            mon.close(col, sum(X[:, i] * s.eigenvecs[i, j] for i in range(m)), 'forward:coordinates',
                      atol=1e-12 * m * (1 + np.abs(X).max()))
        R = np.dot(np.hstack((Y, Z)), s.eigenvecs.T)
        mon.close(R, X.astype(float), 'forward:coordinates reconstruct the point', atol=1e-11 * m * (1 + np.abs(X).max()))
        s.partition(int(rng.randint(1, m + 1)))       # the map follows the current partition


@family('D02', 300, 6000)
def d02_unbounded_inverse(mon, rng):
    m = gen.sizes(rng, 1, 8, 20)
    n = int(rng.randint(1, m + 1))
    NY, N = gen.sizes(rng, 1, 12, 300), gen.sizes(rng, 1, 8, 60)
    s = gen.subspaces(rng, m, n)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    Y = rng.normal(size=(NY, n)) * gen.logu(rng, -1, 1)
    if chance(rng, 0.2):
        Y = rng.randint(-3, 4, size=(NY, n))
    if NY > 1 and chance(rng, 0.3):
        Y[1] = Y[0]
    mon.input(nontrivial=NY > 1 and m > 1, Y=Y, W=s.eigenvecs, N=N)
    with mon.guard('inverse'):
        if N == 1 and chance(rng, 0.5):
            X, ind = mp.inverse(layout(rng, Y))
        else:
            X, ind = mp.inverse(layout(rng, Y), N if chance(rng, 0.5) else np.int64(N))
    check_inverse(mon, mp, s, Y, N, X, ind, 'unbounded inverse')
    if m > n:
        Z = np.dot(X, s.W2)
        mon.check(np.unique(np.round(Z[:, 0], 13)).size == Z.shape[0], 'unbounded inverse:fresh inactive variables')
    with mon.guard('regularize_z'):
        Z = mp.regularize_z(layout(rng, Y), N)
    mon.shape(Z, (NY, m - n, N), 'unbounded:regularize_z shape')
    # the forward map inverts the inverse map
    with mon.guard('forward'):
        F = mp.forward(X)[0]
    mon.close(F, Y[ind[:, 0].astype(int)].astype(float), 'unbounded inverse:forward of inverse', rtol=1e-9, atol=1e-9)
    for bad in (2.0, '2', None, 1.5):
        mon.raises(lambda: mp.inverse(Y, bad), 'inverse:non-integer N rejected', TypeError)
    mon.raises(lambda: mp.inverse(Y[0], 1), 'inverse:not two-dimensional rejected')
    base = dm.ActiveVariableMap(mp.domain)
    mon.raises(lambda: base.inverse(Y, 1), 'inverse:abstract map rejected', NotImplementedError)


@family('D02', 80, 1500)
def d02_bounded_inverse(mon, rng):
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, min(m, 3) + 1))
    s, d = gen.bounded_pair(rng, m, n)
    mp = dm.BoundedActiveVariableMap(d)
    NY, N = gen.sizes(rng, 1, 6, 20), gen.sizes(rng, 1, 8, 40)
    Y = gen.in_hypercube_y(rng, s.W1, NY)
    mon.input(Y=Y, W=s.eigenvecs, N=N)
    with mon.guard('bounded inverse'):
        X, ind = mp.inverse(layout(rng, Y), N)
        Z = mp.regularize_z(layout(rng, Y), N)
    check_inverse(mon, mp, s, Y, N, X, ind, 'bounded inverse')
    mon.shape(Z, (NY, m - n, N), 'bounded:regularize_z shape')


# ---------------------------------------------------------------------------------------------------------------- D03
about('D03', """every sampled point is tested against the hypercube and mapped back to its active point; points outside the
 zonotope (by the support function) must be refused.""")

TOL = 1e-6


def check_z(mon, Z, y, W1, W2, N, label):
    m, n = W1.shape
    if not mon.shape(Z, (N, m - n), label + ':shape'):
        return
    mon.check(np.all(np.isfinite(Z)), label + ':finite')
    X = np.dot(y, W1.T) + np.dot(Z, W2.T)
    mon.check(np.abs(X).max() <= 1 + TOL, label + ':in the hypercube', worst=np.abs(X).max(), y=y, W1=W1)
    mon.event('samples tested', N)


@family('D03', 200, 4000)
def d03_samplers(mon, rng):
    m = int(rng.randint(2, 9))
    n = int(rng.randint(1, m))
    W = gen.orth(rng, m)
    if chance(rng, 0.15):
        W = np.eye(m)[:, rng.permutation(m)] * rng.choice([-1, 1], size=m)
    W1, W2 = W[:, :n], W[:, n:]
    N = gen.sizes(rng, 1, 30, 200)
    c = rng.randint(6)
    y = gen.in_hypercube_y(rng, W1, 1)[0]
    if c == 5:
        u = rng.normal(size=n)                       # a vertex, or almost one
        y = np.dot(np.sign(np.dot(W1, u)), W1) * [1.0, 1 - 1e-9, 1 - 1e-6, 1 - 1e-3][rng.randint(4)]
    mon.input(W=W, y=y, N=N)
    yy = layout(rng, y)
    with mon.guard('sample_z'):
        Z = dm.sample_z(N, yy, W1, W2)
    check_z(mon, Z, y, W1, W2, N, 'sample_z')
    with mon.guard('rejection_sampling_z'):
        Z = dm.rejection_sampling_z(N, yy, W1, W2)
    if Z is None:
        mon.event('rejection sampling gave up')
        mon.counts['rejection:gives up with None'] += 1
    else:
        check_z(mon, Z, y, W1, W2, N, 'rejection')
    with mon.guard('hit_and_run_z'):
        Z = dm.hit_and_run_z(N, yy, W1, W2)
    check_z(mon, Z, y, W1, W2, N, 'hit-and-run')
    if c != 5:
        with mon.guard('random_walk_z'):
            Z = dm.random_walk_z(N, yy, W1, W2)
        check_z(mon, Z, y, W1, W2, N, 'random walk')
    for bad in (2.0, '3', None):
        mon.raises(lambda: dm.sample_z(bad, y, W1, W2), 'sample_z:non-integer N rejected', TypeError)


@family('D03', 150, 3000)
def d03_thin_slices(mon, rng):
    """Long thin slices, many constraints: where samplers fall back and step lengths matter."""
    m = int(rng.randint(4, 14))
    n = int(rng.randint(1, m - 1))
    W = gen.orth(rng, m)
    if chance(rng, 0.5):
        sc = 10.0 ** rng.uniform(-3, 0, size=m)
        W = np.linalg.qr(rng.normal(size=(m, m)) * sc[:, None])[0]
    W1, W2 = W[:, :n], W[:, n:]
    x = rng.choice([-1.0, 1.0], size=m) * (1 - 10.0 ** rng.uniform(-6, -1, size=m))
    if chance(rng, 0.5):
        x = np.sign(np.dot(W1, rng.normal(size=n))) * (1 - 10.0 ** rng.uniform(-4, -0.5))
    y = np.dot(x, W1)
    N = int(rng.randint(1, 60))
    mon.input(W=W, y=y, N=N)
    with mon.guard('hit_and_run_z'):
        Z = dm.hit_and_run_z(N, y, W1, W2)
    check_z(mon, Z, y, W1, W2, N, 'hit-and-run')
    with mon.guard('sample_z'):
        Z = dm.sample_z(N, y, W1, W2)
    check_z(mon, Z, y, W1, W2, N, 'sample_z')
    with mon.guard('random_walk_z'):
        Z = dm.random_walk_z(N, y, W1, W2)
    check_z(mon, Z, y, W1, W2, N, 'random walk')


@family('D03', 100, 2000)
def d03_inverse(mon, rng):
    m = int(rng.randint(2, 8))
    n = int(rng.randint(1, min(m, 3) + 1))
    s, d = gen.bounded_pair(rng, m, n)
    mp = dm.BoundedActiveVariableMap(d)
    NY, N = gen.sizes(rng, 1, 6), gen.sizes(rng, 1, 12)
    Y = gen.in_hypercube_y(rng, s.W1, NY)
    if chance(rng, 0.3):
        Y[rng.randint(NY)] = d.vertY[rng.randint(len(d.vertY))] * (1 - 1e-7)
    mon.input(Y=Y, W=s.eigenvecs, N=N)
    with mon.guard('bounded inverse'):
        X, ind = mp.inverse(layout(rng, Y), N)
    mon.check(np.abs(X).max() <= 1 + TOL, 'inverse:in the hypercube', worst=np.abs(X).max())
    k = ind.ravel().astype(int)
    mon.close(np.dot(X, s.W1), Y[k], 'inverse:maps back', atol=1e-8)
    # an active point without a preimage is refused, wherever it stands
    u = rng.normal(size=n)
    v = np.dot(np.sign(np.dot(s.W1, u)), s.W1) * (1 + 10.0 ** rng.uniform(-2.5, 1))
    B = Y.copy()
    B[rng.randint(NY)] = v
    mon.raises(lambda: mp.inverse(B, N), 'inverse:point outside the domain refused', B=B)
    if m > n:
        mon.raises(lambda: dm.sample_z(N, v, s.W1, s.W2), 'sample_z:point outside the domain refused')


@family('D03', 80, 1500)
def d03_vertices(mon, rng):
    """The vertices of the domain are active points like any other: their only preimages are the corners."""
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, min(m, 3) + 1))
    s, d = gen.bounded_pair(rng, m, n)
    mp = dm.BoundedActiveVariableMap(d)
    N = int(rng.randint(1, 4))
    mon.input(W=s.eigenvecs, N=N)
    with mon.guard('inverse of the vertices'):
        X, ind = mp.inverse(layout(rng, d.vertY), N)
    mon.check(np.abs(X).max() <= 1 + TOL, 'vertices:in the hypercube', worst=np.abs(X).max())
    mon.close(X, np.repeat(d.vertX, N, axis=0), 'vertices:the corner is the preimage', atol=3e-5)
    if m == n:
        x = rng.uniform(-1, 1, size=m)
        x[rng.randint(m)] = rng.choice([-1.0, 1.0])
        with mon.guard('inverse of a boundary point'):
            X, ind = mp.inverse(np.dot(x, s.W1).reshape((1, n)), N)
        mon.close(X, np.tile(x, (N, 1)), 'boundary:no inactive variables, one preimage', atol=1e-9)
        x[rng.randint(m)] = rng.choice([-1, 1]) * (1 + gen.logu(rng, -4, 1))        # outside in one coordinate
        mon.raises(lambda: mp.inverse(np.dot(x, s.W1).reshape((1, n)), N), 'boundary:points outside refused', x=x)


# ---------------------------------------------------------------------------------------------------------------- D04
about('D04', """sampled inactive variables are tested against the exact conditional law: Kolmogorov tests for intervals and
 normals, exact polygon areas for two inactive variables, an independent rejection sampler for more. Limits are set
 for a false-alarm probability below 1e-9 per test.""")


def poly_slice(W1, W2, y):
    """{z: |W1 y + W2 z| <= 1}: A z <= b."""
    s = np.dot(W1, y)
    return np.vstack((W2, -W2)), np.r_[1 - s, 1 + s]


def clip(P, a, b):
    """Polygon P cut with a.z <= b."""
    out = []
    for i in range(len(P)):
        p, q = P[i], P[(i + 1) % len(P)]
        fp, fq = np.dot(a, p) - b, np.dot(a, q) - b
        if fp <= 0:
            out.append(p)
        if (fp < 0 < fq) or (fq < 0 < fp):
            t = fp / (fp - fq)
            out.append(p + t * (q - p))
    return out


def area(P):
    if len(P) < 3:
        return 0.0
    P = np.array(P)
    x, y = P[:, 0], P[:, 1]
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def polygon(A, b):
    P = [np.array(v) * 1e3 for v in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    for a, c in zip(A, b):
        P = clip(P, a, c)
    return P


def binom_ok(frac, p, N):
    return abs(frac - p) <= 7.0 * np.sqrt(max(p * (1 - p), 0) / N) + 12.0 / N


def pick_slice(rng, k):
    m = int(rng.randint(k + 1, k + 4))
    n = m - k
    W = gen.orth(rng, m)
    W1, W2 = W[:, :n], W[:, n:]
    y = np.dot(rng.uniform(-0.85, 0.85, size=m), W1)
    return W1, W2, y


def samplers(N):
    return [('sample_z', lambda y, a, b: dm.sample_z(N, y, a, b)),
            ('rejection', lambda y, a, b: dm.rejection_sampling_z(N, y, a, b)),
            ('hit-and-run', lambda y, a, b: dm.hit_and_run_z(N, y, a, b))]


@family('D04', 60, 1200)
def d04_interval_law(mon, rng):
    W1, W2, y = pick_slice(rng, 1)
    A, b = poly_slice(W1, W2, y)
    A = A[:, 0]
    hi, lo = (b[A > 0] / A[A > 0]).min(), (b[A < 0] / A[A < 0]).max()
    N = int(rng.randint(400, 1500))
    mon.input(W1=W1, y=y, N=N)
    for name, f in samplers(N):
        with mon.guard(name):
            Z = f(y, W1, W2)
        if Z is None:
            mon.event('rejection gave up')
            continue
        mon.check(gen.ks_uniform(Z, lo, hi) < gen.KS_LIMIT, 'law:uniform on the interval (%s)' % name,
                  ks=gen.ks_uniform(Z, lo, hi), lo=lo, hi=hi)
        u = (Z.ravel() - lo) / (hi - lo) - 0.5
        mon.check(u.min() + 0.5 <= 26.0 / N and 0.5 - u.max() <= 26.0 / N, 'law:reaches the ends (%s)' % name, lo=u.min() + 0.5,
                  hi=0.5 - u.max(), n=N)
        r = np.dot(u[1:], u[:-1]) * 12 / len(u)
        mon.check(abs(r) * np.sqrt(len(u)) < 7.5, 'law:successive samples unrelated (%s)' % name, r=r)
        mon.check(np.unique(Z).size == Z.size, 'law:no value twice (%s)' % name, values=np.unique(Z).size, draws=Z.size)
        mon.event('draws', N)
    if chance(rng, 0.25):
        N = 12000
        for name, f in samplers(N)[:2]:
            with mon.guard(name):
                Z = f(y, W1, W2)
            if Z is not None:
                mon.check(gen.ks_uniform(Z, lo, hi) < gen.KS_LIMIT, 'law:uniform on the interval, long run (%s)' % name,
                          ks=gen.ks_uniform(Z, lo, hi), lo=lo, hi=hi)
                mon.event('draws', N)


@family('D04', 60, 1200)
def d04_polygon_law(mon, rng):
    W1, W2, y = pick_slice(rng, 2)
    A, b = poly_slice(W1, W2, y)
    P = polygon(A, b)
    tot = area(P)
    N = int(rng.randint(600, 1500))
    mon.input(W1=W1, y=y, N=N)
    for name, f in samplers(N):
        thin = 1
        if name == 'hit-and-run':
            thin = 10
        with mon.guard(name):
            Z = f(y, W1, W2)
        if Z is None:
            mon.event('rejection gave up')
            continue
        iid = name == 'rejection'
        if name == 'sample_z' and dm.rejection_sampling_z(5, y, W1, W2) is None:
            continue
        for t in range(6):
            # the part of the slice beyond the outermost sample
            a = rng.normal(size=2)
            p = 1.0 - area(clip(P, a, np.dot(Z, a).max())) / tot
            mon.check(p <= (26.0 if iid or name == 'sample_z' else 260.0) / N, 'law:reaches the ends (%s)' % name, p=p, n=N)
        Z = Z[::thin]
        for t in range(12):
            a = rng.normal(size=2)
            c = np.dot(np.array(P), a)
            cut = c.min() + (c.max() - c.min()) * rng.uniform(0.1, 0.9)
            p = area(clip(P, a, cut)) / tot
            fr = np.mean(np.dot(Z, a) <= cut)
            slack = 1.0 if iid or name == 'sample_z' else 2.0
            mon.check(abs(fr - p) <= slack * (7.0 * np.sqrt(p * (1 - p) / len(Z)) + 12.0 / len(Z)),
                      'law:uniform on the polygon (%s)' % name, fr=fr, p=p, n=len(Z))
        mon.event('draws', N)


@family('D04', 30, 500)
def d04_polytope_law(mon, rng):
    k = int(rng.randint(3, 5))
    W1, W2, y = pick_slice(rng, k)
    A, b = poly_slice(W1, W2, y)
    lo = np.array([linprog(c, A_ub=A, b_ub=b, bounds=[(None, None)] * k).fun for c in np.eye(k)])
    hi = np.array([-linprog(-c, A_ub=A, b_ub=b, bounds=[(None, None)] * k).fun for c in np.eye(k)])
    R = rng.uniform(lo, hi, size=(60000, k))
    R = R[np.all(np.dot(R, A.T) <= b, axis=1)]
    if len(R) < 2000:
        raise Skip('small slice')
    N = 600
    mon.input(W1=W1, y=y)
    for name, f in samplers(N):
        with mon.guard(name):
            Z = f(y, W1, W2)
        if Z is None:
            continue
        iid = name == 'rejection' or name == 'sample_z' and dm.rejection_sampling_z(5, y, W1, W2) is not None
        for t in range(6):
            a = rng.normal(size=k)
            p = np.mean(np.dot(R, a) > np.dot(Z, a).max())
            mon.check(not iid or p <= 26.0 / N + 6 * np.sqrt(26.0 / N / len(R)), 'law:reaches the ends (%s)' % name, p=p, n=N)
        if name != 'rejection':
            Z = Z[::12] if name == 'hit-and-run' else Z
        for t in range(6):
            a = rng.normal(size=k)
            r, z = np.sort(np.dot(R, a)), np.sort(np.dot(Z, a))
            D = np.abs(np.searchsorted(r, z) / float(len(r)) - np.arange(1, len(z) + 1) / float(len(z))).max()
            ne = len(z) * len(r) / float(len(z) + len(r))
            lim = gen.KS_LIMIT if name != 'hit-and-run' else 5.0
            mon.check(D * np.sqrt(ne) < lim, 'law:uniform on the polytope (%s)' % name, D=D, n=len(z), r=len(r))
        mon.event('draws', N)


@family('D04', 24, 300)
def d04_many_inactive(mon, rng):
    """Up to a dozen inactive variables: location and spread in all directions against many chains of our own."""
    k = int(rng.randint(4, 13))
    n = int(rng.randint(1, 4))
    m = n + k
    W = gen.orth(rng, m)
    W1, W2 = W[:, :n], W[:, n:]
    x0 = rng.uniform(-0.5, 0.5, size=m)
    y = np.dot(x0, W1)
    A, b = poly_slice(W1, W2, y)
    mon.input(W=W, y=y)
    C, T = 300, 60 * k
    R = np.tile(np.dot(x0, W2), (C, 1))
    for t in range(T):
        d = rng.normal(size=(C, k))
        f, g = b - np.dot(R, A.T), np.dot(d, A.T)
        with np.errstate(divide='ignore'):
            q = f / g
        up = np.where(g > 0, q, np.inf).min(1)
        lo = np.where(g < 0, q, -np.inf).max(1)
        R = R + (lo + (up - lo) * rng.rand(C)).reshape((C, 1)) * d
    N = 60 * k
    for name, f in samplers(N):
        if name == 'rejection' and k > 6:
            continue
        with mon.guard(name):
            Z = f(y, W1, W2)
        if Z is None:
            mon.event('rejection gave up')
            continue
        mon.event('draws', N)
        U = np.vstack((gen.orth(rng, k), np.eye(k)))
        r, z = np.dot(R, U.T), np.dot(Z, U.T)
        ratio = z.std(0) / r.std(0)
        # about 30 independent draws or more
        mon.check(np.all((ratio > 0.3) & (ratio < 2.2)), 'law:spread in every direction (%s)' % name, ratio=ratio, k=k)
        mon.check(np.all(np.abs(z.mean(0) - r.mean(0)) < 1.6 * r.std(0)), 'law:location in every direction (%s)' % name,
                  k=k, shift=(z.mean(0) - r.mean(0)) / r.std(0))
        ev = np.linalg.eigvals(np.linalg.solve(np.cov(R.T), np.cov(Z.T))).real
        mon.check(ev.min() > 0.03, 'law:all directions are sampled (%s)' % name, ev=ev, k=k)


@family('D04', 60, 1000)
def d04_gaussian_law(mon, rng):
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, m))
    s = gen.subspaces(rng, m, n)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    NY, N = [(1, 600), (600, 1), (20, 30)][rng.randint(3)]
    Y = rng.normal(size=(NY, n)) * 3
    mon.input(W=s.eigenvecs, Y=Y)
    with mon.guard('inverse'):
        X, ind = mp.inverse(Y, N)
    Z = np.dot(X, s.W2)
    from scipy.stats import norm
    T = Z.shape[0]
    for j in range(m - n):
        mon.check(gen.ks_cdf(Z[:, j], norm.cdf) < gen.KS_LIMIT, 'law:standard normal', ks=gen.ks_cdf(Z[:, j], norm.cdf))
        r = np.dot(Z[1:, j], Z[:-1, j]) / np.sqrt(T)
        mon.check(abs(r) < 8, 'law:successive draws unrelated', r=r)
    C = np.dot(Z.T, Z) / T
    mon.check(np.all(np.abs(C - np.eye(m - n)) < 9.5 / np.sqrt(T) * (1 + np.eye(m - n))), 'law:components unrelated', C=C)
    k = ind.ravel().astype(int)
    c = np.dot(Y[k].T, Z) / T / 3
    if NY > 100:
        mon.check(np.all(np.abs(c) < 9 / np.sqrt(T)), 'law:independent of the active variables', c=c)


@family('D04', 40, 600)
def d04_independence(mon, rng):
    """Samples of one point, of equal points and of different points are drawn independently of each other."""
    bounded = chance(rng, 0.6)
    k = 1 if bounded else int(rng.randint(1, 4))
    n = int(rng.randint(1, 4))
    m = n + k
    N = int(rng.randint(2, 5))
    NY = 60 if bounded else 500
    if bounded:
        s, d = gen.bounded_pair(rng, m, n)
        mp = dm.BoundedActiveVariableMap(d)
        Y = np.dot(rng.uniform(-0.7, 0.7, size=(1 + NY // 30, m)), s.W1)
    else:
        s = gen.subspaces(rng, m, n)
        mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
        Y = rng.normal(size=(1 + NY // 30, n))
    Y = Y[np.sort(rng.randint(len(Y), size=NY))] if chance(rng, 0.5) else Y[rng.randint(len(Y), size=NY)]
    mon.input(W=s.eigenvecs, Y=Y, N=N)
    with mon.guard('inverse'):
        X, ind = mp.inverse(Y, N)
    Z = np.dot(X, s.W2).reshape(NY, N, k)
    mon.event('draws', NY * N)
    if bounded:                                  # to a uniform variable on each slice
        U = np.zeros((NY, N, 1))
        seen = {}
        for i in range(NY):
            key = Y[i].tobytes()
            if key not in seen:
                A, b = poly_slice(s.W1, s.W2, Y[i])
                A = A[:, 0]
                seen[key] = (b[A > 0] / A[A > 0]).min(), (b[A < 0] / A[A < 0]).max()
            hi, lo = seen[key]
            U[i] = ((Z[i] - lo) / (hi - lo) - 0.5) * np.sqrt(12.0)
    else:
        U = Z
    for j in range(k):
        v = np.unique(np.round(Z[:, :, j], 13))
        mon.check(v.size == NY * N, 'independent:no value twice', values=v.size, draws=NY * N)
        for a in range(N):
            for b in range(a):
                for p, q in ((U[:, a, j], U[:, b, j]), (U[:, a, j] ** 2 - 1, U[:, b, j] ** 2 - 1),
                             (U[:, a, (j + 1) % k], U[:, b, j])):
                    r = np.dot(p, q) / np.sqrt(NY * (np.mean(p ** 2) * np.mean(q ** 2) + 1e-300))
                    mon.check(abs(r) < (6.5 if bounded else 10.0), 'independent:samples of one point', r=r, a=a, b=b)
            r = np.dot(U[1:, a, j], U[:-1, a, j]) / np.sqrt(NY)
            mon.check(abs(r) < 8, 'independent:samples of successive points', r=r)


@family('D04', 40, 600)
def d04_means(mon, rng):
    """The mean over the N samples of a point varies like that of N independent draws, however many there are."""
    bounded = chance(rng, 0.4)
    k = 1 if bounded else int(rng.randint(1, 5))
    n = int(rng.randint(1, 3))
    N = gen.sizes(rng, 2, 60, 600, 0.5)
    NY = 30 if bounded else int(rng.randint(20, 120))
    if bounded:
        s, d = gen.bounded_pair(rng, n + k, n)
        mp = dm.BoundedActiveVariableMap(d)
        Y = np.dot(rng.uniform(-0.7, 0.7, size=(NY, n + k)), s.W1)
    else:
        s = gen.subspaces(rng, n + k, n)
        mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
        Y = rng.normal(size=(NY, n))
    mon.input(W=s.eigenvecs, Y=Y, N=N)
    with mon.guard('inverse'):
        X, ind = mp.inverse(Y, N)
    Z = np.dot(X, s.W2).reshape(NY, N, k)
    if bounded:
        for i in range(NY):
            A, b = poly_slice(s.W1, s.W2, Y[i])
            A = A[:, 0]
            hi, lo = (b[A > 0] / A[A > 0]).min(), (b[A < 0] / A[A < 0]).max()
            Z[i] = ((Z[i] - lo) / (hi - lo) - 0.5) * np.sqrt(12.0)
    T = np.sqrt(N) * Z.mean(1)
    q, L = float((T ** 2).sum()), float(T.size)
    mon.event('means', int(L))
    # chi squared with L degrees of freedom, up to the kurtosis of the means
    mon.check(max(L - 6.5 * np.sqrt(2 * L), 0.05 * L) < q < L + 8 * np.sqrt(2 * L) + 40, 'means:spread of the means', q=q, L=L, N=N)
    if not bounded and N > 10:
        S = ((Z - Z.mean(1, keepdims=True)) ** 2).sum(1)
        r = (S - (N - 1)) / np.sqrt(2.0 * (N - 1))
        q = float((r ** 2).sum())
        mon.check(max(L - 6.5 * np.sqrt(2 * L), 0.05 * L) < q < L * (1 + 12.0 / N) + 10 * np.sqrt((2 + 50.0 / N) * L) + 60,
                  'means:spread of the variances', q=q, L=L, N=N)


@family('D04', 60, 1000)
def d04_full_space_law(mon, rng):
    """Active points from the uniform law, inverted: the result is uniform on the hypercube."""
    m = int(rng.randint(2, 5))
    n = int(rng.randint(1, m + 1))
    n = min(n, 3)
    s, d = gen.bounded_pair(rng, m, n)
    mp = dm.BoundedActiveVariableMap(d)
    Y = np.dot(rng.uniform(-1, 1, size=(150, m)), s.W1)
    mon.input(W=s.eigenvecs, Y=Y)
    with mon.guard('inverse'):
        X, ind = mp.inverse(Y, 1)
    for j in range(m):
        mon.check(gen.ks_uniform(X[:, j], -1, 1) < gen.KS_LIMIT, 'law:uniform on the hypercube',
                  ks=gen.ks_uniform(X[:, j], -1, 1))
    C = np.dot(X.T, X) / len(X) * 3
    mon.check(np.all(np.abs(C - np.eye(m)) < 9.5 / np.sqrt(len(X))), 'law:inputs unrelated', C=C)


@family('D04', 40, 600)
def d04_walk_moves(mon, rng):
    """The random walk has no exact law to test after finitely many steps; it must explore and stay centred."""
    W1, W2, y = pick_slice(rng, 1)
    A, b = poly_slice(W1, W2, y)
    A = A[:, 0]
    hi, lo = (b[A > 0] / A[A > 0]).min(), (b[A < 0] / A[A < 0]).max()
    mon.input(W1=W1, y=y)
    with mon.guard('random_walk_z'):
        Z = dm.random_walk_z(3000, y, W1, W2).ravel()
    u = (Z - lo) / (hi - lo)
    mon.check(np.unique(u).size > 50, 'walk:moves', n=np.unique(u).size)
    mon.check(u.min() < 0.35 and u.max() > 0.65 and 0.15 < u.mean() < 0.85, 'walk:explores the slice', lo=u.min(),
              hi=u.max(), mean=u.mean())
