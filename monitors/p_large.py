"""Thousands of samples, points, nodes or groups: what holds for few of them holds for many."""
import numpy as np
from math import comb

from active_subspaces import domains as dm, gradients as gr, integrals as ig, optimizers as op, response_surfaces as rs, subspaces as ss
from active_subspaces.utils import designs as de, misc as mi, quadrature as gq, response_surfaces as rf
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner

from .core import family, Skip
from . import gen
from .gen import chance, layout
from .p_quad import reference_1d, umap, bmap
from .p_respsurf import exponents, monomials, dmonomials, kernel


def many(rng, lo=3.0, hi=4.3):
    return int(10.0 ** rng.uniform(lo, hi))


# ------------------------------------------------------------------------------------------------- subspaces, gradients
@family('S01', 8, 40)
def s01_large(mon, rng):
    """Many samples of many gradients; the eigenpairs of the matrix summed here in blocks."""
    m, M = (int(rng.randint(2, 9)), many(rng, 3.5, 5.0)) if chance(rng, 0.5) else (int(rng.randint(60, 200)), many(rng, 2, 3.3))
    df = rng.normal(size=(M, m)) * 10.0 ** -rng.uniform(0, 2, size=m)
    w = np.ones((M, 1)) / M if chance(rng, 0.4) else gen.weights(rng, M)
    mon.input(M=M, m=m, df=df[:50], w=w[:50])
    C = sum(np.dot((df[i:i + 100] * w[i:i + 100]).T, df[i:i + 100]) for i in range(0, M, 100))
    with mon.guard('active_subspace'):
        e, W = ss.active_subspace(layout(rng, df), layout(rng, w))
    sc = np.abs(C).max()
    mon.close(np.dot(W.T, W), np.eye(m), 'large:orthonormal', rtol=0, atol=1e-11 * m)
    mon.close(np.dot(W * e.ravel(), W.T), C, 'large:eigenpairs of the mean outer product', rtol=0, atol=1e-12 * m * sc)
    mon.check(np.all(np.diff(e.ravel()) <= 1e-13 * sc), 'large:descending order')
    mon.event('samples', M)


@family('S05', 8, 40)
def s05_large(mon, rng):
    """Spectra of many variables."""
    m = int(10.0 ** rng.uniform(1.5, 2.6))
    e = np.sort(10.0 ** rng.uniform(-6, 2, size=(m, 1)), axis=0)[::-1].copy()
    sub, li = rng.rand(m - 1, 1), np.vstack(([[0.0]], rng.rand(m - 1, 1)))
    mon.input(e=e, sub=sub, li=li)
    with mon.guard('criteria'):
        n1, g = ss.eig_partition(layout(rng, e))
        n2, b = ss.errbnd_partition(layout(rng, e), layout(rng, sub))
        n3, G = ss.ladle_partition(layout(rng, e), layout(rng, li))
    gap = -np.diff(e.ravel())
    c = np.cumsum(e.ravel())
    want = np.sqrt(c[:-1]) * sub.ravel() + np.sqrt(np.maximum(np.cumsum(e.ravel()[::-1])[::-1][1:], 0))
    lad = li.ravel() + e.ravel() / e.sum()
    mon.check(n1 == np.argmax(gap) + 1 and np.allclose(np.ravel(g), gap, rtol=1e-10, atol=1e-13 * c[-1]), 'large:largest gap', n=n1)
    mon.close(np.ravel(b), want, 'large:error bounds', rtol=1e-10)
    mon.check(want[n2 - 1] <= want.min() * (1 + 1e-10), 'large:smallest bound', n=n2)
    mon.close(np.ravel(G), lad, 'large:ladle', rtol=1e-10)
    mon.check(n3 == max(1, int(np.argmin(lad))), 'large:minimizer of the ladle', n=n3)
    mon.event('%d variables' % m)


@family('S02', 8, 40)
def s02_large(mon, rng):
    """The linear and the quadratic model of thousands of samples, from normal equations summed here."""
    m, M = int(rng.randint(2, 7)), many(rng)
    X = gen.points(rng, M, m, kind=['uniform', 'gauss'][rng.randint(2)]).astype(float)
    a, H = rng.normal(size=m), rng.normal(size=(m, m))
    H = H + H.T
    noise = rng.normal(size=(M, 1)) if chance(rng, 0.5) else 0.0
    lin = np.dot(X, a).reshape((M, 1)) + 2.0
    quad = lin + 0.5 * np.einsum('ij,jk,ik->i', X, H, X).reshape((M, 1))
    w = np.ones((M, 1)) / M if chance(rng, 0.5) else gen.weights(rng, M) + 1e-3
    mon.input(X=X, a=a, H=H)
    with mon.guard('compute'):
        s, q = ss.Subspaces(), ss.Subspaces()
        s.compute(X=layout(rng, X), f=layout(rng, lin + noise), weights=layout(rng, w), sstype='OLS')
        q.compute(X=layout(rng, X), f=layout(rng, quad), weights=layout(rng, w), sstype='QPHD')
    A = np.hstack((np.ones((M, 1)), X))
    c = np.linalg.solve(np.dot(A.T, w * A), np.dot(A.T, w * (lin + noise))).ravel()[1:]
    mon.close(np.abs(s.eigenvecs[:, 0]), np.abs(c) / np.linalg.norm(c), 'large:direction of the linear fit', rtol=0, atol=1e-11)
    mon.close(np.array(s.eigenvals[0, 0]), np.dot(c, c), 'large:eigenvalue of the linear fit', rtol=1e-11)
    # gradients of an exact quadratic, a + H x, over the hypercube or the Gaussian space
    gamma = 1.0 if np.abs(X).max() > 1 else 1.0 / 3
    ew = np.linalg.eigvalsh(np.outer(a, a) + np.dot(H, H) * gamma)[::-1]
    mon.close(q.eigenvals.ravel(), ew, 'large:eigenvalues of the quadratic model', rtol=1e-10)
    mon.event('samples', M)


@family('G01', 6, 30)
def g01_large(mon, rng):
    m, M = int(rng.randint(1, 5)), many(rng, 3.0, 4.0)
    X = rng.uniform(-1, 1, size=(M, m))
    a, q = rng.normal(size=m), rng.normal(size=m)
    h = 2.0 ** -8
    mon.input(X=X, a=a)
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(layout(rng, X), lambda x: float(np.dot(x.ravel(), a + q * x.ravel())), h=h)
    mon.close(df, a + 2 * q * X + h * q, 'large:difference quotient', rtol=1e-9, atol=1e-9)
    mon.event('samples', M)


@family('G02', 8, 40)
def g02_large(mon, rng):
    m, M = int(rng.randint(1, 5)), many(rng)
    X = rng.normal(size=(M, m)) * gen.logu(rng, -8, 8)
    calls = []

    def fun(x):
        calls.append(x.copy())
        return len(calls) + 0.125

    def grad(x):
        calls.append(x.copy())
        return len(calls) + np.arange(m) / 64.0
    mon.input(X=X)
    with mon.guard('run'):
        F = SimulationRunner(fun).run(layout(rng, X))
    mon.check(len(calls) == M and np.array_equal(np.vstack(calls), X), 'large:every row once, in order, exactly')
    mon.check(F.shape == (M, 1) and np.array_equal(F.ravel(), np.arange(1, M + 1) + 0.125), 'large:outputs in the rows of their inputs')
    del calls[:]
    with mon.guard('run'):
        G = SimulationGradientRunner(grad).run(layout(rng, X))
    mon.check(len(calls) == M and np.array_equal(np.vstack(calls), X), 'large:every row once, in order, exactly')
    mon.check(G.shape == (M, m) and np.array_equal(G, np.arange(1, M + 1)[:, None] + np.arange(m) / 64.0),
              'large:gradients in the rows of their inputs')
    mon.event('simulations', 2 * M)


@family('G03', 8, 40)
def g03_large(mon, rng):
    m, M = int(rng.randint(1, 8)), many(rng)
    lb = rng.normal(size=m)
    ub = lb + rng.uniform(0.1, 3, size=m)
    A = rng.normal(size=(m, m)) + 3 * np.eye(m)
    C = np.dot(A, A.T)
    if np.linalg.cond(C) > 1e4:
        raise Skip('ill-conditioned covariance')
    mu = rng.normal(size=m)
    X = rng.normal(size=(M, m))
    mon.input(X=X, lb=lb, ub=ub, C=C)
    with mon.guard('normalizers'):
        bn, un = mi.BoundedNormalizer(lb, ub), mi.UnboundedNormalizer(mu, C)
        b, u = bn.normalize(layout(rng, X)), un.normalize(layout(rng, X))
        b2, u2 = bn.unnormalize(layout(rng, X)), un.unnormalize(layout(rng, X))
        B, U = bn.unnormalize(b), un.unnormalize(u)
        J = un.unnormalize(np.eye(m))
    mon.close(np.dot((J - mu).T, J - mu), C, 'large:covariance', rtol=1e-9)
    mon.close(b, 2 * (X - lb) / (ub - lb) - 1, 'large:bounded', atol=1e-12 * (1 + np.abs(b).max()))
    mon.close(b2, lb + (X + 1) * (ub - lb) / 2, 'large:bounded', rtol=0, atol=1e-13 * 30)
    d = np.einsum('ij,ji->i', X - mu, np.linalg.solve(C, (X - mu).T))
    mon.close((u ** 2).sum(1), d, 'large:squared norm is the Mahalanobis distance', rtol=1e-9)
    mon.close(u2, mu + np.dot(X, J - mu), 'large:affine with the Jacobian', atol=1e-11 * np.abs(u2).max())
    mon.close(B, X, 'large:inverse pair', rtol=0, atol=1e-12 * 10)
    mon.close(U, X, 'large:inverse pair', rtol=0, atol=1e-11 * np.linalg.cond(C))
    mon.event('samples', M)


# ------------------------------------------------------------------------------------------------------------- domains
@family('D02', 8, 40)
def d02_large(mon, rng):
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, min(m - 1, 2) + 1))
    bounded = chance(rng, 0.5)
    s, mp = (bmap if bounded else umap)(rng, m, n)
    X = rng.uniform(-1, 1, size=(many(rng), m))
    mon.input(X=X, W=s.eigenvecs, n=n)
    with mon.guard('forward'):
        Y, Z = mp.forward(layout(rng, X))
    mon.close(Y, np.dot(X, s.eigenvecs[:, :n]), 'large:active components', rtol=0, atol=1e-12)
    mon.close(Z, np.dot(X, s.eigenvecs[:, n:]), 'large:inactive components', rtol=0, atol=1e-12)
    N = many(rng, 2.5, 3.5) if bounded or chance(rng, 0.5) else int(rng.randint(1, 6))
    K = int(rng.randint(1, 5)) if bounded else max(1, many(rng) // N)
    with mon.guard('inverse'):
        XX, ind = mp.inverse(layout(rng, Y[:K]), N)
    K = min(K, len(Y))
    mon.check(XX.shape == (K * N, m) and np.array_equal(np.ravel(ind), np.repeat(np.arange(K), N)), 'large:index of the points')
    mon.close(np.dot(XX, s.W1), np.repeat(Y[:K], N, axis=0), 'large:points map back to their active point', rtol=0, atol=1e-9)
    R = np.round(np.dot(XX, s.W2), 12)
    if not bounded:
        mon.check(len(np.unique(R, axis=0)) == K * N, 'large:fresh inactive variables')
    else:
        mon.check(np.abs(XX).max() <= 1 + 1e-6, 'large:in the hypercube')
    mon.event('points', K * N)


@family('D03', 8, 40)
def d03_large(mon, rng):
    """Thousands of samples of one slice, by every sampler."""
    m = int(rng.randint(2, 9))
    n = int(rng.randint(1, m))
    W = gen.orth(rng, m)
    W1, W2 = W[:, :n], W[:, n:]
    N, y = many(rng, 2.5, 4.0), gen.in_hypercube_y(rng, W1, 1)[0]
    mon.input(W=W, y=y, N=N)
    for fun in (dm.sample_z, dm.rejection_sampling_z, dm.hit_and_run_z, dm.random_walk_z):
        with mon.guard(fun.__name__):
            Z = fun(N, layout(rng, y), W1, W2)
        if Z is None and fun is dm.rejection_sampling_z:
            mon.event('rejection sampling gave up')
            continue
        mon.check(Z.shape == (N, m - n) and np.all(np.isfinite(Z)), 'large:shape', shape=Z.shape)
        worst = np.abs(np.dot(y, W1.T) + np.dot(Z, W2.T)).max()
        mon.check(worst <= 1 + 1e-6, 'large:in the hypercube (%s)' % fun.__name__, worst=worst)
    mon.event('samples', N)


# -------------------------------------------------------------------------------------------------------- optimization
@family('O04', 6, 30)
def o04_large(mon, rng):
    """Minimization over an exact surface of thousands of samples."""
    bounded = chance(rng, 0.5)
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 3)))
    s, mp = (bmap if bounded else umap)(rng, m, n)
    H, c = gen.convex_quadratic(rng, n, 0.8), rng.normal(size=n) * 0.3
    M = many(rng)
    X = rng.uniform(-1, 1, size=(M, m)) if bounded else rng.normal(size=(M, m))
    Y = np.dot(X, s.W1) - c
    f = 0.5 * (np.dot(Y, H) * Y).sum(1).reshape((M, 1)) - 2.0
    mon.input(X=X, f=f, W=s.eigenvecs, bounded=bounded)
    R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2))
    with mon.guard('minimize'):
        R.train_with_data(X, f)
        x, v = op.minimize(R, layout(rng, X), layout(rng, f))
    y = np.dot(x, s.W1).ravel()
    g = np.dot(H, y - c)
    gap = float(np.dot(g, y) + np.abs(np.dot(s.W1, g)).sum()) if bounded else float(np.abs(g).max())
    mon.check(x.shape == (1, m) and gap <= 3e-4 * (1 + np.abs(H).sum()), 'large:true minimum of an exact ridge function', gap=gap)
    mon.close(np.array(float(v)), np.array(0.5 * np.dot(y - c, np.dot(H, y - c)) - 2.0), 'large:the minimum is the value there',
              rtol=0, atol=1e-6)
    mon.check(not bounded or np.abs(x).max() <= 1 + 1e-6, 'large:in the hypercube')
    mon.event('samples', M)


# --------------------------------------------------------------------------------------------------- response surfaces
@family('R05', 6, 30)
def r05_large(mon, rng):
    """Training with the interface on hundreds of design points, or hundreds of runs for each."""
    m = int(rng.randint(2, 6))
    bounded = chance(rng, 0.5)
    n = 1 if bounded else int(rng.randint(1, 3))
    s, mp = (bmap if bounded else umap)(rng, m, n)
    k, NMC = (int(rng.randint(150, 500)), int(rng.randint(1, 4))) if n == 1 and chance(rng, 0.5) else (int(rng.randint(8, 30)), int(rng.randint(150, 500)))
    if n == 2:
        k = int(rng.randint(4, 16))
    a, b, calls = rng.normal(size=n), rng.normal(size=m), []

    def fun(x):
        y = np.dot(x.ravel(), s.W1)
        v = np.dot(a, y) + 0.3 * np.dot(y, y) + 0.1 * np.sin(np.dot(b, x.ravel()))
        calls.append((x.ravel().copy(), v))
        return v
    mon.input(W=s.eigenvecs, n=n, k=k, NMC=NMC, a=a)
    R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2))
    with mon.guard('train_with_interface'):
        R.train_with_interface(fun, k ** n, NMC)
    X, f = np.array([q[0] for q in calls]), np.array([q[1] for q in calls])
    T, E = R.respsurf.X, R.respsurf.f.ravel()
    nv = 2 if bounded else 0
    mon.check(len(X) == k ** n * NMC + nv and len(T) == k ** n + nv, 'large:runs and design points', runs=len(X), points=len(T))
    Y = np.dot(X, s.W1)
    own = np.abs(T[None, :, :] - Y[:, None, :]).max(2) if len(X) * len(T) < 4e6 else None
    if own is not None:
        j = own.argmin(1)
        mon.check(own.min(1).max() < 1e-7, 'large:every run belongs to a design point')
        cnt = np.bincount(j, minlength=len(T))
        mon.check(np.array_equal(np.sort(cnt), np.sort([NMC] * k ** n + [1] * nv)), 'large:runs per design point', cnt=cnt)
        mon.close(E, np.bincount(j, f, minlength=len(T)) / cnt, 'large:conditional averages', rtol=0, atol=1e-9 * (1 + np.abs(f).max()))
    mon.event('runs', len(X))


@family('R01', 8, 40)
def r01_large(mon, rng):
    m, N = int(rng.randint(1, 4)), int(rng.randint(1, 5))
    E = exponents(m, N)
    M = many(rng)
    X = rng.uniform(-1, 1, size=(M, m))
    Y = rng.uniform(-1, 1, size=(many(rng), m))
    c = rng.normal(size=(len(E), 1))
    w = gen.weights(rng, M) + 1e-3 if chance(rng, 0.4) else None
    mon.input(X=X, c=c, N=N)
    P = PolynomialApproximation(N)
    with mon.guard('train'):
        P.train(layout(rng, X), layout(rng, np.dot(monomials(X, E), c)), **({} if w is None else dict(weights=layout(rng, w))))
        p, dp = P.predict(layout(rng, Y), compgrad=True)
    sc = np.abs(c).sum()
    mon.close(p, np.dot(monomials(Y, E), c), 'large:reproduces', rtol=1e-9, scale=sc)
    mon.close(dp, np.hstack([np.dot(dmonomials(Y, E, i), c) for i in range(m)]), 'large:gradient', rtol=1e-9 * N, scale=sc)
    with mon.guard('bases'):
        B = rf.polynomial_bases(layout(rng, Y), N)
    B = B[0] if isinstance(B, tuple) else B
    mon.check(B.shape == (len(Y), len(E)), 'large:bases', shape=B.shape)
    mon.close(np.sort(B.sum(0)), np.sort(monomials(Y, E).sum(0)), 'large:bases are the monomials', rtol=1e-11, scale=float(len(Y)))
    mon.event('samples', M)


@family('R02', 8, 40)
def r02_large(mon, rng):
    m = int(rng.randint(1, 4))
    A = rng.uniform(-1, 1, size=(many(rng, 2, 3), m))
    B = rng.uniform(-1, 1, size=(many(rng, 2, 3.3), m))
    ell = 10.0 ** rng.uniform(-1, 1, size=(m, 1))
    s = gen.logu(rng, -1, 1)
    mon.input(A=A, B=B, ell=ell)
    with mon.guard('kernel'):
        C = rf.exponential_squared(layout(rng, A), layout(rng, B), s, layout(rng, ell))
        D = rf.grad_exponential_squared(layout(rng, A), layout(rng, B), s, layout(rng, ell))
    K = s * kernel(A, B, ell)
    mon.close(C, K, 'large:kernel', rtol=1e-12)
    for k in range(m):
        mon.close(D[:, :, k], K * 2 * (A[:, None, k] - B[None, :, k]) / ell[k], 'large:kernel derivative', rtol=1e-11)
    mon.event('entries', C.size)


@family('R03', 8, 40)
def r03_large(mon, rng):
    """Thousands of points at once: each gets the value and the gradient it gets in a small batch."""
    m, n, N = int(rng.randint(2, 6)), int(rng.randint(1, 3)), int(rng.randint(1, 4))
    M = comb(N + n, n) + int(rng.randint(10, 150))
    s = gen.subspaces(rng, m, n)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    X = rng.normal(size=(M, m))
    f = np.sin(np.dot(X, s.W1)).sum(1).reshape((M, 1)) + 0.1 * rng.normal(size=(M, 1))
    K = [PolynomialApproximation(N), RadialBasisApproximation(N)][rng.randint(2)]
    R = rs.ActiveSubspaceResponseSurface(mp, K)
    Y = rng.normal(size=(many(rng), m))
    mon.input(X=X, f=f, W=s.eigenvecs, n=n, N=N)
    with mon.guard('train_with_data'):
        R.train_with_data(X, f)
        T = np.dot(Y, s.W1)
        whole = [R.predict(layout(rng, Y), compgrad=True), K.predict(layout(rng, T), compgrad=True)]
        whole.append((R.predict(Y)[0], R.gradient(Y)))
    sc = np.abs(K.poly_weights).sum() * (1 + np.abs(T).max()) ** N
    l = 1.0
    if isinstance(K, RadialBasisApproximation):
        sc, l = sc + np.abs(K.radial_weights).sum(), min(1.0, np.sqrt(np.min(K.ell)))
    for (p, dp), fun, Z in zip(whole, (R.predict, K.predict, R.predict), (Y, T, Y)):
        mon.check(p.shape == (len(Z), 1) and dp.shape == Z.shape, 'large:shapes')
        parts = np.array_split(np.arange(len(Z)), 2 + len(Z) // 60)
        for ix in [parts[0], parts[-1]] + [parts[rng.randint(len(parts))] for i in range(6)]:
            with mon.guard('predict'):
                a, b = fun(Z[ix], compgrad=True)
            mon.close(p[ix], a, 'large:values of a small batch', rtol=0, atol=1e-12 * sc)
            mon.close(dp[ix], b, 'large:gradients of a small batch', rtol=0, atol=1e-12 * sc * N / l ** 2)
    mon.event('points', len(Y))


# ----------------------------------------------------------------------------------------------------------- quadrature
@family('Q02', 8, 40)
def q02_large(mon, rng):
    kind = ['Hermite', 'Legendre'][rng.randint(2)]
    while True:
        NN = [int(rng.randint(1, 60)) for i in range(rng.randint(2, 5))]
        if 2000 <= np.prod(NN) <= 40000:
            break
    mon.input(NN=NN, kind=kind)
    with mon.guard('tensor rule'):
        x, w = (gq.gauss_hermite if kind == 'Hermite' else gq.gauss_legendre)(list(NN))
    K, d = int(np.prod(NN)), len(NN)
    mon.check(x.shape == (K, d) and w.shape == (K, 1), 'large:shapes', shape=x.shape)
    one = [reference_1d(n, kind) for n in NN]
    ix = []
    for j in range(d):
        k = np.clip(np.searchsorted(one[j][0], x[:, j] - 1e-9), 0, NN[j] - 1)
        mon.close(x[:, j], one[j][0][k], 'large:coordinates are one-dimensional nodes', rtol=0, atol=1e-9)
        ix.append(k)
    mon.check(len(np.unique(np.ravel_multi_index(ix, NN))) == K, 'large:every grid point once')
    want = np.prod([one[j][1][ix[j]] for j in range(d)], axis=0)
    mon.check(np.all(np.abs(w.ravel() - want) <= 1e-8 * want + 1e-13 * want.max()), 'large:weights are products',
              worst=np.abs(w.ravel() - want).max())
    mon.event('nodes', K)


@family('Q03', 8, 40)
def q03_large(mon, rng):
    """Polynomials of the active variables over rules of thousands of nodes; constants over bounded spaces."""
    m = int(rng.randint(2, 6))
    bounded = chance(rng, 0.35)
    n = 1 if bounded else int(rng.randint(2, min(m, 3) + 1))
    k = int(rng.randint(300, 800)) if bounded else int(rng.randint(*{2: (20, 60), 3: (8, 15)}[n]))
    N, NMC = k ** n, int(rng.randint(1, 3))
    s, mp = (bmap if bounded else umap)(rng, m, n)
    a, b = rng.normal(size=n), rng.normal()
    mon.input(W=s.eigenvecs, n=n, N=N, NMC=NMC, a=a, b=b)
    f = lambda y: b + np.dot(a, y) + np.dot(a, y) ** 2
    with mon.guard('integrate'):
        X, w, ind = ig.quadrature_rule(mp, N, NMC=NMC)
        r = [float(v) for v in ig.integrate(lambda x: f(np.dot(x.ravel(), s.W1)), mp, N, NMC=NMC)]
        v = float(ig.av_integrate(lambda y: f(y.ravel()), mp, N))
    mon.check(X.shape == (N * NMC, m) and w.shape == (N * NMC, 1) and np.array_equal(np.ravel(ind), np.repeat(np.arange(N), NMC)),
              'large:points, weights and index', shape=X.shape)
    mon.close(np.array(w.sum()), np.array(1.0), 'large:weights sum to one', rtol=1e-9)
    if bounded:
        # the active variable has mean 0 and variance 1/3 for inputs uniform on the hypercube
        for u in r + [v]:
            mon.check(abs(u - (b + a[0] ** 2 / 3)) <= 0.15 * (abs(a[0]) + a[0] ** 2), 'large:integral', got=u, want=b + a[0] ** 2 / 3)
        mon.check(max(r) - min(r) <= 1e-6 * (abs(b) + 1), 'large:no uncertainty from functions of the active variables', r=r)
    else:
        for u in r + [v]:
            mon.close(np.array(u), np.array(b + np.dot(a, a)), 'large:integral', rtol=1e-8, scale=abs(b) + 1 + np.dot(a, a))
    mon.event('nodes', N)


@family('Q04', 6, 30)
def q04_large(mon, rng):
    """Intervals of hundreds of cells."""
    m = int(rng.randint(1, 7))
    s, mp = bmap(rng, m, 1)
    N, NX = int(rng.randint(60, 1500)), int(10.0 ** rng.uniform(4, 5.3))
    mon.input(W=s.eigenvecs, N=N, NX=NX)
    with mon.guard('interval_quadrature_rule'):
        Y, w = ig.interval_quadrature_rule(mp, N, NX=NX)
    r = np.abs(s.W1).sum()
    o = np.argsort(Y.ravel())
    mon.check(Y.shape == (N, 1) and w.shape == (N, 1) and np.all(w >= 0), 'large:nodes and weights', shape=Y.shape)
    mon.close(Y.ravel()[o], -r + 2 * r * (np.arange(N) + 0.5) / N, 'large:midpoints of equal cells', rtol=0, atol=1e-9 * r)
    mon.close(np.array(w.sum()), np.array(1.0), 'large:weights sum to one', rtol=1e-9)
    F = np.sort(np.dot(rng.uniform(-1, 1, size=(200000, m)), s.W1).ravel())
    c = np.searchsorted(F, np.linspace(-r, r, N + 1)[1:]) / 200000.0
    D = np.abs(np.cumsum(w.ravel()[o]) - c).max()
    mon.check(D <= 3.6 * np.sqrt(1.0 / NX + 1 / 200000.0), 'large:weights follow the law of the active variable', D=D, N=N, NX=NX)
    mon.event('cells', N)


@family('Q05', 6, 30)
def q05_large(mon, rng):
    a = rng.normal()
    b, N = a + gen.logu(rng, -2, 2), many(rng)
    mon.input(a=a, b=b, N=N)
    with mon.guard('interval_design'):
        D = de.interval_design(a, b, N)
    mon.check(D.shape == (N, 1), 'large:shape', shape=D.shape)
    mon.close(D.ravel(), a + (b - a) * (np.arange(N) + 1.0) / (N + 1), 'large:equally spaced', rtol=0, atol=1e-12 * (abs(a) + abs(b)))
    k = int(rng.randint(2, 80))
    with mon.guard('gauss_hermite_design'):
        G = de.gauss_hermite_design([k, k])
    x = reference_1d(k, 'Hermite')[0]
    mon.check(G.shape == (k * k, 2) and np.allclose(np.unique(np.round(G[:, 0], 8)), np.round(x, 8), atol=2e-8)
              and np.allclose(np.unique(np.round(G[:, 1], 8)), np.round(x, 8), atol=2e-8), 'large:grid of the rule', k=k)
    mon.event('points', N)


@family('Q06', 8, 40)
def q06_large(mon, rng):
    n = many(rng, 2.5, 3.7)
    cnt = rng.randint(1, 8, size=n)
    ind = np.repeat(np.arange(n), cnt)[rng.permutation(cnt.sum())]
    f = rng.normal(size=ind.size)
    mon.input(ind=ind, f=f)
    with mon.guard('conditional_expectations'):
        E, V = mi.conditional_expectations(layout(rng, f.reshape((-1, 1))), layout(rng, ind.reshape((-1, 1))))
    e = np.bincount(ind, f) / cnt
    v = np.bincount(ind, (f - e[ind]) ** 2) / cnt
    mon.check(E.shape == (n, 1) and V.shape == (n, 1), 'large:shapes', shape=E.shape)
    mon.close(E.ravel(), e, 'large:averages', rtol=0, atol=1e-12)
    mon.close(V.ravel(), v, 'large:variances', rtol=0, atol=1e-12)
    mon.event('groups', n)
