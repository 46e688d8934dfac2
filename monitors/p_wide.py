"""Many variables, points on lattices, repeated points and unusual types, in every part of the library."""
import numpy as np
from math import comb

from active_subspaces import domains as dm, gradients as gr, integrals as ig, optimizers as op, response_surfaces as rs, subspaces as ss
from active_subspaces.utils import misc as mi, qp_solver as qp
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation

from .core import family, Skip
from . import gen
from .gen import chance, layout
from .p_optim import check_lp, check_qp, bnd_feas, z_objective
from .p_quad import umap
from .p_respsurf import exponents, monomials, dmonomials, kernel


def lattice(rng, M, m):
    """Points with many coincidences, zeros, equal coordinates and repeated rows."""
    k = rng.randint(5)
    if k == 0:
        X = rng.randint(-2, 3, size=(M, m)).astype(float)
    elif k == 1:
        X = rng.randint(-1, 2, size=(M, m)) * 0.5
    elif k == 2:
        X = rng.normal(size=(M, m))
        X[rng.rand(M, m) < 0.4] = 0.0
    elif k == 3:
        X = np.repeat(rng.normal(size=(M, 1)), m, axis=1)
    else:
        X = rng.normal(size=(max(1, M // 3), m))
        X = X[rng.randint(len(X), size=M)]
    if chance(rng, 0.3):
        X[rng.randint(M)] = 0.0
    return X


# ------------------------------------------------------------------------------------------------- subspaces, gradients
@family('S03', 40, 400)
def s03_lattice(mon, rng):
    """Affine functions on lattices and scattered points with repeated rows, also of integer type."""
    m = int(rng.randint(1, 13))
    M = 3 * m + int(rng.randint(4, 30))
    X = lattice(rng, M, m)
    X[:m + 1] = np.vstack((np.zeros((1, m)), np.eye(m))) * (1 + rng.randint(3))
    X = X[rng.permutation(M)]
    a, c = rng.normal(size=m), rng.normal()
    f = c + np.dot(X, a).reshape((M, 1))
    if np.all(X == np.round(X)) and chance(rng, 0.5):
        X = X.astype(int)
    # every neighborhood without its own base point has to determine the slope
    p = M - int(max((X == x).all(1).sum() for x in X))
    A = np.hstack((np.ones((M, 1)), X))
    if p < m + 1:
        raise Skip('few distinct points')
    for x in np.unique(X, axis=0):
        B = A[~(X == x).all(1)]
        d = ((B[:, 1:] - x) ** 2).sum(1)
        last = np.sort(d)[min(p, len(B)) - 1]
        near = B[d < last * (1 + 1e-9)]
        if len(near) > p:                                   # points at one distance: any of them may be taken
            near = B[d < last * (1 - 1e-9)]
        if len(near) == 0 or np.linalg.matrix_rank(near, tol=1e-3) < m + 1:
            raise Skip('degenerate neighborhood')
    mon.input(X=X, f=f, p=p)
    with mon.guard('local_linear_gradients'):
        df = gr.local_linear_gradients(layout(rng, X), layout(rng, f), p=p)
    mon.check(df.ndim == 2 and df.shape[1] == m, 'lattice:shape', shape=df.shape)
    mon.close(df, np.tile(a, (len(df), 1)), 'lattice:gradient of an affine function', rtol=0, atol=1e-8 * (1 + np.abs(a).sum()))
    mon.event('integers' if X.dtype.kind == 'i' else 'reals')


@family('S03', 12, 100)
def s03_wide(mon, rng):
    """OPG and local linear models of affine and ridge data in many variables, or of many samples."""
    m, M = (int(rng.randint(10, 31)), 0) if chance(rng, 0.6) else (int(rng.randint(2, 6)), int(rng.randint(300, 1500)))
    M = M or 4 * m + int(rng.randint(60))
    X = rng.normal(size=(M, m))
    a = rng.normal(size=m)
    f = np.dot(X, a).reshape((M, 1)) + 1.0
    mon.input(X=X, f=f)
    with mon.guard('opg'):
        df = gr.local_linear_gradients(layout(rng, X), layout(rng, f))
        e, W = ss.opg_subspace(layout(rng, X), layout(rng, f), np.ones((M, 1)) / M)
    mon.close(df, np.tile(a, (len(df), 1)), 'wide:gradient of an affine function', rtol=0, atol=1e-8 * (1 + np.abs(a).sum()))
    mon.close(np.array(e[0, 0]), np.dot(a, a), 'wide:eigenvalue', rtol=1e-8)
    mon.close(np.abs(np.dot(W[:, 0], a)), np.linalg.norm(a), 'wide:direction', rtol=1e-8)
    mon.event('%d variables' % m)


@family('S06', 12, 100)
def s06_integers(mon, rng):
    """Bootstraps of integer gradients: the ranges contain what integer resamples can give, and equal floats' ranges."""
    m, M = int(rng.randint(2, 7)), int(rng.randint(4, 40))
    df = rng.randint(-4, 5, size=(M, m))
    df[0] = 1
    k, st = int(rng.randint(1, 25)), int(rng.randint(1, 2 ** 30))
    mon.input(df=df, nboot=k)
    out = []
    for d in (df, df.astype(float)):
        s = ss.Subspaces()
        np.random.seed(st)
        with mon.guard('compute'):
            s.compute(df=layout(rng, d), nboot=k)
        out.append(s)
    sc = out[1].eigenvals.max()
    mon.close(out[0].eigenvals, out[1].eigenvals, 'integers:eigenvalues', rtol=0, atol=1e-12 * sc)
    mon.close(out[0].e_br, out[1].e_br, 'integers:ranges', rtol=0, atol=1e-11 * out[1].e_br.max())
    C = np.dot(df.T, df) / float(M)
    mon.close(np.array(out[0].eigenvals.sum()), np.trace(C), 'integers:trace', rtol=1e-12)
    g = (df ** 2).sum(1)
    mon.check(out[0].e_br[0, 1] <= g.max() * (1 + 1e-12) and out[0].e_br.min() >= 0, 'integers:ranges are possible')


@family('S04', 20, 150)
def s04_wide(mon, rng):
    """Partitions of many variables."""
    m = int(rng.randint(12, 60))
    df = rng.normal(size=(int(rng.randint(2, 3 * m)), m)) * 10.0 ** -rng.uniform(0, 2, size=m)
    mon.input(df=df)
    s = ss.Subspaces()
    with mon.guard('compute'):
        s.compute(df=layout(rng, df), nboot=int(rng.randint(0, 3)))
    W = s.eigenvecs.copy()
    for n in rng.permutation(m)[:8] + 1:
        with mon.guard('partition'):
            s.partition(int(n))
        mon.check(np.array_equal(s.W1, W[:, :n]) and np.array_equal(s.W2, W[:, n:]), 'wide:bases are the columns', n=n)
        mon.check(np.array_equal(s.eigenvecs, W), 'wide:eigenvectors stay')
    mon.event('%d variables' % m)


# ------------------------------------------------------------------------------------------------------------- domains
@family('D01', 12, 100)
def d01_wide(mon, rng):
    """Intervals of many inputs; polytopes in five to eight dimensions."""
    if chance(rng, 0.5):
        m = int(rng.randint(40, 400))
        w = rng.normal(size=(m, 1))
        w /= np.linalg.norm(w)
        mon.input(w=w)
        with mon.guard('interval_endpoints'):
            Y, X = dm.interval_endpoints(layout(rng, w))
        r = np.abs(w).sum()
        mon.close(Y.ravel(), np.array([-r, r]), 'wide:interval', rtol=1e-12)
        mon.check(X.shape == (2, m) and np.array_equal(X[1], np.sign(w.ravel())) and np.array_equal(X[0], -X[1]), 'wide:corners')
        mon.event('interval')
        return
    n = int(rng.randint(4, 8))
    m = n + int(rng.randint(0, 3)) if n > 5 else n + int(rng.randint(0, 4))
    if m > 9:
        m = 9
    W1 = gen.orth(rng, m)[:, :n]
    if not gen.general_position(W1, 1e-3) or not gen.cones_seen(rng, W1):
        raise Skip('general position')
    want = 2 * sum(comb(m - 1, i) for i in range(n))
    mon.input(W1=W1)
    with mon.guard('zonotope_vertices'):
        k = dm.nzv(m, n)
        Y, X = dm.zonotope_vertices(layout(rng, W1))
    mon.check(k == want and len(Y) == want and len(np.unique(X, axis=0)) == want, 'wide:all vertices', found=len(Y), want=want)
    mon.check(np.array_equal(np.abs(X), np.ones((want, m))), 'wide:sign vectors')
    mon.close(Y, np.dot(X, W1), 'wide:vertices are the images', rtol=0, atol=1e-12)
    mon.event('polytope in %d dimensions' % n)


@family('D02', 12, 100)
def d02_wide(mon, rng):
    """Unbounded inputs of any magnitude, many variables, lattices."""
    m = int(rng.randint(2, 60))
    n = int(rng.randint(1, m))
    s, mp = umap(rng, m, n)
    M = int(rng.randint(1, 40))
    big = gen.logu(rng, -6, 6)
    X = lattice(rng, M, m) * big
    mon.input(X=X, n=n)
    with mon.guard('forward'):
        Y, Z = mp.forward(layout(rng, X))
    W, sc = s.eigenvecs, big * m
    mon.close(np.dot(Y, W[:, :n].T) + np.dot(Z, W[:, n:].T), X, 'wide:reconstructs', rtol=0, atol=1e-12 * sc)
    mon.close(Y, np.dot(X, W[:, :n]), 'wide:active components', rtol=0, atol=1e-12 * sc)
    N = int(rng.randint(1, 9))
    with mon.guard('inverse'):
        XX, ind = mp.inverse(layout(rng, Y), N)
    mon.check(XX.shape == (M * N, m) and np.array_equal(np.ravel(ind), np.repeat(np.arange(M), N)), 'wide:index')
    mon.close(np.dot(XX, W[:, :n]), np.repeat(Y, N, axis=0), 'wide:active components of the inputs', rtol=0, atol=1e-12 * (sc + m))
    z = np.dot(XX, W[:, n:])
    mon.check(np.abs(z).max() < 8 + 1e-10 * sc, 'wide:standard normal inactive components', worst=np.abs(z).max())
    mon.event('%d variables' % m)


@family('D03', 5, 40)
def d03_wide(mon, rng):
    """Slices of hypercubes in many dimensions."""
    m = int(rng.randint(12, 75))
    n = int(rng.randint(1, 3))
    W = gen.orth(rng, m)
    W1, W2 = W[:, :n], W[:, n:]
    y = gen.in_hypercube_y(rng, W1, 1)[0]
    N = int(rng.randint(1, 20))
    mon.input(W=W, y=y, N=N)
    for fun in (dm.sample_z, dm.hit_and_run_z, dm.random_walk_z, dm.rejection_sampling_z):
        with mon.guard(fun.__name__):
            Z = fun(N, layout(rng, y), W1, W2)
        if Z is None and fun is dm.rejection_sampling_z:
            continue
        mon.check(Z.shape == (N, m - n) and np.all(np.isfinite(Z)), 'wide:shape', shape=Z.shape)
        worst = np.abs(np.dot(y, W1.T) + np.dot(Z, W2.T)).max()
        mon.check(worst <= 1 + 1e-6, 'wide:in the hypercube (%s)' % fun.__name__, worst=worst)
    mon.event('%d variables' % m)


# -------------------------------------------------------------------------------------------------------- optimization
@family('O01', 25, 250)
def o01_wide(mon, rng):
    """Programs in 8 to 40 variables with up to a hundred constraints, whose solutions are known from their multipliers."""
    n = int(rng.randint(8, 41))
    q = qp.QPSolver('SCIPY')
    k = rng.randint(4)
    if k == 0:
        M = int(rng.randint(1, n))
        A = rng.normal(size=(M, n))
        lb = rng.uniform(-3, 1, size=(n, 1))
        ub = lb + rng.uniform(0.2, 4, size=(n, 1))
        t, mu = rng.uniform(0.1, 0.9, size=(n, 1)), np.zeros((n, 1))
        for i in rng.choice(n, size=n - M, replace=False):
            t[i] = rng.randint(2)
            mu[i] = rng.uniform(0.1, 2) * (1 - 2 * t[i])
        x = lb + t * (ub - lb)
        c = np.dot(A.T, rng.normal(size=(M, 1))) + mu
        b = np.dot(A, x)
        mon.input(c=c, A=A, b=b, lb=lb, ub=ub)
        with mon.guard('linear_program_eq'):
            z = q.linear_program_eq(layout(rng, c), layout(rng, A), layout(rng, b), layout(rng, lb), layout(rng, ub))
        f = bnd_feas(lb, ub)
        check_lp(mon, c, z, x, lambda x: max(f(x), np.abs(np.dot(A, x) - b).max()), False, 'wide LP eq', 1e-7)
    elif k == 1:
        M = int(rng.randint(n, 3 * n))
        A, x = rng.normal(size=(M, n)), rng.normal(size=(n, 1))
        b = np.dot(A, x) - rng.uniform(0.1, 2, size=(M, 1))
        S = rng.choice(M, size=n, replace=False)
        b[S] = np.dot(A[S], x)
        c = np.dot(A[S].T, rng.uniform(0.1, 2, size=(n, 1)))
        mon.input(c=c, A=A, b=b)
        with mon.guard('linear_program_ineq'):
            z = q.linear_program_ineq(layout(rng, c), layout(rng, A), layout(rng, b))
        check_lp(mon, c, z, x, lambda x: (b - np.dot(A, x)).max(), False, 'wide LP ineq', 1e-7)
    else:
        V = gen.orth(rng, n)
        Q = np.dot(V * 10.0 ** rng.uniform(-0.4, 0.4, size=n), V.T)
        if chance(rng, 0.4):
            K = rng.normal(size=(n, n))
            Q = Q + (K - K.T) / np.sqrt(n)
        if k == 2:
            lb = rng.uniform(-3, 1, size=(n, 1))
            ub = lb + rng.uniform(0.2, 4, size=(n, 1))
            t, mu = rng.uniform(0.05, 0.95, size=(n, 1)), np.zeros((n, 1))
            for i in np.nonzero(rng.rand(n) < 0.5)[0]:
                t[i] = rng.randint(2)
                mu[i] = rng.uniform(0.05, 2) * (1 - 2 * t[i])
            x = lb + t * (ub - lb)
            c = mu - np.dot(Q + Q.T, x)
            mon.input(c=c, Q=Q, lb=lb, ub=ub)
            with mon.guard('quadratic_program_bnd'):
                z = q.quadratic_program_bnd(layout(rng, c), layout(rng, Q), layout(rng, lb), layout(rng, ub))
            feas = bnd_feas(lb, ub)
        else:
            M = int(rng.randint(1, 2 * n))
            A, x = rng.normal(size=(M, n)), rng.normal(size=(n, 1))
            b = np.dot(A, x) - rng.uniform(0.05, 2, size=(M, 1))
            S = rng.choice(M, size=int(rng.randint(0, min(M, n) + 1)), replace=False)
            b[S] = np.dot(A[S], x)
            c = np.dot(A[S].T, rng.uniform(0.05, 2, size=(len(S), 1))) - np.dot(Q + Q.T, x)
            mon.input(c=c, Q=Q, A=A, b=b)
            with mon.guard('quadratic_program_ineq'):
                z = q.quadratic_program_ineq(layout(rng, c), layout(rng, Q), layout(rng, A), layout(rng, b))
            feas = lambda x: (b - np.dot(A, x)).max()
        # strong convexity bounds the distance by the excess of the objective
        if mon.shape(z, x.shape, 'wide QP:shape'):
            sc = 1 + np.abs(x).max()
            mon.check(feas(z) <= 2e-5 * sc, 'wide QP:feasible', infeasibility=feas(z))
            mon.check(np.abs(z - x).max() <= 3e-2 * sc, 'wide QP:minimizer', error=np.abs(z - x).max())
            d = np.dot(c.T, z - x) + np.dot(z.T, np.dot(Q, z)) - np.dot(x.T, np.dot(Q, x))
            mon.check(abs(float(d[0, 0])) <= 1e-5 * (1 + np.abs(c).sum() * sc), 'wide QP:optimal value', excess=float(d[0, 0]))
    mon.event(['LP eq', 'LP ineq', 'QP bnd', 'QP ineq'][k])


@family('O04', 10, 80)
def o04_wide(mon, rng):
    """The quadratic model behind the inactive variables in many variables, and for many active points."""
    m = int(rng.randint(6, 16))
    n = int(rng.randint(1, m - 2))
    s = gen.subspaces(rng, m, n)
    W, p = s.eigenvecs, n + 2
    U = W[:, :p]
    H = gen.convex_quadratic(rng, p, 1.0)
    A, b = np.dot(U, np.dot(H, U.T)), np.dot(U, rng.normal(size=p))
    M = comb(p + 2, 2) + int(rng.randint(10, 60))
    X = rng.normal(size=(M, m)) if chance(rng, 0.6) else rng.randint(-3, 4, size=(M, m)).astype(float)
    B = monomials(np.dot(X, U), exponents(p, 2))
    if np.linalg.cond(B) > 1e4:
        raise Skip('ill-conditioned data')
    f = (1.0 + np.dot(X, b) + 0.5 * (np.dot(X, A) * X).sum(1)).reshape((M, 1))
    Y = rng.normal(size=(int(rng.randint(1, 400)), n)) * 2
    if chance(rng, 0.3):
        Y = Y[rng.randint(min(3, len(Y)), size=len(Y))]
    mon.input(W=W, X=X, f=f, Y=Y)
    mp = op.UnboundedMinVariableMap(dm.UnboundedActiveVariableDomain(s))
    with mon.guard('train and inverse'):
        mp.train(layout(rng, X), layout(rng, f))
        Xs = mp.inverse(layout(rng, Y))[0]
    mon.close(np.dot(Xs, s.W1), Y, 'wide:keeps the active variables', rtol=0, atol=1e-9)
    Z = np.dot(Xs, s.W2)
    c0, K = z_objective(s, A, b, Y[0])
    C = np.dot(b, s.W2) + np.dot(np.dot(Y, s.W1.T), np.dot(A, s.W2))
    mon.close(np.dot(Z, K), -C, 'wide:stationary point of the surrogate', rtol=0, atol=1e-6 * (1 + np.abs(C).max()))
    mon.event('%d variables' % m)


# --------------------------------------------------------------------------------------------------- response surfaces
@family('R02', 12, 100)
def r02_wide(mon, rng):
    """Radial bases in up to twelve variables, on lattices, with repeated points and integer inputs."""
    m = int(rng.randint(1, 13))
    N = int(rng.randint(0, 3)) if m < 7 else int(rng.randint(0, 2))
    k = comb(N + m, m)
    M = k + int(rng.randint(3, 40))
    X = lattice(rng, M, m) if m < 7 and chance(rng, 0.6) else rng.normal(size=(M, m))
    E = exponents(m, N)
    if np.linalg.matrix_rank(monomials(X, E), tol=1e-2) < len(E):
        raise Skip('degenerate data')
    f = np.sin(X.sum(1)).reshape((M, 1)) + 0.1 * rng.normal(size=(M, 1))
    v = 10.0 ** rng.uniform(-2, 0, size=(M, 1))
    e = 10.0 ** rng.uniform(-1, 1, size=(m, 1)) if chance(rng, 0.5) else None
    mon.input(X=X, f=f, v=v, e=e, N=N)
    R = RadialBasisApproximation(N)
    T = np.vstack((X, lattice(rng, 12, m)))
    if np.all(T == np.round(T)) and chance(rng, 0.5):
        T = T.astype(int)
    with mon.guard('train'):
        R.train(layout(rng, X), layout(rng, f), v=layout(rng, v), e=None if e is None else layout(rng, e))
        p, dp = R.predict(layout(rng, T), compgrad=True)
    ell = np.ravel(R.ell)
    mon.check(ell.size == m and np.all(ell > 0), 'wide:length scales')
    K = kernel(X, X, ell.reshape((m, 1))) + np.diag(v.ravel())
    B = monomials(X, E)
    rw = R.radial_weights
    sc = np.abs(rw).sum() + np.abs(R.poly_weights).sum() * (1 + np.abs(X).max()) ** N + 1
    mon.close(np.dot(B.T, rw), np.zeros((len(E), 1)), 'wide:orthogonal to polynomials', rtol=0, atol=1e-7 * sc * (1 + np.abs(B).max()))
    res = f - np.dot(K, rw)
    c = np.linalg.lstsq(B, res, rcond=None)[0]
    mon.close(np.dot(B, c), res, 'wide:solves the training system', rtol=0, atol=1e-7 * sc)
    KT = kernel(T.astype(float), X, ell.reshape((m, 1)))
    cs = np.abs(c).sum() * (1 + np.abs(T).max()) ** N + sc
    mon.close(p, np.dot(KT, rw) + np.dot(monomials(T.astype(float), E), c), 'wide:prediction', rtol=0, atol=1e-6 * cs)
    mon.event('%d variables' % m)


@family('R03', 15, 120)
def r03_lattice(mon, rng):
    """Gradients at lattice points, zeros, repeated and large points, in up to ten variables."""
    m = int(rng.randint(1, 11))
    N = int(rng.randint(1, 5)) if m < 4 else int(rng.randint(1, 3))
    E = exponents(m, N)
    big = gen.logu(rng, -2, 3) if chance(rng, 0.4) else 1.0
    M = len(E) + int(rng.randint(5, 30))
    X = rng.uniform(-1, 1, size=(M, m))
    c = rng.normal(size=(len(E), 1))
    T = lattice(rng, int(rng.randint(1, 40)), m)
    P = PolynomialApproximation(N)
    mon.input(X=X, c=c, T=T, big=big)
    with mon.guard('train'):
        P.train(layout(rng, X), np.dot(monomials(X, E), c))
    if np.linalg.cond(monomials(X, E)) > 1e5:
        raise Skip('ill-conditioned')
    T = T * big
    if np.all(T == np.round(T)) and chance(rng, 0.4):
        T = T.astype(int)
    with mon.guard('predict'):
        p, dp = P.predict(layout(rng, T), compgrad=True)
        g = P.gradient(layout(rng, T))
    F = T.astype(float)
    sc = np.abs(c).sum() * (1 + np.abs(F).max()) ** N
    mon.close(p, np.dot(monomials(F, E), c), 'lattice:value', rtol=0, atol=1e-8 * sc)
    mon.close(dp, np.hstack([np.dot(dmonomials(F, E, i), c) for i in range(m)]), 'lattice:gradient', rtol=0, atol=1e-8 * N * sc)
    mon.check(np.array_equal(dp, g), 'lattice:gradient alone')
    mon.event('%d variables' % m)


@family('R04', 15, 120)
def r04_wide(mon, rng):
    """Surfaces on up to eight active variables of up to thirty inputs, at lattice points, repeated and large points."""
    n = int(rng.randint(1, 9))
    m = n + int(rng.randint(1, 22))
    N = int(rng.randint(1, 3)) if n < 6 else 1
    s, mp = umap(rng, m, n)
    M = comb(N + n, n) + int(rng.randint(10, 60))
    X = rng.normal(size=(M, m))
    Y = np.dot(X, s.W1)
    f = (np.sin(Y).sum(1) + (Y ** 2).sum(1)).reshape((M, 1))
    K = [PolynomialApproximation(N), RadialBasisApproximation(N)][rng.randint(2)]
    K2 = type(K)(N)
    T = lattice(rng, int(rng.randint(1, 40)), m)
    if isinstance(K, PolynomialApproximation) and chance(rng, 0.3):
        T = T * gen.logu(rng, -3, 3)
    mon.input(X=X, f=f, W=s.eigenvecs, n=n, N=N, T=T)
    R = rs.ActiveSubspaceResponseSurface(mp, K)
    with mon.guard('train'):
        R.train_with_data(layout(rng, X), layout(rng, f))
        if isinstance(K2, RadialBasisApproximation):
            K2.train(Y, f, e=s.eigenvals)
        else:
            K2.train(Y, f)
        p, dp = R.predict(layout(rng, T), compgrad=True)
        q, dq = K2.predict(np.dot(T, s.W1), compgrad=True)
        p2, dp2 = R.predict_av(np.dot(T, s.W1), compgrad=True)
        alone = R(layout(rng, T)), R.gradient(layout(rng, T)), R.gradient_av(np.dot(T, s.W1))
    sc = np.abs(K2.poly_weights).sum() * (1 + np.abs(np.dot(T, s.W1)).max()) ** N
    l = 1.0
    if isinstance(K, RadialBasisApproximation):
        sc, l = sc + np.abs(K2.radial_weights).sum(), min(1.0, np.sqrt(np.min(K2.ell)))
    tol = 1e-8 if isinstance(K, RadialBasisApproximation) else 1e-10
    mon.close(p, q, 'wide:same as on the projected data', rtol=0, atol=tol * sc)
    mon.close(p2, q, 'wide:same at active variables', rtol=0, atol=tol * sc)
    mon.close(dp2, dq, 'wide:gradient at active variables', rtol=0, atol=tol * sc * N / l ** 2)
    mon.close(dp, np.dot(dq, s.W1.T), 'wide:gradient lies in the active subspace', rtol=0, atol=tol * sc * N / l ** 2)
    for a, b in zip(alone, (p, dp, dp2)):
        mon.close(a, b, 'wide:value and gradient alone', rtol=0, atol=1e-12 * sc * N / l ** 2)
    mon.event('%d active of %d variables' % (n, m))


# ----------------------------------------------------------------------------------------------------------- quadrature
@family('Q03', 6, 50)
def q03_wide(mon, rng):
    """Rules over four to eight active variables, and intervals of many inputs."""
    NMC = int(rng.randint(1, 4))
    if chance(rng, 0.3):
        m = int(rng.randint(40, 90))
        s = gen.subspaces(rng, m, m)
        N = int(rng.randint(2, 6))
        s.partition(1)
        mp = dm.BoundedActiveVariableMap(dm.BoundedActiveVariableDomain(s))
        mon.input(W=s.eigenvecs, N=N)
        with mon.guard('quadrature_rule'):
            Y, w = ig.av_quadrature_rule(mp, N)
        r = np.abs(s.W1).sum()
        mon.close(Y.ravel(), -r + 2 * r * (np.arange(N) + 0.5) / N, 'wide:nodes', rtol=0, atol=1e-9 * r)
        mon.close(np.array(w.sum()), np.array(1.0), 'wide:weights sum to one', rtol=1e-9)
        return
    n = int(rng.randint(4, 9))
    k = int(rng.randint(2, {4: 6, 5: 4, 6: 4}.get(n, 3)))
    m = n + int(rng.randint(0, 5))
    s, mp = umap(rng, m, n)
    a, b = rng.normal(size=n), rng.normal()
    N = k ** n + int(rng.randint(0, (k + 1) ** n - k ** n))
    f = lambda y: b + np.dot(a, y) + np.dot(a, y) ** 2
    mon.input(W=s.eigenvecs, n=n, N=N, NMC=NMC)
    with mon.guard('integrate'):
        X, w, ind = ig.quadrature_rule(mp, N, NMC=NMC)
        r = [float(v) for v in ig.integrate(lambda x: f(np.dot(x.ravel(), s.W1)), mp, N, NMC=NMC)]
        v = float(ig.av_integrate(lambda y: f(y.ravel()), mp, N))
    mon.check(X.shape == (k ** n * NMC, m) and np.array_equal(np.ravel(ind), np.repeat(np.arange(k ** n), NMC)), 'wide:points', shape=X.shape)
    mon.close(np.array(w.sum()), np.array(1.0), 'wide:weights sum to one', rtol=1e-9)
    for u in r + [v]:
        mon.close(np.array(u), np.array(b + np.dot(a, a)), 'wide:integral', rtol=1e-8, scale=abs(b) + 1 + np.dot(a, a))
    mon.event('%d active variables' % n)


@family('G03', 15, 120)
def g03_wide(mon, rng):
    """Normalizers of many inputs, of lattices and integers."""
    m = int(rng.randint(1, 120))
    lb = rng.randint(-5, 5, size=m).astype(float)
    ub = lb + rng.randint(1, 9, size=m)
    M = int(rng.randint(1, 40))
    X = lattice(rng, M, m)
    if np.all(X == np.round(X)) and chance(rng, 0.6):
        X = X.astype(int)
    A = gen.orth(rng, m) * 10.0 ** rng.uniform(-1, 1, size=m)
    C, mu = np.dot(A, A.T), rng.normal(size=m)
    C = 0.5 * (C + C.T)
    mon.input(X=X, lb=lb, ub=ub, C=C)
    with mon.guard('normalizers'):
        bn, un = mi.BoundedNormalizer(lb, ub), mi.UnboundedNormalizer(mu, C)
        b, u = bn.normalize(layout(rng, X)), un.normalize(layout(rng, X))
        b2, u2 = bn.unnormalize(layout(rng, X)), un.unnormalize(layout(rng, X))
        B, U = bn.unnormalize(b), un.unnormalize(u)
    mon.close(b, 2 * (X - lb) / (ub - lb) - 1, 'wide:bounded', rtol=0, atol=1e-12 * 30)
    mon.close(b2, lb + (X + 1) * (ub - lb) / 2, 'wide:bounded', rtol=0, atol=1e-12 * 30)
    d = np.einsum('ij,ji->i', X - mu, np.linalg.solve(C, (X - mu).T))
    mon.close((u ** 2).sum(1), d, 'wide:squared norm is the Mahalanobis distance', rtol=1e-8)
    mon.close(B, X, 'wide:inverse pair', rtol=0, atol=1e-11)
    mon.close(U, X, 'wide:inverse pair', rtol=0, atol=1e-9)
    with mon.guard('unnormalize'):
        J = un.unnormalize(np.eye(m)) - mu
    mon.close(np.dot(J.T, J), C, 'wide:covariance', rtol=0, atol=1e-10 * np.abs(C).max())
    mon.close(u2, mu + np.dot(X, J), 'wide:affine', rtol=0, atol=1e-10 * (1 + np.abs(u2).max()))
    mon.event('%d variables' % m)
