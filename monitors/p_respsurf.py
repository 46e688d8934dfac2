"""R01..R05: response surfaces, in the given variables and on active subspaces."""
import contextlib
import itertools
from math import comb

import numpy as np

from active_subspaces import domains as dm
from active_subspaces import response_surfaces as rs
from active_subspaces import subspaces as ss
from active_subspaces.utils import response_surfaces as rf
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation
from active_subspaces.utils.simrunners import SimulationRunner

from .core import family, about, Skip
from . import gen
from .gen import chance, layout


def exponents(m, N):
    """All multi-indices of total degree at most N, by counting."""
    return [t for t in itertools.product(range(N + 1), repeat=m) if sum(t) <= N]


def exponents_quick(m, N):
    """The same for N of at most 2 and many variables."""
    I = np.eye(m, dtype=int)
    E = [tuple(0 * I[0])] + [tuple(r) for r in I]
    if N == 2:
        E += [tuple(I[i] + I[j]) for i in range(m) for j in range(i, m)]
    return E


def monomials(X, E):
    X = np.asarray(X, dtype=float)
    B = np.ones((X.shape[0], len(E)))
    for k, t in enumerate(E):
        for i, p in enumerate(t):
            for _ in range(p):
                B[:, k] = B[:, k] * X[:, i]
    return B


def dmonomials(X, E, i):
    D = np.zeros((X.shape[0], len(E)))
    for k, t in enumerate(E):
        if t[i]:
            u = list(t)
            u[i] -= 1
            D[:, k] = t[i] * monomials(X, [tuple(u)])[:, 0]
    return D


def train_points(rng, m, N, extra=None):
    p = comb(N + m, m)
    M = p + (int(rng.randint(0, 25)) if extra is None else extra)
    k = rng.randint(4)
    if k == 0:
        X = rng.normal(size=(M, m))
    elif k == 1 and m <= 2:
        X = rng.randint(-6, 7, size=(M, m))
    elif k == 1 and N == 1:
        X = rng.randint(-5000, 5001, size=(M, m))
    elif k == 2:
        X = rng.uniform(-1, 1, size=(M, m)) + rng.uniform(-0.5, 0.5, size=(1, m))
    else:
        X = rng.uniform(-1, 1, size=(M, m))
    return X


def mN(rng, mmax=5, Nmax=4):
    while True:
        m, N = int(rng.randint(1, mmax + 1)), int(rng.randint(1, Nmax + 1))
        if comb(N + m, m) <= 60:
            return m, N


# ---------------------------------------------------------------------------------------------------------------- R01
about('R01', """polynomials with random coefficients, evaluated by repeated multiplication, must be reproduced with value,
 gradient, g and H; on noisy data the (weighted) residual must be orthogonal to all monomials.""")


@family('R01', 500, 9000)
def r01_reproduces(mon, rng):
    m, N = mN(rng)
    E = exponents(m, N)
    X = train_points(rng, m, N)
    B = monomials(X, E)
    if np.linalg.matrix_rank(B) < len(E) or np.linalg.cond(B) > 1e6:
        raise Skip('points do not determine the polynomial')
    deg = int(rng.randint(0, N + 1)) if chance(rng, 0.3) else N
    c = np.array([rng.normal() * (sum(t) <= deg) for t in E]).reshape((-1, 1)) * gen.logu(rng, -3, 3)
    if not np.any(c):
        c[0] = 1.0
    f = np.dot(B, c)
    w = gen.weights(rng, len(X)) if chance(rng, 0.4) else None
    if w is not None and np.linalg.matrix_rank(B[w.ravel() > 0]) < len(E):
        w = None
    if w is not None and np.linalg.cond(np.sqrt(w) * B) > 1e6:
        w = None
    mon.input(nontrivial=m > 1 or N > 1, X=X, f=f, N=N, w=w if w is not None else 0)
    P = PolynomialApproximation(N)
    if chance(rng, 0.3):                          # a model trained before on other data of other dimension
        P.train(rng.normal(size=(80, 2)), rng.normal(size=(80, 1)))
    with mon.guard('train'):
        if w is None:
            P.train(layout(rng, X), layout(rng, f))
        else:
            P.train(layout(rng, X), layout(rng, f), weights=layout(rng, w))
    cd = np.linalg.cond(B if w is None else np.sqrt(w) * B)
    tol = 1e-11 * cd * len(E)
    Y = rng.uniform(-1, 1, size=(int(rng.randint(1, 20)), m))
    with mon.guard('predict'):
        v, dv = P.predict(layout(rng, Y), compgrad=True)
        v0, d0 = P.predict(Y)
        vc, gr = P(Y), P.gradient(Y)
    sc = np.abs(c).sum()
    mon.close(v, np.dot(monomials(Y, E), c), 'reproduces:value', rtol=tol, scale=sc)
    mon.check(d0 is None, 'predict:no gradient unless asked')
    mon.close(v0, v, 'predict:same value with and without gradient', rtol=1e-12, scale=sc)
    mon.close(vc, v, 'call:is the prediction', rtol=1e-12, scale=sc)
    G = np.hstack([np.dot(dmonomials(Y, E, i), c) for i in range(m)])
    mon.close(dv, G, 'reproduces:gradient', rtol=tol * N, scale=sc)
    mon.close(gr, G, 'gradient():is the gradient', rtol=tol * N, scale=sc)
    lin = np.array([c[E.index(tuple(int(i == j) for j in range(m)))] for i in range(m)]).reshape((m, 1))
    mon.close(P.g, lin, 'g:linear coefficients', rtol=tol, scale=sc)
    if N > 1:
        H = np.zeros((m, m))
        for i, j in itertools.product(range(m), repeat=2):
            t = [0] * m
            t[i] += 1
            t[j] += 1
            H[i, j] = c[E.index(tuple(t)), 0] * (2 if i == j else 1)
        mon.close(P.H, H, 'H:Hessian of the quadratic part', rtol=tol, scale=sc)
    mon.check(P.poly_weights.shape == (len(E), 1), 'coefficients:one per monomial', shape=P.poly_weights.shape)
    # the constant comes first, then the linear coefficients, as g is documented to be among them
    mon.close(np.sort(P.poly_weights.ravel()), np.sort(c.ravel()), 'coefficients:those of the polynomial', rtol=tol,
              scale=sc)
    if np.var(f) > 1e-6 * sc ** 2:
        mon.close(np.array(P.Rsqr), np.array(1.0), 'Rsqr:one for an exact fit', atol=1e-6)


@family('R01', 40, 500)
def r01_many_variables(mon, rng):
    """Affine and quadratic functions of many variables: all coefficients are found."""
    N = int(rng.randint(1, 3))
    m = int(rng.randint(6, 15 if N == 2 else 41))
    M = int(comb(N + m, m) * rng.uniform(1.2, 2))
    X = rng.uniform(-1, 1, size=(M, m)) * (2 if chance(rng, 0.5) else 1)
    A, b, c = rng.normal(size=(m, m)) * (N == 2), rng.normal(size=(m, 1)), rng.normal()
    A = A + A.T
    F = lambda X: c + np.dot(X, b) + 0.5 * (np.dot(X, A) * X).sum(1).reshape((-1, 1))
    w = gen.weights(rng, M) + 1e-2 if chance(rng, 0.3) else None
    if np.linalg.cond(monomials(X, exponents_quick(m, N)) * (1 if w is None else np.sqrt(w))) > 1e4:
        raise Skip('ill conditioned')
    mon.input(X=X, f=F(X), N=N, w=w if w is not None else 0)
    P = PolynomialApproximation(N)
    with mon.guard('train'):
        P.train(layout(rng, X), F(X), weights=w)
        Y = rng.uniform(-1, 1, size=(7, m))
        v, dv = P.predict(Y, compgrad=True)
    sc = 1 + np.abs(A).sum() + np.abs(b).sum()
    mon.close(P.g, b, 'many variables:linear coefficients', atol=1e-9 * sc)
    if N == 2:
        mon.close(P.H, A, 'many variables:Hessian', atol=1e-9 * sc)
    mon.close(v, F(Y), 'many variables:value', atol=1e-9 * sc)
    mon.close(dv, b.T + np.dot(Y, A), 'many variables:gradient', atol=1e-9 * sc)
    mon.event('coefficients', comb(N + m, m))


@family('R01', 500, 9000)
def r01_least_squares(mon, rng):
    m, N = mN(rng)
    E = exponents(m, N)
    X = train_points(rng, m, N, extra=int(rng.randint(1, 40)))
    M = len(X)
    B = monomials(X, E)
    w = gen.weights(rng, M) if chance(rng, 0.5) else None
    f = (rng.normal(size=(M, 1)) + np.sin(X.sum(1).reshape((M, 1)))) * gen.logu(rng, -2, 2)
    if chance(rng, 0.15):
        f = rng.randint(-5, 6, size=(M, 1))
        f[0] += 1
    W = np.ones((M, 1)) if w is None else w / float(w.max())
    if np.linalg.cond(np.sqrt(W) * B) > 1e6:
        raise Skip('ill conditioned')
    mon.input(X=X, f=f, N=N, w=w if w is not None else 0)
    P = PolynomialApproximation(N=N)
    with mon.guard('train'):
        if w is None:
            P.train(layout(rng, X), layout(rng, f))
        else:
            P.train(layout(rng, X), layout(rng, f), weights=layout(rng, w))
        v = P.predict(X)[0]
    r = f - v
    o = np.dot(B.T, W * r)
    mon.close(o, np.zeros(o.shape), 'least squares:residual orthogonal to the monomials',
              atol=1e-7 * (np.abs(B * W).sum(0).max() * (np.abs(f).max() + np.abs(v).max())))
    r2 = 1 - (r ** 2).sum() / ((f - f.mean()) ** 2).sum()
    mon.close(np.array(P.Rsqr), np.array(r2), 'Rsqr:explained part of the variance', rtol=1e-7, scale=1.0 + abs(r2))
    if w is None:
        mon.check(-1e-9 <= P.Rsqr <= 1 + 1e-12, 'Rsqr:between 0 and 1', Rsqr=P.Rsqr)
    mon.close(P.X, X, 'train:keeps the training inputs', atol=0)
    mon.close(P.f, f, 'train:keeps the training outputs', atol=0)
    # integer weights are repetitions
    if w is not None and np.all(w == np.round(w)) and w.sum() < 400:
        k = w.ravel().astype(int)
        Q = PolynomialApproximation(N=N)
        with mon.guard('train'):
            Q.train(np.repeat(X, k, axis=0), np.repeat(f, k, axis=0))
        mon.close(P.poly_weights, Q.poly_weights, 'least squares:integer weights are repeated samples', rtol=1e-6)
    # the order of the samples does not matter
    p = rng.permutation(M)
    Q = PolynomialApproximation(N=N)
    with mon.guard('train'):
        Q.train(X[p], f[p], weights=None if w is None else w[p])
    mon.close(Q.poly_weights, P.poly_weights, 'least squares:order of the samples', rtol=1e-6)


@family('R01', 120, 1500)
def r01_bases(mon, rng):
    m, N = mN(rng, 5, 6)
    if chance(rng, 0.1):
        N = 0
    mon.input(m=m, N=N)
    with mon.guard('index_set'):
        I = rf.index_set(N, m)
    E = exponents(m, N)
    mon.check(I.shape == (comb(N + m, m), m), 'index set:size', shape=I.shape)
    got = [tuple(int(v) for v in t) for t in I]
    mon.check(sorted(got) == sorted(E), 'index set:every multi-index once')
    tot = [sum(t) for t in got]
    mon.check(tot == sorted(tot), 'index set:by total degree', tot=tot)
    if N >= 1:
        mon.check(np.array_equal(I[1:m + 1], np.eye(m)), 'index set:linear terms in the order of the variables')
    X = rng.uniform(-2, 2, size=(int(rng.randint(1, 8)), m))
    if chance(rng, 0.3):
        X[rng.randint(len(X)), rng.randint(m)] = 0.0
    with mon.guard('polynomial_bases'):
        B, I2 = rf.polynomial_bases(layout(rng, X), N)
        dB = rf.grad_polynomial_bases(layout(rng, X), N)
    mon.close(I2, I, 'bases:indices', atol=0)
    mon.close(B, monomials(X, got), 'bases:monomials', rtol=1e-12)
    mon.shape(dB, (len(X), len(E), m), 'bases:gradient shape')
    for i in range(m):
        mon.close(dB[:, :, i], dmonomials(X, got, i), 'bases:derivatives of monomials', rtol=1e-12, atol=1e-13)


@family('R01', 80, 600)
def r01_too_few(mon, rng):
    m, N = mN(rng)
    p = comb(N + m, m)
    X = rng.normal(size=(max(p - int(rng.randint(1, 4)), 1), m))
    if len(X) >= p:
        raise Skip('enough')
    f = rng.normal(size=(len(X), 1))
    mon.input(X=X, f=f, N=N)
    for cls in (PolynomialApproximation, RadialBasisApproximation):
        s = cls(N)
        mon.raises(lambda: s.train(X, f), 'too few points refused')
        X2 = rng.normal(size=(p + 30, m))
        f2 = rng.normal(size=(p + 30, 1))
        s.train(X2, f2)
        Y = rng.normal(size=(4, m))
        v = s(Y)
        mon.raises(lambda: s.train(X, f), 'too few points refused')
        mon.close(s(Y), v, 'a refused training leaves the model as it was', rtol=1e-13)
    b = rf.ResponseSurface()
    mon.raises(lambda: b.train(X, f), 'abstract surface refused', NotImplementedError)
    mon.raises(lambda: b.predict(X), 'abstract surface refused', NotImplementedError)


# ---------------------------------------------------------------------------------------------------------------- R02
about('R02', """the trained model is judged from outside: with v the documented regularization, w = (f - predict(X))/v must be
 orthogonal to the monomials, and predict must equal sum_i w_i exp(-sum_k (x_k-x_ik)^2/ell_k) + polynomial.""")


def smooth(rng, m):
    a = rng.normal(size=(3, m)) * 1.2
    p = rng.uniform(0, 6, size=3)
    k = rng.randint(3)

    def f(X):
        Z = np.dot(X, a.T) + p
        if k == 0:
            return np.sin(Z).sum(1).reshape((-1, 1))
        if k == 1:
            return (np.exp(0.3 * Z[:, 0]) + 0.3 * np.cos(Z[:, 1])).reshape((-1, 1))
        return (Z[:, 0] * Z[:, 1] + 0.2 * Z[:, 2] ** 3).reshape((-1, 1))
    return f


def rbf_data(rng):
    m = int(rng.randint(1, 4))
    N = int(rng.randint(1, 4)) if m < 3 else int(rng.randint(1, 3))
    M = comb(N + m, m) + (0 if chance(rng, 0.08) else gen.sizes(rng, 5, 35, 90, 0.15))
    X = rng.uniform(-1, 1, size=(M, m)) * gen.logu(rng, -0.5, 0.5)
    if chance(rng, 0.3):
        X = rng.normal(size=(M, m))
    f = smooth(rng, m)(X)
    if chance(rng, 0.15):                        # inputs in other units
        X = X * 10.0 ** rng.uniform(-4, 1)
    if chance(rng, 0.5):
        f = f + rng.normal(size=f.shape) * 0.1
    f = f * gen.logu(rng, -1, 1)
    e = None
    if chance(rng, 0.6):
        q = m + int(rng.randint(0, 4))
        e = np.sort(10.0 ** rng.uniform(-3, 1, size=(q, 1)), axis=0)[::-1].copy()
    v = None
    if chance(rng, 0.5):
        v = 10.0 ** rng.uniform(-8, [-1, 4][int(chance(rng, 0.3))], size=(M, 1))
        if chance(rng, 0.2):
            v[rng.randint(M)] = 0.0
    return m, N, M, X, f, v, e


def kernel(X1, X2, ell):
    D = (X1[:, None, :] - X2[None]) ** 2 / np.ravel(ell)[None, None]
    return np.exp(-D.sum(2))


def documented_v(R, f, v, e, m, mon=None):
    """The regularization and the scale g that the documentation prescribes for the trained length scales."""
    if e is None:
        g = float(np.ravel(R.ell)[0])
        vv = 1e-6 * np.ones(f.shape) if v is None else v
    else:
        g = float(np.ravel(R.ell)[0] * e[0, 0] / e.sum())
        vv = g * e[m:].sum() * np.ones(f.shape) if v is None else v
    return g, np.maximum(vv.reshape(f.shape), 1e-6)


@family('R02', 300, 6000)
def r02_representation(mon, rng):
    m, N, M, X, f, v, e = rbf_data(rng)
    mon.input(X=X, f=f, N=N, v=v if v is not None else 0, e=e if e is not None else 0)
    R = RadialBasisApproximation(N=N)
    with mon.guard('train'):
        R.train(layout(rng, X), layout(rng, f), v=None if v is None else layout(rng, v),
                e=None if e is None else layout(rng, e))
        fX = R.predict(X)[0]
    ell = np.ravel(R.ell)
    mon.check(ell.size == m and np.all(ell > 0) and np.all(np.isfinite(ell)), 'length scales:positive', ell=ell)
    g, vv = documented_v(R, f, v, e, m)
    mon.check(10.0 ** -10 * (1 - 1e-9) <= g <= 10 * (1 + 1e-9), 'length scales:in the search interval', g=g)
    want = g * np.ones(m) if e is None else g * e.sum() / e[:m, 0]
    mon.close(ell, want, 'length scales:anisotropy from the eigenvalues', rtol=1e-10)
    r = f - fX
    w = r / vv
    B = monomials(X, exponents(m, N))
    sb = np.abs(B).sum(0)
    o = np.dot(B.T, w)
    K = kernel(X, X, ell) + np.diag(vv.ravel())
    noise = 1e-13 * (np.abs(f).max() + np.abs(R.radial_weights).sum() + np.abs(R.poly_weights).sum()) / vv
    mon.check(np.all(np.abs(o) <= (1e-5 * np.dot(np.abs(B).T, np.abs(w)) + np.dot(np.abs(B).T, noise))),
              'weights:orthogonal to the monomials', o=o)
    mon.close(w, R.radial_weights, 'weights:residual is regularization times weight',
              atol=1e-5 * np.abs(w).max() + noise.max())
    Y = rng.uniform(-1, 1, size=(12, m)) * np.abs(X).max()
    with mon.guard('predict'):
        p = R.predict(layout(rng, Y))[0]
    P = p - np.dot(kernel(Y, X, ell), R.radial_weights)
    # what remains is a polynomial of degree N: fit it on the training points and compare elsewhere
    PX = fX - np.dot(kernel(X, X, ell), R.radial_weights)
    c = np.linalg.lstsq(B, PX, rcond=None)[0]
    s = np.abs(f).max() + np.abs(R.radial_weights).sum()
    cb = np.linalg.cond(B)
    if cb < 1e6:
        mon.close(np.dot(B, c), PX, 'prediction:radial part plus polynomial', atol=1e-9 * s)
        mon.close(np.dot(monomials(Y, exponents(m, N)), c), P, 'prediction:same polynomial elsewhere',
                  atol=1e-12 * cb * s * (1 + np.abs(monomials(Y, exponents(m, N))).max()))
    mon.check(R.poly_weights.shape == (B.shape[1], 1) and R.radial_weights.shape == (M, 1), 'weights:shapes')
    mon.check(np.isfinite(R.Rsqr) and R.Rsqr <= 1 + 1e-9, 'Rsqr:at most one', Rsqr=R.Rsqr)
    res = f - np.dot(B, c)
    if np.linalg.cond(K) < 1e6 and cb < 1e4:
        want = 1 - np.dot(res.T, np.linalg.solve(K, res)) / np.dot(f.T, np.linalg.solve(K, f))
        mon.close(np.array(R.Rsqr), want[0, 0], 'Rsqr:from the generalized residual', atol=1e-5)
    mon.close(R.X, X, 'train:keeps the training inputs', atol=0)
    mon.close(R.f, f, 'train:keeps the training outputs', atol=0)


@family('R02', 120, 2500)
def r02_polynomials(mon, rng):
    """Data from polynomials of degree N are reproduced whatever the length scales and the noise levels."""
    m, N, M, X, f, v, e = rbf_data(rng)
    E = exponents(m, N)
    B = monomials(X, E)
    if np.linalg.cond(B) > 1e4:
        raise Skip('ill conditioned')
    c = rng.normal(size=(len(E), 1))
    f = np.dot(B, c)
    mon.input(X=X, c=c, N=N, v=v if v is not None else 0, e=e if e is not None else 0)
    R = RadialBasisApproximation(N)
    with mon.guard('train'):
        R.train(X, f, v=v, e=e)
    Y = rng.uniform(-1, 1, size=(10, m))
    with mon.guard('predict'):
        p, dp = R.predict(Y, compgrad=True)
    mon.close(p, np.dot(monomials(Y, E), c), 'polynomials:reproduced', atol=3e-6 * (1 + np.abs(c).sum()))
    G = np.hstack([np.dot(dmonomials(Y, E, i), c) for i in range(m)])
    mon.close(dp, G, 'polynomials:gradient reproduced', atol=1e-4 * (1 + np.abs(c).sum()))


@family('R02', 80, 1500)
def r02_interpolates(mon, rng):
    """Smooth noise-free data: the surface follows the data and predicts in between."""
    m = int(rng.randint(1, 3))
    F = smooth(rng, m)
    M = 40 if m == 1 else 90
    X = np.linspace(-1, 1, M).reshape((M, 1)) if m == 1 else rng.uniform(-1, 1, size=(M, m))
    f = F(X)
    if np.std(f) < 1e-2:
        raise Skip('flat')
    mon.input(X=X, f=f)
    R = RadialBasisApproximation(N=2)
    with mon.guard('train'):
        R.train(X, f)
    mon.close(R(X), f, 'smooth data:followed', atol=0.02 * np.std(f))
    Y = rng.uniform(-0.8, 0.8, size=(20, m))
    mon.close(R(Y), F(Y), 'smooth data:predicted in between', atol=0.15 * np.std(f))


@family('R02', 60, 800)
def r02_bases(mon, rng):
    m = int(rng.randint(1, 4))
    X1, X2 = rng.normal(size=(int(rng.randint(1, 8)), m)), rng.normal(size=(int(rng.randint(1, 8)), m))
    ell = 10.0 ** rng.uniform(-1, 1, size=(m, 1))
    s = gen.logu(rng, -1, 1)
    if chance(rng, 0.3):                                  # inputs far from the origin
        o = np.round(rng.normal(size=m) * 10.0 ** rng.uniform(2, 6))
        X1, X2 = np.round(X1 * 1024) / 1024 + o, np.round(X2 * 1024) / 1024 + o
    elif chance(rng, 0.3):                                # close pairs and short length scales
        ell = ell * 1e-8
        X2 = X1[rng.randint(len(X1), size=len(X2))] + 1e-4 * np.sqrt(10) * rng.normal(size=X2.shape)
    mon.input(X1=X1, X2=X2, ell=ell)
    with mon.guard('exponential_squared'):
        C = rf.exponential_squared(layout(rng, X1), layout(rng, X2), s, layout(rng, ell))
        D = rf.grad_exponential_squared(layout(rng, X1), layout(rng, X2), s, layout(rng, ell))
    K = s * kernel(X1, X2, ell)
    mon.close(C, K, 'kernel:squared exponential', rtol=1e-12)
    mon.shape(D, (len(X1), len(X2), m), 'kernel:gradient shape')
    for k in range(m):
        # derivative with respect to the evaluation point
        want = K * 2 * (X1[:, None, k] - X2[None, :, k]) / ell[k]
        mon.close(D[:, :, k], want, 'kernel:derivative', rtol=1e-11, atol=1e-14)


# ---------------------------------------------------------------------------------------------------------------- R03
about('R03', """fourth-order central differences of predict against the gradient returned with it, on both surfaces and on active
 subspaces; each row of a batch must give the prediction of that row alone.""")


def fd(fun, Y, h):
    m = Y.shape[1]
    out = np.zeros(Y.shape)
    for i in range(m):
        d = np.zeros((1, m))
        d[0, i] = h
        out[:, i] = ((fun(Y - 2 * d) - 8 * fun(Y - d) + 8 * fun(Y + d) - fun(Y + 2 * d)) / (12 * h)).ravel()
    return out


def check_gradient(mon, R, Y, rng, label, of=None, grow=1.0):
    of = R if of is None else of
    rbf = isinstance(of, RadialBasisApproximation)
    with mon.guard(label + ' predict'):
        p, dp = R.predict(layout(rng, Y), compgrad=True)
        p0, none = R.predict(Y)
        g, c = R.gradient(Y), R(Y)
    mon.shape(p, (len(Y), 1), label + ':value shape')
    mon.shape(dp, Y.shape, label + ':gradient shape')
    l = np.sqrt(np.min(of.ell)) if rbf else 1.0
    h = 1e-3 * min(l, 1.0)
    s = np.abs(of.poly_weights).sum() * (1 + grow * np.abs(Y).max()) ** of.N
    sw = np.abs(of.radial_weights).sum() if rbf else 0.0
    tol = 1e-8 * (s + sw / min(l, 1.0)) + 1e-13 * (s + sw) / h
    mon.close(dp, fd(lambda Z: R.predict(Z)[0], Y, h), label + ':gradient is the derivative of the prediction',
              atol=tol)
    t = 1e-12 * (s + sw)
    mon.close(p0, p, label + ':value with and without gradient', atol=t)
    mon.check(none is None, label + ':no gradient unless asked')
    mon.close(c, p, label + ':call', atol=t)
    mon.close(g, dp, label + ':gradient()', atol=t / min(l, 1.0))
    for k in [rng.randint(len(Y))] + ([0, len(Y) // 2, len(Y) - 1] if len(Y) > 20 else []):
        with mon.guard(label + ' predict'):
            a, b = R.predict(Y[k:k + 1], compgrad=True)
        mon.close(a, p[k:k + 1], label + ':row alone', atol=t)
        mon.close(b, dp[k:k + 1], label + ':row alone (gradient)', atol=t / min(l, 1.0))
    if len(Y) > 2:
        ix = rng.permutation(len(Y))[:rng.randint(2, len(Y) + 1)]
        with mon.guard(label + ' predict'):
            a, b = R.predict(Y[ix], compgrad=True)
        mon.close(a, p[ix], label + ':rows in another order', atol=t)
        mon.close(b, dp[ix], label + ':rows in another order (gradient)', atol=t / min(l, 1.0))


@family('R03', 250, 5000)
def r03_polynomial(mon, rng):
    m, N = mN(rng, 5, 5)
    if chance(rng, 0.1):
        m, N = int(rng.randint(1, 3)), int(rng.randint(5, 9))
    X = train_points(rng, m, N, extra=10).astype(float)
    f = rng.normal(size=(len(X), 1))
    Y = rng.uniform(-1, 1, size=(gen.sizes(rng, 1, 8, 300), m))
    if chance(rng, 0.3):
        Y[rng.randint(len(Y)), rng.randint(m)] = 0.0
    mon.input(X=X, f=f, N=N, Y=Y)
    P = PolynomialApproximation(N)
    with mon.guard('train'):
        P.train(X, f)
    check_gradient(mon, P, Y, rng, 'polynomial')


@family('R03', 200, 4000)
def r03_radial(mon, rng):
    m, N, M, X, f, v, e = rbf_data(rng)
    Y = rng.uniform(-1, 1, size=(gen.sizes(rng, 1, 8, 300), m)) * np.abs(X).max()
    if chance(rng, 0.3):
        Y[0] = X[rng.randint(M)]                     # at a center
    mon.input(X=X, f=f, N=N, Y=Y)
    R = RadialBasisApproximation(N)
    with mon.guard('train'):
        R.train(X, f, v=v, e=e)
    check_gradient(mon, R, Y, rng, 'radial')


@family('R03', 80, 1500)
def r03_active(mon, rng):
    """Surfaces on the active variables: both gradients are derivatives, in the active variables and in the inputs."""
    m, n, N, s, a, twin = as_surface(rng)
    M = comb(N + n, n) + int(rng.randint(6, 30))
    X = rng.normal(size=(M, m))
    f = smooth(rng, n)(np.dot(X, s.W1)) + 0.1 * rng.normal(size=(M, 1))
    Y = rng.uniform(-1, 1, size=(gen.sizes(rng, 1, 6, 60), m))
    mon.input(nontrivial=m > 1, W=s.eigenvecs, X=X, f=f, Y=Y, N=N, n=n)
    with mon.guard('train_with_data'):
        a.train_with_data(X, f)

    class InInputs(object):
        predict, gradient, __call__ = a.predict, a.gradient, lambda self, Z: a(Z)

    class InActive(object):
        predict, gradient, __call__ = a.predict_av, a.gradient_av, lambda self, Z: a.predict_av(Z)[0]
    for cls, Z, label in ((InInputs, Y, 'inputs'), (InActive, np.dot(Y, s.W1), 'active variables')):
        check_gradient(mon, cls(), Z, rng, label, of=a.respsurf, grow=np.sqrt(m))


# ---------------------------------------------------------------------------------------------------------------- R04
about('R04', """a twin surface trained directly on the active variables is the reference; perturbations along the inactive
 subspace must not change the prediction.""")


def as_surface(rng, kind=None):
    m = gen.sizes(rng, 1, 7)
    n = int(rng.randint(1, min(m, 3) + 1))
    s = gen.subspaces(rng, m, n)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    k = rng.randint(3) if kind is None else kind
    N = int(rng.randint(1, 4))
    if k == 0:
        a, twin = rs.ActiveSubspaceResponseSurface(mp), RadialBasisApproximation()
        N = 2
    elif k == 1:
        a, twin = rs.ActiveSubspaceResponseSurface(mp, respsurf=RadialBasisApproximation(N)), RadialBasisApproximation(N)
    else:
        a, twin = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(N)), PolynomialApproximation(N)
    return m, n, N, s, a, twin


@family('R04', 300, 6000)
def r04_ridge(mon, rng):
    m, n, N, s, a, twin = as_surface(rng)
    M = comb(N + n, n) + int(rng.randint(6, 30))
    X = rng.normal(size=(M, m)) if chance(rng, 0.5) else rng.uniform(-1, 1, size=(M, m))
    W1, W2 = s.W1, s.W2
    f = smooth(rng, n)(np.dot(X, W1)) + 0.1 * rng.normal(size=(M, 1))
    v = 10.0 ** rng.uniform(-4, -1, size=(M, 1)) if chance(rng, 0.5) else None
    if v is not None and chance(rng, 0.4):
        v[:] = v[0]                                       # the same noise everywhere, exactly or about
        v = v * (1 + [0.0, 1e-6, 0.05][rng.randint(3)] * rng.uniform(size=v.shape))
    Y = rng.normal(size=(gen.sizes(rng, 1, 8, 200), m))
    mon.input(nontrivial=m > 1, W=s.eigenvecs, X=X, f=f, Y=Y, N=N, n=n)
    with mon.guard('train_with_data'):
        a.train_with_data(layout(rng, X), layout(rng, f), v=v) if v is not None else \
            a.train_with_data(layout(rng, X), layout(rng, f))
    with mon.guard('twin'):
        if isinstance(twin, RadialBasisApproximation):
            twin.train(np.dot(X, W1), f, v=v, e=s.eigenvals)
        else:
            twin.train(np.dot(X, W1), f)
    with mon.guard('predict'):
        p, dp = a.predict(layout(rng, Y), compgrad=True)
        p0, d0 = a.predict(Y)
        g, c = a.gradient(Y), a(Y)
        pa, da = a.predict_av(np.dot(Y, W1), compgrad=True)
        pn, dn = a.predict_av(np.dot(Y, W1))
        ga = a.gradient_av(np.dot(Y, W1))
    R = a.respsurf
    rbf = isinstance(R, RadialBasisApproximation)
    mon.check(isinstance(R, type(twin)) and R.N == twin.N, 'kind of surface')
    l = min(1.0, np.sqrt(np.min(R.ell))) if rbf else 1.0
    sc = (np.abs(R.poly_weights).sum() * (1 + np.abs(np.dot(Y, W1)).max()) ** N
          + (np.abs(R.radial_weights).sum() if rbf else 0))
    t = 1e-11 * sc
    mon.check(d0 is None and dn is None, 'no gradient unless asked')
    mon.shape(p, (len(Y), 1), 'value shape')
    mon.shape(dp, (len(Y), m), 'gradient shape')
    mon.close(p, pa, 'value is that of the active variables', atol=t)
    mon.close(p0, p, 'value with and without gradient', atol=t)
    mon.close(pn, p, 'active value with and without gradient', atol=t)
    mon.close(c, p, 'call', atol=t)
    mon.close(g, dp, 'gradient()', atol=t / l)
    mon.close(ga, da, 'gradient_av()', atol=t / l)
    mon.close(dp, np.dot(da, W1.T), 'chain rule', atol=t / l)
    if rbf:
        # length scales and regularization are those of all eigenvalues of the subspace
        YX = np.dot(X, W1)
        scale, vv = documented_v(R, f, v, s.eigenvals, n)
        mon.close(np.ravel(R.ell), scale * s.eigenvals.sum() / s.eigenvals[:n, 0],
                  'length scales from the eigenvalues of the subspace', rtol=1e-10)
        with mon.guard('predict'):
            r = f - R.predict(YX)[0]
        noise = 1e-13 * (np.abs(f).max() + np.abs(R.radial_weights).sum() + np.abs(R.poly_weights).sum()) / vv
        mon.close(r / vv, R.radial_weights, 'regularization from the eigenvalues of the subspace',
                  atol=1e-5 * np.abs(r / vv).max() + noise.max())
    loose = 1e-6 * (1 + np.abs(f).max()) * (1 + np.abs(np.dot(Y, W1)).max()) ** N
    with mon.guard('twin'):
        tp = twin.predict(np.dot(Y, W1), compgrad=True)
    off = np.max(np.abs(R.ell / twin.ell - 1)) if rbf else 0.0
    if off < 1e-8:
        # weights may be as ill-conditioned as the smallest regularization allows
        drift = 1e-9 * sc + 1e4 * off * sc
        mon.event('twins compared')
        mon.close(p, tp[0], 'twin trained on the active variables', atol=max(loose, drift))
        mon.close(dp, np.dot(tp[1], W1.T), 'twin gradient', atol=max(10 * loose, drift) / l)
    else:
        mon.event('length scales on a flat stretch of the heuristic')
        mon.close(R.ell / R.ell[0], twin.ell / twin.ell[0], 'twin length scales', rtol=1e-9)
    if m > n:
        Z = np.dot(rng.normal(size=(len(Y), m - n)) * 5, W2.T)
        with mon.guard('predict'):
            q, dq = a.predict(Y + Z, compgrad=True)
        mon.close(q, p, 'flat along the inactive subspace', atol=max(10 * t, 1e-9 * sc) / l)
        mon.close(np.dot(dp, W2), np.zeros((len(Y), m - n)), 'gradient in the active subspace', atol=t / l)
    if n == m:
        mon.counts['all variables active'] += 1


@family('R04', 40, 400)
def r04_refusals(mon, rng):
    s = gen.subspaces(rng, 3, 1)
    mon.input(W=s.eigenvecs)
    for bad in (s, None, 'map', dm.UnboundedActiveVariableDomain(s)):
        mon.raises(lambda: rs.ActiveSubspaceResponseSurface(bad), 'not a map refused', TypeError)
        mon.raises(lambda: rs.av_design(bad, 5), 'not a map refused', TypeError)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    for bad in (2.0, '3', None):
        mon.raises(lambda: rs.av_design(mp, bad), 'design size must be an integer')
        mon.raises(lambda: rs.av_design(mp, 5, NMC=bad), 'number of draws must be an integer')
    a = rs.ActiveSubspaceResponseSurface(mp)
    X = rng.normal(size=(20, 3))
    mon.raises(lambda: a.train_with_data(X, np.zeros((19, 1))), 'unequal inputs and outputs refused')
    mon.raises(lambda: a.train_with_data(X, np.zeros((20, 2))), 'several outputs refused')
    mon.raises(lambda: a.train_with_data(X[:2], X[:2, :1]), 'too few points refused')


# ---------------------------------------------------------------------------------------------------------------- R05
about('R05', """the interface is a recording function; from its log alone the groups, conditional averages and variances are
 recomputed and compared with the training set of the surface.""")


@contextlib.contextmanager
def design_may_fail():
    """maximin_design reports when the optimizer does not converge: there is nothing to judge then."""
    try:
        yield
    except Exception as e:
        if 'SLSQP failed' in str(e):
            raise Skip('no design')
        raise


class Recorded(object):
    def __init__(self, fun):
        self.fun, self.X, self.F, self.shapes = fun, [], [], set()

    def __call__(self, x):
        x = np.array(x)
        self.shapes.add(x.shape)
        v = self.fun(x.reshape((1, -1)))[0, 0]
        self.X.append(x.ravel())
        self.F.append(v)
        return v


@family('R05', 120, 2200)
def r05_interface(mon, rng):
    bounded = chance(rng, 0.6)
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 2) + 1))
    if bounded:
        s, d = gen.bounded_pair(rng, m, n)
        mp = dm.BoundedActiveVariableMap(d)
    else:
        s = gen.subspaces(rng, m, n)
        d = dm.UnboundedActiveVariableDomain(s)
        mp = dm.UnboundedActiveVariableMap(d)
    poly = chance(rng, 0.5)
    need = comb(2 + n, n)
    N = int(rng.randint(8, 14)) if n == 1 else int(rng.choice([9, 10, 16])) if not bounded else int(rng.randint(4, 9))
    NMC = int(rng.randint(1, 6))
    if n == 1 and chance(rng, 0.12):
        N = int(rng.randint(14, 200))                     # many design points, many runs per point
    elif chance(rng, 0.08):
        NMC = int(rng.randint(6, 150))
    F = smooth(rng, m)
    rec = Recorded(F)
    runner = SimulationRunner(rec) if chance(rng, 0.4) else rec
    a = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2) if poly else None)
    mon.input(W=s.eigenvecs, N=N, NMC=NMC, bounded=bounded)
    with mon.guard('train_with_interface'), design_may_fail():
        if NMC == 1 and chance(rng, 0.3):
            NMC = 10
            a.train_with_interface(runner, N)
        else:
            a.train_with_interface(runner, N, NMC)
    X, f = np.array(rec.X), np.array(rec.F)
    mon.check(rec.shapes == {(1, m)}, 'interface:called with 1-by-m points', shapes=sorted(rec.shapes))
    if bounded:
        k, nv = N, len(d.vertY)
    else:
        k = 1
        while (k + 1) ** n <= N:
            k += 1
        k, nv = k ** n, 0
    mon.check(len(X) == k * NMC + nv, 'interface:one run per point of the design', runs=len(X), k=k, NMC=NMC, nv=nv)
    mon.event('runs', len(X))
    T, E = a.respsurf.X, a.respsurf.f
    mon.check(T.shape == (k + nv, n) and E.shape == (k + nv, 1), 'training set:one row per design point', T=T.shape)
    Y = np.dot(X, s.W1)
    D = np.abs(T[:, None, :] - Y[None]).max(2) < 1e-6
    mon.check(np.all(D.sum(0) >= 1), 'training set:every run belongs to a design point')
    V = np.zeros((k + nv, 1))
    for i in range(k + nv):
        fi = f[D[i]]
        if fi.size not in (1, NMC) or np.any(D[:, D[i]].sum(0) > 1):
            if NMC > 1:
                mon.check(fi.size in (1, NMC), 'training set:runs per design point', n=fi.size)
            continue
        mon.close(E[i, 0], fi.mean(), 'training set:conditional average', atol=1e-9 * (1 + np.abs(f).max()))
        V[i] = fi.var()
    if bounded:
        mon.check(np.abs(X).max() <= 1 + 1e-6, 'interface:called inside the hypercube', worst=np.abs(X).max())
        for v, x in zip(d.vertY, d.vertX):
            j = np.where(np.abs(T - v).max(1) < 1e-9)[0]
            mon.check(len(j) == 1, 'training set:vertices included')
            if len(j) == 1:
                mon.close(E[j[0], 0], F(x.reshape((1, m)))[0, 0], 'training set:value at a vertex is that of its corner',
                          atol=1e-9 * (1 + np.abs(f).max()))
    if not poly:
        R = a.respsurf
        r = E - R.predict(T)[0]
        vv = np.maximum(V, 1e-6)
        noise = 1e-12 * (np.abs(E).max() + np.abs(R.radial_weights).sum() + np.abs(R.poly_weights).sum())
        mon.close(r, vv * R.radial_weights, 'training set:conditional variance is the regularization',
                  atol=1e-6 * np.abs(vv * R.radial_weights).max() + noise)


@family('R05', 60, 1000)
def r05_av_design(mon, rng):
    bounded = chance(rng, 0.6)
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 3) + 1))
    if bounded:
        s, d = gen.bounded_pair(rng, m, n)
        mp = dm.BoundedActiveVariableMap(d)
    else:
        s = gen.subspaces(rng, m, n)
        mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    N, NMC = int(rng.randint(1, 8)), int(rng.randint(1, 5))
    if not bounded and chance(rng, 0.5):
        # about perfect powers, whose floating-point roots may fall short
        N, NMC = max(1, int(rng.randint(2, [80, 20, 9][n - 1])) ** n + int(rng.randint(-1, 2))), 1
    elif chance(rng, 0.1):
        NMC = int(rng.randint(5, 200))
    elif n == 1 and chance(rng, 0.2):
        N = int(rng.randint(8, 300))
    mon.input(W=s.eigenvecs, N=N, NMC=NMC, bounded=bounded)
    with mon.guard('av_design'), design_may_fail():
        Y, X, ind = rs.av_design(mp, N, NMC=NMC)
    k = N
    if not bounded:
        k = 1
        while (k + 1) ** n <= N:
            k += 1
        k = k ** n
    mon.shape(Y, (k, n), 'design:active points')
    if not mon.shape(X, (k * NMC, m), 'design:full points') or not mon.check(np.size(ind) == k * NMC, 'design:indices'):
        return
    i = np.ravel(ind).astype(int)
    mon.check(np.array_equal(np.bincount(i, minlength=k), NMC * np.ones(k)), 'design:draws per point')
    mon.close(np.dot(X, s.W1), Y[i], 'design:points belong together', atol=1e-8)
    if bounded:
        A, h = gen.zonotope_halfspaces(s.W1)
        mon.check(np.all(np.abs(np.dot(Y, A.T)) <= h + 1e-6), 'design:inside the domain')
        mon.check(np.abs(X).max() <= 1 + 1e-6, 'design:inside the hypercube')
