"""Objects used again after the subspaces they refer to were computed anew, and several sets of objects side by side."""
import contextlib

import numpy as np

from active_subspaces import subspaces as ss, domains as dm, response_surfaces as rs, integrals as ig, optimizers as op
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation

from .core import family, Skip
from . import gen
from .gen import chance


class Chain(object):
    """Subspaces, domain, map and surface on top of each other."""

    def __init__(self, bounded, kind, df, n):
        self.bounded, self.s = bounded, ss.Subspaces()
        self.s.compute(df=df)
        self.s.partition(n)
        self.d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(self.s)
        self.map = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(self.d)
        self.min = (op.BoundedMinVariableMap if bounded else op.UnboundedMinVariableMap)(self.d)
        R = [lambda: None, lambda: PolynomialApproximation(2), lambda: RadialBasisApproximation(1)][kind]()
        self.surface = rs.ActiveSubspaceResponseSurface(self.map, R)

    def again(self, df, n):
        self.s.compute(df=df)
        self.s.partition(n)
        if self.bounded:
            self.d.compute_boundary()


def maps(rng, bounded, m):
    U, k = rng.uniform(-0.8, 0.8, size=(4, m)), int(rng.randint(1, 5))

    def go(c):
        Y, Z = c.map.forward(U)
        X, i = c.map.inverse(Y, k)
        return Y, Z, X, i, np.dot(X, c.s.W1) - Y[i.ravel().astype(int)]
    return go


def data(rng, m):
    X = rng.uniform(-1, 1, size=(40, m))
    f = np.sin(np.dot(X, rng.normal(size=(m, 1)))) + np.dot(X, rng.normal(size=(m, 1))) ** 2
    return X, f


def surfaces(rng, bounded, m):
    X, f = data(rng, m)
    P = rng.uniform(-1, 1, size=(5, m))

    def go(c):
        c.surface.train_with_data(X, f)
        return c.surface.predict(P, compgrad=True) + (c.surface.gradient(P), c.surface(P))
    return go


def interface(rng, bounded, m):
    a, b = rng.normal(size=m), rng.normal(size=m)
    N, P = int(rng.choice([9, 12])), rng.uniform(-1, 1, size=(5, m))

    def go(c):
        log = []

        def f(x):
            log.append(np.array(x).ravel())
            return np.sin(np.dot(x.ravel(), a)) + np.dot(x.ravel(), b)
        c.surface.train_with_interface(f, N if not bounded or c.s.W1.shape[1] == 1 else 6, 2)
        return c.surface.predict(P, compgrad=True) + (np.array(log),)
    return go


def integrals(rng, bounded, m):
    a, b = rng.normal(size=m), rng.normal(size=m)
    N = int(rng.randint(4, 10))

    def go(c):
        f = lambda x: np.sin(np.dot(x.ravel(), a)) + np.dot(x.ravel(), b) ** 2
        return ig.quadrature_rule(c.map, N, NMC=2) + ig.integrate(f, c.map, N, NMC=3) + (
            ig.av_integrate(lambda y: np.cos(y.ravel()[0]), c.map, N),)
    return go


def minima(rng, bounded, m):
    X, f = data(rng, m)
    H = gen.convex_quadratic(rng, m, 0.5)
    f = 0.1 * f + (np.dot(X, H) * X).sum(1).reshape((-1, 1))

    def go(c):
        c.surface.train_with_data(X, f)
        c.min.train(X, f)
        Y = 0.3 * np.dot(X[:3], c.s.W1)
        return op.minimize(c.surface, X, f) + c.min.inverse(Y)
    return go


OPS = dict(D02=(maps, 0), R04=(surfaces, 0), R05=(interface, 0), Q03=(integrals, 0), O04=(minima, 1))


def flat(r):
    return [np.asarray(v, dtype=float) for v in r if v is not None]


def agree(mon, a, b, label, **info):
    ok = len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b))
    worst = max([np.abs(x - y).max() / (1.0 + np.abs(y).max()) for x, y in zip(a, b) if x.size] + [0.0]) if ok else np.inf
    mon.check(ok and worst <= 1e-9, label, worst=worst, **info)


def reuse(mon, rng, prop):
    make, kind = OPS[prop]
    bounded = chance(rng, 0.5)
    m = int(rng.randint(2, 5))
    n = [int(rng.randint(1, min(m, 2) + 1)) for k in range(3)]
    df = [rng.normal(size=(30, m)) * 10.0 ** rng.uniform(-1, 0, size=m)]
    for k in range(2):
        df.append(df[0] + 0.3 * rng.normal(size=df[0].shape) if chance(rng, 0.5)
                  else np.dot(rng.normal(size=(30, m)) * 10.0 ** rng.uniform(-1, 0, size=m), gen.orth(rng, m)))
    if chance(rng, 0.2):
        df[1] = df[0]                            # only the dimension changes
    for k in range(3):
        if bounded and not gen.general_position(ss_w1(df[k], n[k]), 2e-2):
            raise Skip('general position')
    kind = kind or int(rng.randint(3))
    go = make(rng, bounded, m)
    seed = int(rng.randint(2 ** 31))
    mon.input(df=df, n=n, bounded=bounded)

    def run(c):
        np.random.seed(seed)
        with mon.guard('analysis'), quiet():
            return flat(go(c))
    a = Chain(bounded, kind, df[0], n[0])
    first = run(a)
    kept = [v.copy() for v in first]
    for k in (1, 2):
        with mon.guard('recomputation'):
            a.again(df[k], n[k])
        later = run(a)
        fresh = run(Chain(bounded, kind, df[k], n[k]))
        agree(mon, later, fresh, 'reuse:like fresh objects after recomputation', bounded=bounded, n=n, step=k)
    mon.check(all(np.array_equal(x, y) for x, y in zip(first, kept)), 'reuse:earlier results unchanged')
    with mon.guard('recomputation'):
        a.again(df[0], n[0])
        b = Chain(bounded, kind, df[1], n[1])
    run(b)
    agree(mon, run(a), kept, 'reuse:back to the first data', bounded=bounded, n=n)
    mon.event('reused ' + ('bounded' if bounded else 'unbounded'))


def ss_w1(df, n):
    return np.linalg.eigh(np.dot(df.T, df))[1][:, ::-1][:, :n]


@contextlib.contextmanager
def quiet():
    """The optimizers report when they do not converge: there is nothing to judge then."""
    try:
        yield
    except Exception as e:
        if 'failed with message' in str(e):
            raise Skip('optimizer gave up')
        raise


@family('D02', 40, 800)
def d02_reused(mon, rng):
    reuse(mon, rng, 'D02')


@family('R04', 20, 400)
def r04_reused(mon, rng):
    reuse(mon, rng, 'R04')


@family('R05', 16, 300)
def r05_reused(mon, rng):
    reuse(mon, rng, 'R05')


@family('Q03', 20, 400)
def q03_reused(mon, rng):
    reuse(mon, rng, 'Q03')


@family('O04', 16, 300)
def o04_reused(mon, rng):
    reuse(mon, rng, 'O04')
