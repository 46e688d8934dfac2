"""G01..G03: finite differences, simulation runners, normalizers."""
import numpy as np

from active_subspaces import gradients as gr
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner
from active_subspaces.utils.misc import BoundedNormalizer, UnboundedNormalizer

from .core import family, about, Skip
from . import gen
from .gen import chance, layout

# ---------------------------------------------------------------------------------------------------------------- G01
about('G01', """on affine functions the result is the gradient, on quadratics the gradient plus h/2 times the diagonal of the
 Hessian, exactly; a recording simulation checks which points were evaluated.""")


def ffun(kind, m, rng):
    a, c = rng.normal(size=m) * gen.logu(rng, -2, 2), rng.normal() * 3
    if kind == 'affine':
        return (lambda x: float(np.dot(x.ravel(), a) + c)), (lambda x: a), np.zeros(m)
    A = rng.normal(size=(m, m))
    A = A + A.T
    return (lambda x: float(0.5 * np.dot(x.ravel(), np.dot(A, x.ravel())) + np.dot(x.ravel(), a) + c)), \
        (lambda x: np.dot(A, x) + a), np.diag(A)


@family('G01', 300, 6000)
def g01_exact(mon, rng):
    M, m = gen.sizes(rng, 1, 12, 120), gen.sizes(rng, 1, 8, 20)
    X = gen.points(rng, M, m)
    kind = ['affine', 'quadratic'][rng.randint(2)]
    f, g, d = ffun(kind, m, rng)
    h = 2.0 ** -rng.randint(-1, 9)
    mon.input(nontrivial=M > 1 and m > 1, X=X, h=h, kind=kind, v=f(X[:1].astype(float)))
    seen = []

    def fun(x):
        seen.append(np.array(x, copy=True))
        return f(x.astype(float))
    use = SimulationRunner(fun) if chance(rng, 0.5) else fun
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(layout(rng, X), use, h=h)
    want = np.array([g(x.astype(float)) + 0.5 * h * d for x in X])
    fs = max(abs(f(x.reshape(1, m).astype(float))) for x in X)
    mon.close(df, want, 'fd:difference quotient', rtol=1e-9, atol=1e-12 * (fs + 1) / h + 1e-9)
    mon.check(all(x.shape == (1, m) for x in seen), 'fd:one point per run', shapes=[x.shape for x in seen][:3])
    mon.check(len(seen) == M * (m + 1), 'fd:number of runs', n=len(seen), want=M * (m + 1))
    S = np.array(seen).reshape(-1, m)
    need = np.vstack([X.astype(float)] + [X + h * np.eye(m)[k] for k in range(m)])
    o = lambda Z: Z[np.lexsort(np.round(Z, 9).T)]
    mon.close(o(S), o(need), 'fd:points are the samples and their forward neighbors', atol=1e-9, rtol=1e-12)


@family('G01', 150, 3000)
def g01_default_step(mon, rng):
    M, m = gen.sizes(rng, 1, 10, 60), gen.sizes(rng, 1, 8)
    X = rng.uniform(-1, 1, size=(M, m))
    a = rng.normal(size=m)
    b = rng.normal(size=m)
    f = lambda x: float(np.sin(np.dot(x, a))[0] + np.exp(0.3 * np.dot(x, b))[0])
    mon.input(nontrivial=M > 1 and m > 1, X=X, a=a)
    kw = {} if chance(rng, 0.5) else dict(h=10.0 ** rng.uniform(-7, -5))
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(layout(rng, X), f, **kw)
    want = np.array([np.cos(np.dot(x, a)) * a + 0.3 * np.exp(0.3 * np.dot(x, b)) * b for x in X])
    mon.close(df, want, 'fd:approximates the gradient', atol=1e-3, rtol=1e-3)


@family('G01', 30, 500)
def g01_many_rows(mon, rng):
    """Numbers of runs around round numbers, where work would be divided into blocks."""
    T = int(rng.choice(gen.ROUND)) + int(rng.randint(-1, 2))
    div = [m for m in range(1, 9) if T % (m + 1) == 0 and T > m + 1]
    if not div:
        T, div = T + 1 - T % 2, [1]
        T += T % 2
    m = int(div[rng.randint(len(div))])
    M = T // (m + 1)
    X = rng.uniform(-1, 1, size=(M, m))
    f, g, d = ffun('quadratic', m, rng)
    h = 2.0 ** -6
    mon.input(X=X)
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(X, f, h=h)
    want = np.array([g(x) + 0.5 * h * d for x in X])
    fs = max(abs(f(x.reshape(1, m))) for x in X)
    mon.close(df, want, 'fd:difference quotient, many runs', rtol=1e-9, atol=1e-12 * (fs + 1) / h + 1e-9)
    mon.event('%d runs' % T)


@family('G01', 80, 1500)
def g01_mixed_magnitudes(mon, rng):
    """Coordinates of very different magnitude: the quotient of a small one does not depend on the large ones."""
    M, m = int(rng.randint(1, 10)), int(rng.randint(2, 6))
    S = 10.0 ** rng.uniform(-1, 0, size=m)
    big = rng.rand(m) < 0.4
    big[rng.randint(m)] = False
    S[big] = 10.0 ** rng.uniform(3, 9, size=big.sum())
    X = rng.uniform(-1, 1, size=(M, m)) * S
    a = np.where(big, 0.0, rng.normal(size=m))
    f = lambda x: float(np.sin(np.dot(x, a))[0])
    h = 10.0 ** rng.uniform(-7, -4)
    mon.input(X=X, a=a, h=h)
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(layout(rng, X), f, h=h)
    want = np.cos(np.dot(X, a)).reshape(M, 1) * a
    mon.close(df, want, 'fd:magnitudes do not interfere', atol=1e-15 / h * 30 + 2 * h * np.dot(a, a) + 1e-8)


@family('G01', 80, 1500)
def g01_units(mon, rng):
    """Inputs in units of any size, with steps in those units, forward in either direction."""
    M, m = int(rng.randint(1, 10)), int(rng.randint(1, 6) if chance(rng, 0.8) else rng.randint(6, 70))
    U = 2.0 ** rng.randint(-40, 41)
    X = rng.uniform(-1, 1, size=(M, m))
    f, g, d = ffun(['affine', 'quadratic'][rng.randint(2)], m, rng)
    h = 2.0 ** -rng.randint(0, 9) * (-1 if chance(rng, 0.2) else 1)
    mon.input(X=X, U=U, h=h, v=f(X[:1]))
    with mon.guard('finite_difference_gradients'):
        df = gr.finite_difference_gradients(layout(rng, X * U), lambda x: f(x / U), h=h * U)
    want = np.array([g(x) + 0.5 * h * d for x in X]) / U
    fs = max(abs(f(x.reshape(1, m))) for x in X)
    mon.close(df, want, 'fd:difference quotient in other units', rtol=1e-9, atol=(1e-12 * (fs + 1) / abs(h) + 1e-9) / U)
    mon.event('units 1e%d' % np.round(np.log10(U), -1))


# ---------------------------------------------------------------------------------------------------------------- G02
about('G02', """a recording simulation with unique, stateful behaviour per call: every row is run exactly once, as a 1-by-m
 array, and its result lands in its row; failures propagate.""")


class Boom(Exception):
    pass


def ret(v, rng):
    k = rng.randint(5)
    return [float(v), np.array(v), np.array([v]), np.array([[v]]), np.float64(v)][k]


@family('G02', 300, 6000)
def g02_runner(mon, rng):
    M, m = gen.sizes(rng, 0, 40, 1500), gen.sizes(rng, 1, 8, 30)
    X = gen.points(rng, M, m) if M else np.zeros((0, m))
    if M > 3 and chance(rng, 0.4):
        X = X.copy()
        X[M // 2:] = X[:M - M // 2]              # repeated rows are run again
    if M > 1 and chance(rng, 0.2):
        X = np.array(X, dtype=float)
        X[rng.randint(M), rng.randint(m)] = [np.inf, -0.0, 1e300][rng.randint(3)]
    calls = []
    rr = np.random.RandomState(rng.randint(2 ** 31))

    def fun(x):
        v = float(len(calls)) + 0.25 + 10000 * rep
        calls.append((np.array(x, copy=True), v, type(x), getattr(x, 'shape', None)))
        return ret(v, rr)
    mon.input(nontrivial=M > 1, X=X)
    R = SimulationRunner(fun)
    earlier = []
    for rep in range(3):
        del calls[:]
        if rep == 2:                             # other inputs and often another number of them
            X = gen.points(rng, rng.randint(1, M + 3), m)
        XX = layout(rng, X)
        M = X.shape[0]
        with mon.guard('SimulationRunner.run'):
            F = R.run(XX)
        mon.event('simulations', len(calls))
        mon.check(len(calls) == M, 'runner:one run per row', n=len(calls), M=M)
        mon.check(all(c[2] is np.ndarray and c[3] == (1, m) for c in calls), 'runner:1-by-m arrays',
                  got=[c[3] for c in calls][:3])
        mon.shape(F, (M, 1), 'runner:result shape')
        by = {c[1]: c[0] for c in calls}
        ok = F.size == M and sorted(F.ravel().tolist()) == sorted(by)
        mon.check(ok, 'runner:every result delivered once', F=F)
        if ok:
            mon.check(all(np.array_equal(by[F[i, 0]].ravel(), X[i]) for i in range(M)),
                      'runner:results in the rows of their inputs')
        earlier.append((F, F.copy()))
    mon.check(all(np.array_equal(a, b) for a, b in earlier), 'runner:results of earlier runs unchanged')


@family('G02', 200, 4000)
def g02_gradient_runner(mon, rng):
    M, m = gen.sizes(rng, 0, 40, 600), gen.sizes(rng, 1, 8, 30)
    X = gen.points(rng, M, m) if M else np.zeros((0, m))
    calls = []
    rr = np.random.RandomState(rng.randint(2 ** 31))

    def dfun(x):
        v = len(calls) + 0.25 + 10000 * rep + np.arange(m) / 64.0
        calls.append((np.array(x, copy=True), v[0], getattr(x, 'shape', None)))
        return v.reshape([(1, m), (m,), (m, 1)][rr.randint(3)])
    mon.input(nontrivial=M > 1, X=X)
    R = SimulationGradientRunner(dfun)
    earlier = []
    for rep in range(2):
        del calls[:]
        if rep:
            X = gen.points(rng, rng.randint(1, M + 3), m)
            M = X.shape[0]
        with mon.guard('SimulationGradientRunner.run'):
            F = R.run(layout(rng, X))
        mon.event('simulations', len(calls))
        mon.check(len(calls) == M, 'gradient runner:one run per row', n=len(calls), M=M)
        mon.check(all(c[2] == (1, m) for c in calls), 'gradient runner:1-by-m arrays')
        mon.shape(F, (M, m), 'gradient runner:result shape')
        by = {c[1]: c[0] for c in calls}
        ok = F.shape == (M, m) and all(np.array_equal(F[i], F[i, 0] + np.arange(m) / 64.0) for i in range(M)) \
            and sorted(F[:, 0].tolist()) == sorted(by)
        mon.check(ok, 'gradient runner:every gradient delivered once, whole', F=F)
        if ok:
            mon.check(all(np.array_equal(by[F[i, 0]].ravel(), X[i]) for i in range(M)),
                      'gradient runner:results in the rows of their inputs')
        earlier.append((F, F.copy()))
    mon.check(all(np.array_equal(a, b) for a, b in earlier), 'gradient runner:results of earlier runs unchanged')


@family('G02', 80, 1500)
def g02_special_outputs(mon, rng):
    """Outputs that are not finite, tiny, huge, integer or boolean arrive as they are."""
    M, m = int(rng.randint(1, 12)), int(rng.randint(1, 5))
    pool = [np.nan, np.inf, -np.inf, 0.0, -0.0, 5e-324, 1e-310, 1.7e308, -1.7e308, 1e-17, 3, -2, True, np.float32(0.5), np.int64(7)]
    X = rng.normal(size=(M, m))
    X = X.astype([float, float, np.float32, int][rng.randint(4)])
    out = [pool[i] for i in rng.randint(len(pool), size=M)]
    n = [0]

    def fun(x):
        n[0] += 1
        return ret(out[n[0] - 1], rng) if chance(rng, 0.7) else out[n[0] - 1]

    def dfun(x):
        n[0] += 1
        v = np.array([[out[n[0] - 1]] + [float(k) for k in range(1, m)]], dtype=float)
        return v
    mon.input(X=X, out=[repr(v) for v in out])
    want = np.array(out, dtype=float).reshape(M, 1)
    same = lambda a, b: a.shape == b.shape and np.array_equal(a, b, equal_nan=True) \
        and np.array_equal(np.signbit(a[a == 0]), np.signbit(b[b == 0]))
    with mon.guard('SimulationRunner.run'):
        F = SimulationRunner(fun).run(X)
    mon.check(same(F, want), 'runner:outputs as returned', F=F, want=want)
    n[0] = 0
    with mon.guard('SimulationGradientRunner.run'):
        D = SimulationGradientRunner(dfun).run(X)
    mon.check(same(D, np.hstack((want, np.tile(np.arange(1.0, m), (M, 1))))), 'gradient runner:gradients as returned', D=D)


@family('G02', 150, 3000)
def g02_failures(mon, rng):
    M, m = gen.sizes(rng, 1, 20), gen.sizes(rng, 1, 5)
    X = rng.normal(size=(M, m))
    k = int(rng.randint(M))
    exc = [Boom, ValueError, ZeroDivisionError, KeyError, StopIteration, ArithmeticError][rng.randint(6)]
    n = [0]

    def bad(x):
        n[0] += 1
        if np.array_equal(x.ravel(), X[k]):
            raise exc('run %d' % k)
        return np.zeros((1, m)) if grad else 0.0
    mon.input(X=X, k=k)
    for grad in (False, True):
        n[0] = 0
        R = (SimulationGradientRunner if grad else SimulationRunner)(bad)
        mon.raises(lambda: R.run(X), 'runner:failure of a simulation propagates', exc)
        mon.check(n[0] <= M, 'runner:no run repeated after a failure', n=n[0])
        Y = X.copy()
        Y[k] += 1
        with mon.guard('runner usable after a failure'):
            F = R.run(Y)
        mon.check(F.shape[0] == M, 'runner:usable after a failure')
        # a failure that would not come again
        n[0] = 0
        first = int(rng.randint(1, M + 1))
        kind = [IOError, OSError, RuntimeError, ValueError, FloatingPointError, MemoryError, EOFError, TypeError,
                AttributeError, np.linalg.LinAlgError, Warning, AssertionError, Boom][rng.randint(13)]

        def once(x):
            n[0] += 1
            if n[0] == first:
                raise kind('busy')
            return np.zeros((1, m)) if grad else 0.0
        R = (SimulationGradientRunner if grad else SimulationRunner)(once)
        mon.raises(lambda: R.run(X), 'runner:transient failure propagates', kind, kind=kind.__name__)
        mon.check(n[0] == first, 'runner:nothing run after a failure', n=n[0], failed=first)
    for junk in (None, 3, 'fun', np.zeros(3), [len]):
        mon.raises(lambda: SimulationRunner(junk), 'runner:non-callable rejected', TypeError)
        mon.raises(lambda: SimulationGradientRunner(junk), 'runner:non-callable rejected', TypeError)
    for Z in (X[0], X.reshape(M, m, 1), np.float64(2.0)):
        mon.raises(lambda: SimulationRunner(lambda x: 0.0).run(Z), 'runner:inputs not two-dimensional rejected')
        mon.raises(lambda: SimulationGradientRunner(lambda x: x).run(Z), 'runner:inputs not two-dimensional rejected')


# ---------------------------------------------------------------------------------------------------------------- G03
about('G03', """both normalizers are compared with the affine map fixed by their parameters: corners and center, inverse
 pairs, affinity on random triples, squared norms equal to Mahalanobis distances, Jacobian times transpose equal to the
 covariance.""")


@family('G03', 300, 6000)
def g03_bounded(mon, rng):
    m, M = gen.sizes(rng, 1, 8, 25), gen.sizes(rng, 1, 30, 400)
    k = rng.randint(5)
    if k == 0:
        lb, ub = rng.normal(size=m) * 5, None
        ub = lb + rng.rand(m) * 10 + 0.01
    elif k == 1:
        lb = rng.randint(-9, 5, size=m)
        ub = lb + rng.randint(1, 9, size=m)
    elif k == 2:
        lb = rng.normal(size=m) * 10.0 ** rng.uniform(-6, 6, size=m)
        ub = lb + np.abs(lb) * rng.rand(m) + 10.0 ** rng.uniform(-3, 3, size=m)
    elif k == 4:                                 # in units of any size
        u = 10.0 ** rng.uniform(-18, 12)
        lb = rng.normal(size=m) * u
        ub = lb + (0.01 + rng.rand(m) * 10) * u
    else:
        lb, ub = -np.ones(m), np.ones(m)
    shp = [(m,), (m, 1), (1, m)][rng.randint(3)]
    Xn = rng.uniform(-1, 1, size=(M, m)) if chance(rng, 0.7) else rng.randint(-1, 2, size=(M, m))
    if Xn.dtype == float:
        edge = rng.rand(M, m) < 0.15
        Xn = np.where(edge, rng.choice([-1.0, 1.0], size=(M, m)) * (1 + rng.choice([-1, 1], size=(M, m))
                                                                   * 10.0 ** rng.uniform(-12, 0, size=(M, m))), Xn)
    mon.input(nontrivial=m > 1, lb=lb, ub=ub, Xn=Xn)
    with mon.guard('BoundedNormalizer'):
        bn = BoundedNormalizer(layout(rng, lb.reshape(shp)), layout(rng, ub.reshape(shp)))
        U = bn.unnormalize(layout(rng, Xn))
        B = bn.normalize(layout(rng, U))
    w, c = (ub - lb) / 2.0, (ub + lb) / 2.0
    sc = 1e-13 * (np.abs(lb) + np.abs(ub))
    want = c + w * Xn
    mon.check(U.shape == Xn.shape and np.all(np.abs(U - want) <= 8 * sc), 'bounded:unnormalize is the affine map',
              U=U, want=want)
    mon.check(B.shape == Xn.shape and np.all(np.abs(B - Xn) <= 1e-12 + 20 * sc / w), 'bounded:inverse pair', B=B, Xn=Xn)
    inner = np.abs(Xn) <= 1
    mon.check(np.all((U >= lb - 8 * sc)[inner]) and np.all((U <= ub + 8 * sc)[inner]), 'bounded:inside the bounds')
    X = rng.uniform(lb, ub, size=(M, m))
    edge = rng.rand(M, m) < 0.15                 # next to the bounds, on both sides of them
    X = np.where(edge, np.where(rng.rand(M, m) < 0.5, lb, ub) + w * 10.0 ** rng.uniform(-12, -2, size=(M, m))
                 * rng.choice([-1, 1], size=(M, m)), X)
    far = rng.rand(M, m) < 0.03
    X = np.where(far, c + w * rng.normal(size=(M, m)) * 5, X)
    if k != 1 and chance(rng, 0.15):
        X = np.round(X).astype(int if np.abs(X).max() < 1e15 else float)
    if k == 1 and chance(rng, 0.5):
        X = np.array([rng.randint(lb, ub + 1) for i in range(M)]).reshape(M, m)
    with mon.guard('BoundedNormalizer.normalize'):
        Z = bn.normalize(layout(rng, X))
        E = bn.normalize(np.vstack((lb, ub, c)))
        V = bn.unnormalize(Z)
    mon.check(Z.shape == X.shape and np.all(np.abs(Z - (X - c) / w) <= 1e-12 + 8 * sc / w),
              'bounded:normalize is the affine map', Z=Z)
    mon.check(V.shape == X.shape and np.all(np.abs(V - X) <= 1e-12 * np.abs(X - c) + 30 * sc), 'bounded:inverse pair (other way)', V=V)
    mon.check(np.all(np.abs(E - np.array([[-1.0], [1.0], [0.0]])) <= 1e-12 + 8 * sc / w),
              'bounded:bounds to -1 and 1', E=E)
    for Y in (X[0], X.reshape(M, m, 1)):
        mon.raises(lambda: bn.normalize(Y), 'bounded:not two-dimensional rejected')
        mon.raises(lambda: bn.unnormalize(Y), 'bounded:not two-dimensional rejected')


@family('G03', 300, 6000)
def g03_unbounded(mon, rng):
    m, M = gen.sizes(rng, 1, 7, 15), gen.sizes(rng, 1, 30, 400)
    k = rng.randint(4)
    V = gen.orth(rng, m)
    lam = 10.0 ** rng.uniform(-2, 2, size=m)
    C = np.dot(V * lam, V.T)
    if k == 0:
        C = np.diag(lam)
    elif k == 1:
        C = np.eye(m) * gen.logu(rng, -3, 3)
    elif k == 2:
        A = rng.randint(-3, 4, size=(m, m))
        C = np.dot(A, A.T) + np.eye(m, dtype=int)
    C = (C + C.T) / 2.0 if k != 2 else C
    mu = rng.normal(size=m) * gen.logu(rng, -1, 2)
    mu = mu.reshape([(m,), (m, 1), (1, m)][rng.randint(3)])
    if np.linalg.cond(C) > 1e7:
        raise Skip()
    Z = rng.normal(size=(M, m))
    mon.input(nontrivial=m > 1, C=C, mu=mu, Z=Z)
    with mon.guard('UnboundedNormalizer'):
        un = UnboundedNormalizer(layout(rng, mu), layout(rng, C))
        X = un.unnormalize(layout(rng, Z))
        B = un.normalize(layout(rng, X))
        O = un.unnormalize(np.zeros((1, m)))
        J = un.unnormalize(np.eye(m)) - O
    r = mu.reshape(1, m)
    sc = np.sqrt(np.abs(C).max()) + np.abs(mu).max()
    tol = 1e-10 * np.linalg.cond(C) ** 0.5 * (1 + np.abs(mu).max() / np.sqrt(np.linalg.eigvalsh(C).min()))
    mon.close(O, r, 'unbounded:zero to the mean', atol=1e-12 * sc)
    mon.close(np.dot(J.T, J), C.astype(float), 'unbounded:covariance', rtol=1e-8 * (1 + np.abs(mu).max() ** 2 / np.abs(C).max() * 1e-6))
    mon.close(X, O + np.dot(Z, J), 'unbounded:affine', atol=1e-11 * sc * (1 + np.abs(Z).max()))
    mon.close(B, Z, 'unbounded:inverse pair', atol=tol * (1 + np.abs(Z).max()))
    Y = r + rng.normal(size=(M, m)) * np.sqrt(np.diag(C))
    with mon.guard('UnboundedNormalizer.normalize'):
        N = un.normalize(layout(rng, Y))
        Y2 = un.unnormalize(N)
    d = np.einsum('ij,ji->i', Y - r, np.linalg.solve(C.astype(float), (Y - r).T))
    mon.close((N ** 2).sum(1), d, 'unbounded:squared norm is the Mahalanobis distance', atol=1e-6 * (1 + np.abs(d).max()))
    mon.close(Y2, Y, 'unbounded:inverse pair (other way)', atol=1e-10 * sc * np.linalg.cond(C) ** 0.5)
    for W in (Y[0], Y.reshape(M, m, 1)):
        mon.raises(lambda: un.normalize(W), 'unbounded:not two-dimensional rejected')
    bad = C - 1.5 * np.linalg.eigvalsh(C).max() * np.eye(m)
    mon.raises(lambda: UnboundedNormalizer(mu, bad), 'unbounded:indefinite covariance rejected')
