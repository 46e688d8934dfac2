"""X01..X05: guarantees that hold across all modules: no side effects on the caller's data, discipline with the random
generator, rejection of invalid requests, plots, and the model problems of the tutorials."""
import importlib.util
import os
import sys

import numpy as np

from active_subspaces import domains as dm
from active_subspaces import gradients as gr
from active_subspaces import integrals as ig
from active_subspaces import optimizers as op
from active_subspaces import response_surfaces as rs
from active_subspaces import subspaces as ss
from active_subspaces.utils import designs as de
from active_subspaces.utils import misc as mi
from active_subspaces.utils import plotters as pl
from active_subspaces.utils import qp_solver as qp
from active_subspaces.utils import quadrature as gq
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation
from active_subspaces.utils import simrunners as sr

from . import core, gen, interpose
from . import p_subspaces, p_gradients, p_domains, p_optim, p_respsurf, p_quad, p_reuse, p_large, p_wide
from .core import family, about, Skip
from .gen import chance, layout

# ---------------------------------------------------------------------------------------------------------------- X01
about('X01', """every public function and method is interposed; the bytes of all arrays reachable from the arguments (and from
 objects whose methods only read) are compared before and after each call, driven by the workloads of all other
 properties with writable arrays, and by a whole analysis whose data are compared with private copies at the end.""")

HEAVY = set(['s03_all_base_points', 's06_enumerated', 'd04_interval_law', 'd04_polygon_law', 'd04_polytope_law',
             'q04_interval', 'q04_zonotope', 'd01_budget', 's06_extremes'])


def borrowed(letter):
    out = []
    for prop, fams in core.FAMILIES.items():
        if prop[0] == letter and prop != 'O02':
            out += [f for f in fams if f.name not in HEAVY and not f.name.endswith(('_large', '_wide'))]
    return out


def drive(mon, rng, letter, writable):
    """Run one case of another property under interposition; its own verdict is that property's business."""
    fams = borrowed(letter)
    f = fams[rng.randint(len(fams))]
    seed = int(rng.randint(2 ** 31))
    inner = core.Monitor()
    log = interpose.Log()
    log.odd = np.random.RandomState(seed ^ 5)
    if writable:
        log.echo = np.random.RandomState(seed)
    old = gen.READONLY
    gen.READONLY = not writable
    try:
        with interpose.watching(log):
            try:
                f.fn(inner, np.random.RandomState(seed))
            except core.Skip:
                pass
            except core.Violation:
                pass
    finally:
        gen.READONLY = old
    mon.input(nontrivial=sum(log.calls.values()) > 0, family=f.name, seed=seed)
    mon.event('calls observed', sum(log.calls.values()))
    mon.event('calls that raised', sum(log.raised.values()))
    for k in log.calls:
        mon.event('called ' + k, log.calls[k])
    mon.event('calls repeated with unusual numbers', log.odds)
    mon.event('calls with unusual numbers that raised', log.odds_raised)
    return f, log


def x01(mon, rng, letter):
    f, log = drive(mon, rng, letter, True)
    mon.event('arrays compared', log.arrays)
    mon.event('calls around which objects were compared', log.objects)
    mon.counts['arguments unchanged'] += log.arrays
    for name, arg, what in log.mutated[:5]:
        mon.fail('arguments unchanged', '%s changed its argument %s (%s), workload %s' % (name, arg, what, f.name))
    mon.event('calls repeated after overwriting their results', log.echoes)
    mon.counts['results belong to the caller'] += log.echoes
    for name in log.shared[:5]:
        mon.fail('results belong to the caller', '%s answers differently once its earlier result is overwritten, workload %s'
                 % (name, f.name))


@family('X01', 120, 3000)
def x01_subspaces(mon, rng):
    x01(mon, rng, 'S')


@family('X01', 80, 2000)
def x01_gradients(mon, rng):
    x01(mon, rng, 'G')


@family('X01', 80, 2000)
def x01_domains(mon, rng):
    x01(mon, rng, 'D')


@family('X01', 80, 2000)
def x01_optimizers(mon, rng):
    x01(mon, rng, 'O')


@family('X01', 80, 2000)
def x01_surfaces(mon, rng):
    x01(mon, rng, 'R')


@family('X01', 80, 2000)
def x01_quadrature(mon, rng):
    x01(mon, rng, 'Q')


def model(rng, m, n):
    A = gen.orth(rng, m)[:, :n]
    c = rng.normal(size=n)

    def f(x):
        y = np.dot(x.ravel(), A)
        return float(np.dot(c, y) + 0.5 * np.dot(y, y) * c[0])

    def df(x):
        y = np.dot(x.ravel(), A)
        return np.dot(A, c + y * c[0]).reshape((m, 1))
    return A, f, df


class Ledger(object):
    """Private copies of arrays that belong to the caller."""

    def __init__(self):
        self.items = []

    def keep(self, name, a):
        self.items.append((name, a, a.copy()))
        return a

    def check(self, mon, label):
        for name, a, c in self.items:
            mon.check(np.array_equal(a, c), label + ':unchanged', name=name, before=c, after=a)


@family('X01', 60, 1000)
def x01_analysis(mon, rng):
    """A whole analysis; neither the data given nor any result obtained earlier is changed by what comes later."""
    m = int(rng.randint(2, 5))
    n = int(rng.randint(1, min(m, 2) + 1))
    M = int(rng.randint(40, 80))
    A, f, df = model(rng, m, n)
    L = Ledger()
    bounded = chance(rng, 0.5)
    if bounded:
        lb, ub = L.keep('lb', -rng.rand(m, 1) - 0.5), L.keep('ub', rng.rand(m, 1) + 0.5)
        nm = mi.BoundedNormalizer(lb, ub)
        XX = L.keep('physical X', nm.unnormalize(rng.uniform(-1, 1, size=(M, m))))
    else:
        mu, C = L.keep('mu', rng.normal(size=(m, 1))), L.keep('C', gen.convex_quadratic(rng, m, 1))
        nm = mi.UnboundedNormalizer(mu, C)
        XX = L.keep('physical X', nm.unnormalize(rng.normal(size=(M, m))))
    mon.input(X=XX, bounded=bounded, n=n)
    with mon.guard('analysis'):
        X = L.keep('X', nm.normalize(XX))
        F = L.keep('f', sr.SimulationRunner(f).run(X))
        G = L.keep('df', sr.SimulationGradientRunner(lambda x: df(x)).run(X))
        w = L.keep('w', np.ones((M, 1)) / M)
        L.keep('finite differences', gr.finite_difference_gradients(X, f))
        L.keep('local linear', gr.local_linear_gradients(X, F, weights=w)) if m > 1 else None
        s = ss.Subspaces()
        kind = ['AS', 'OLS', 'QPHD', 'OPG'][rng.randint(4)]
        if kind == 'AS':
            s.compute(df=G, nboot=int(rng.choice([0, 5])))
        else:
            s.compute(X=X, f=F, weights=w, sstype=kind, nboot=int(rng.choice([0, 5])) if kind != 'OPG' else 0)
        s.eigenvals = s.eigenvals + 1e-3
        s.partition(n)
        for k in ('eigenvals', 'eigenvecs', 'e_br', 'sub_br', 'W1', 'W2'):
            if getattr(s, k) is not None:
                L.keep(k, getattr(s, k))
        if bounded:
            if not gen.general_position(s.W1, 5e-3):
                raise Skip('general position')
            d = dm.BoundedActiveVariableDomain(s)
            mp = dm.BoundedActiveVariableMap(d)
            L.keep('vertY', d.vertY)
            L.keep('vertX', d.vertX)
        else:
            d = dm.UnboundedActiveVariableDomain(s)
            mp = dm.UnboundedActiveVariableMap(d)
        Y, Z = mp.forward(X)
        L.keep('Y', Y)
        L.keep('Z', Z)
        Xi, ind = mp.inverse(Y[:4] * 0.5, 3)
        L.keep('inverse', Xi)
        L.keep('index', ind)
        R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2) if chance(rng, 0.6) else None)
        R.train_with_data(X, F)
        P, dP = R.predict(X[:7], compgrad=True)
        L.keep('prediction', P)
        L.keep('gradient', dP)
        with p_respsurf.design_may_fail():
            if chance(rng, 0.5):
                R.train_with_interface(f, 12, NMC=3)
            Xp, Xw, ind2 = ig.quadrature_rule(mp, 5, NMC=2)
            L.keep('nodes', Xp)
            L.keep('weights', Xw)
            L.keep('index of the rule', ind2)
            ig.integrate(f, mp, 5, NMC=2)
            ig.av_integrate(R, mp, 5)
            if bounded and isinstance(R.respsurf, PolynomialApproximation):
                try:
                    xs, fs = op.minimize(R, X, F)
                    L.keep('minimizer', xs)
                except Exception as e:
                    if 'failed' not in str(e):
                        raise
        R.predict(X)
        s.partition(1)
    L.check(mon, 'analysis')
    mon.event('arrays followed to the end', len(L.items))


# ---------------------------------------------------------------------------------------------------------------- X02
about('X02', """the state of numpy's global generator is compared around every interposed call, also of failing ones; random
 operations are repeated from the same seed, and from different seeds where the result must not depend on it.""")


def x02(mon, rng, letter):
    f, log = drive(mon, rng, letter, False)
    n = sum(v for k, v in log.calls.items() if k in interpose.DETERMINISTIC or k in interpose.CALLBACK)
    mon.counts['generator untouched'] += n
    for k, v in log.rng_used.items():
        mon.event('used the generator: ' + k, v)
    for name in log.rng_bad[:5]:
        mon.fail('generator untouched', '%s changed the state of the random generator, workload %s' % (name, f.name))


@family('X02', 100, 2500)
def x02_subspaces(mon, rng):
    x02(mon, rng, 'S')


@family('X02', 60, 1500)
def x02_domains(mon, rng):
    x02(mon, rng, 'D')


@family('X02', 60, 1500)
def x02_optimizers(mon, rng):
    x02(mon, rng, 'O')


@family('X02', 60, 1500)
def x02_surfaces(mon, rng):
    x02(mon, rng, 'RGQ'[rng.randint(3)])


def flat(r):
    if isinstance(r, (tuple, list)):
        return [x for v in r for x in flat(v)]
    return [None if r is None else np.array(r)]


def same_results(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all((x is None and y is None) or (x is not None and y is not None and x.shape == y.shape
                                    and np.array_equal(x, y, equal_nan=x.dtype.kind == 'f')) for x, y in zip(a, b))


def random_operations(rng):
    """(name, fresh call) of the operations documented as random."""
    m = int(rng.randint(3, 6))
    M = int(rng.randint(30, 50))
    X = rng.uniform(-1, 1, size=(M, m))
    A, f, df = model(rng, m, 2)
    F = np.array([f(x) for x in X]).reshape((M, 1)) + 0.1 * rng.normal(size=(M, 1))
    G = np.array([df(x).ravel() for x in X]) + 0.1 * rng.normal(size=(M, m))
    s, d = gen.bounded_pair(rng, m, 2)
    s1, d1 = gen.bounded_pair(rng, m, 1)
    bm, bm1 = dm.BoundedActiveVariableMap(d), dm.BoundedActiveVariableMap(d1)
    um = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    Y = gen.in_hypercube_y(rng, s.W1, 3) * 0.7
    y = Y[0] * 0.5

    def compute(**kw):
        t = ss.Subspaces()
        t.compute(**kw)
        return t.eigenvals, t.eigenvecs, t.W1, t.W2, t.e_br, t.sub_br
    st = ['AS', 'OLS', 'QPHD'][rng.randint(3)]
    data = dict(df=G) if st == 'AS' else dict(X=X, f=F)
    if chance(rng, 0.3):                              # many samples
        k = int(rng.randint(20, 120))
        data = {q: np.repeat(v, k, axis=0) + 0.01 * rng.normal(size=(k * len(v), v.shape[1])) for q, v in data.items()}
    N = 6 if chance(rng, 0.7) else int(rng.randint(100, 2500))
    s6 = gen.orth(rng, 6)[:, :3]
    return [
        ('bootstrap', lambda: compute(sstype=st, nboot=4, ptype=['EVG', 'RS', 'LI'][0], **data)),
        ('bootstrap partition', lambda: compute(sstype=st, nboot=4, ptype='LI', **data)),
        ('OPG', lambda: compute(sstype='OPG', X=X, f=F)),
        ('local linear gradients', lambda: gr.local_linear_gradients(X, F)),
        ('zonotope_vertices', lambda: dm.zonotope_vertices(s.W1, Nsamples=50)),
        ('zonotope_vertices within a budget', lambda: dm.zonotope_vertices(s6, Nsamples=2, maxcount=3)),
        ('BoundedActiveVariableDomain', lambda: (lambda t: (t.vertY, t.vertX))(dm.BoundedActiveVariableDomain(s))),
        ('bounded inverse', lambda: bm.inverse(Y, N)),
        ('unbounded inverse', lambda: um.inverse(Y, N)),
        ('sample_z', lambda: dm.sample_z(N, y, s.W1, s.W2)),
        ('hit_and_run_z', lambda: dm.hit_and_run_z(N, y, s.W1, s.W2)),
        ('rejection_sampling_z', lambda: dm.rejection_sampling_z(N, y, s.W1, s.W2)),
        ('random_walk_z', lambda: dm.random_walk_z(N, y, s.W1, s.W2)),
        ('interval rule', lambda: ig.av_quadrature_rule(bm1, 7)),
        ('quadrature_rule', lambda: ig.quadrature_rule([um, bm1][int(y[0] > 0)], 7, NMC=3)),
        ('integrate', lambda: ig.integrate(f, [um, bm1][int(y[0] > 0)], 5, NMC=3)),
        ('av_design', lambda: rs.av_design([um, bm1][int(y[0] > 0)], 5, NMC=3)),
    ]


# those whose results differ with probability one from one stream to the next
CONTINUOUS = set(['bounded inverse', 'unbounded inverse', 'sample_z', 'hit_and_run_z', 'rejection_sampling_z', 'OPG',
                  'local linear gradients', 'integrate', 'quadrature_rule', 'av_design'])


@family('X02', 100, 2000)
def x02_reproducible(mon, rng):
    """The same seed gives the same results, whatever happened before; a different seed gives different draws."""
    for name, call in random_operations(rng):
        if chance(rng, 0.5):
            continue
        seed = int(rng.randint(2 ** 31))
        mon.input(name=name, seed=seed)
        with mon.guard(name):
            np.random.seed(seed)
            a = call()
            sta = np.random.get_state()
            np.random.rand(int(rng.randint(0, 9)))
            np.random.seed(seed)
            b = call()
            stb = np.random.get_state()
        mon.check(same_results(a, b), 'reproducible:' + name, name=name)
        mon.check(np.array_equal(sta[1], stb[1]) and sta[2:] == stb[2:], 'reproducible:generator afterwards')
        # from another seed: other draws, and the caller's stream goes on from there instead of from a fixed state
        with mon.guard(name):
            np.random.seed((seed + 1 + int(rng.randint(1000))) % 2 ** 32)
            c = call()
            stc = np.random.get_state()
        mon.check(not np.array_equal(sta[1], stc[1]), 'other seed:generator not reset', name=name)
        if name in CONTINUOUS:
            mon.check(not same_results(a, c), 'other seed:other draws', name=name)


@family('X02', 60, 1200)
def x02_seedless(mon, rng):
    """Operations that seed internally give the same result for every state of the generator and leave it alone."""
    m = int(rng.randint(2, 5))
    n = int(rng.randint(1, min(m, 2) + 1))
    bounded = chance(rng, 0.5)
    s, mp = (p_quad.bmap if bounded else p_quad.umap)(rng, m, n)
    d = mp.domain
    H = gen.convex_quadratic(rng, n, 1)
    c = rng.normal(size=n) * 0.3
    f = lambda y: float(0.5 * np.dot(y.ravel() - c, np.dot(H, y.ravel() - c)))
    g = lambda y: np.dot(H, y.ravel() - c)
    ops = [('av_minimize', lambda: op.av_minimize(f, d, g))]
    if bounded and n > 1:
        K = 4 if chance(rng, 0.7) else int(rng.randint(1, 41))
        ops.append(('maximin_design', lambda: de.maximin_design(d.vertY, K)))
    P = rng.uniform(-1, 1, size=(30, m))
    F = np.array([f(np.dot(x, s.W1)) for x in P]).reshape((-1, 1))
    R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2))
    R.train_with_data(P, F)
    ops.append(('minimize', lambda: op.minimize(R, P, F)))
    ops.append(('radial basis training', lambda: (lambda t: (t.train(P, F, e=np.ones((m, 1))), t.predict(P[:5]))[1])(
        RadialBasisApproximation(1))))
    for name, call in ops:
        mon.input(name=name, W=s.eigenvecs, n=n, bounded=bounded)
        res = []
        for k in range(2):
            np.random.seed(int(rng.randint(2 ** 31)))
            st = np.random.get_state()
            try:
                with mon.guard(name), p_respsurf.design_may_fail():
                    res.append(call())
            except Skip:
                res.append(None)
            st2 = np.random.get_state()
            mon.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], 'seedless:generator untouched by ' + name)
        mon.check(same_results(res[0], res[1]), 'seedless:%s does not depend on the generator' % name)


class Boom(Exception):
    pass


@family('X02', 60, 1200)
def x02_failures(mon, rng):
    """A search that fails in the user's function, or in the optimizer, gives the generator back as it was."""
    m = int(rng.randint(2, 5))
    n = int(rng.randint(1, min(m, 2) + 1))
    bounded = chance(rng, 0.5)
    s, mp = (p_quad.bmap if bounded else p_quad.umap)(rng, m, n)
    k = int(rng.choice([1, 2, 5, 20]))
    calls = [0]
    kind = rng.randint(3)

    def f(y):
        calls[0] += 1
        if kind == 0 and calls[0] >= k:
            raise Boom()
        if kind == 1 and calls[0] >= k:
            return np.nan
        return float(np.dot(y.ravel(), y.ravel()))

    def g(y):
        if kind == 2:
            raise Boom()
        return 2 * y.ravel()
    mon.input(W=s.eigenvecs, n=n, bounded=bounded, k=k, kind=kind)
    st = np.random.get_state()
    raised = False
    try:
        op.av_minimize(f, mp.domain, None if kind < 2 and chance(rng, 0.3) else g)
    except Boom:
        raised = True
    except Exception:
        raised = True
    mon.event('raised' if raised else 'returned')
    st2 = np.random.get_state()
    mon.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], 'failures:generator as before', raised=raised, kind=kind)
    if bounded and n > 1:
        st = np.random.get_state()
        V = mp.domain.vertY
        for bad in (V * np.nan, V[:, :0], V[:1], V):
            try:
                de.maximin_design(bad, 3)
            except Exception:
                pass
            st2 = np.random.get_state()
            mon.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], 'failures:generator as before a failed design')


# ---------------------------------------------------------------------------------------------------------------- X03
about('X03', """a table of malformed requests to every module: each must raise (the documented type where one is documented),
 leaving the receiving object, the arguments and the random generator as they were and still usable.""")


def state_of(o):
    out = []
    interpose.arrays(o, 'self', out, 4, set())
    return {p: (id(a), interpose.digest(a)) for p, a in out}


def bad_matrix(rng, X):
    return [X.ravel(), X[0], X.reshape((1,) + X.shape), np.array(3.0)][rng.randint(4)]


@family('X03', 150, 3000)
def x03_subspaces(mon, rng):
    m, M = int(rng.randint(2, 6)), int(rng.randint(25, 50))
    X, f, df = rng.uniform(-1, 1, size=(M, m)), rng.normal(size=(M, 1)), rng.normal(size=(M, m))
    w = np.ones((M, 1)) / M
    s = ss.Subspaces()
    computed = chance(rng, 0.7)
    if computed:
        with mon.guard('compute'):
            s.compute(df=df, nboot=int(rng.choice([0, 3])))
    mon.input(X=X, f=f, computed=computed)
    bad = [
        ('no data', dict(), Exception),
        ('only X', dict(X=X), Exception),
        ('only f', dict(f=f), Exception),
        ('gradients missing', dict(X=X, f=f, sstype='AS'), Exception),
        ('pairs missing', dict(df=df, sstype=['OLS', 'QPHD', 'OPG'][rng.randint(3)]), Exception),
        ('unknown subspace', dict(X=X, f=f, df=df, sstype=['as', 'PCA', '', None, 3][rng.randint(5)]), Exception),
        ('unknown partition', dict(df=df, ptype=['evg', 'XX', '', None, 1][rng.randint(5)]), Exception),
        ('partition without bootstrap', dict(df=df, ptype=['RS', 'LI'][rng.randint(2)]), Exception),
        ('different numbers of samples', dict(X=X, f=f[:-1], sstype='OLS'), Exception),
        ('vector-valued outputs', dict(X=X, f=np.hstack((f, f)), sstype='OLS'), Exception),
        ('outputs in one dimension', dict(X=X, f=f.ravel(), sstype='OLS'), ValueError),
        ('inputs of wrong dimension', dict(X=bad_matrix(rng, X), f=f, sstype='OLS'), ValueError),
        ('gradients of wrong dimension', dict(df=bad_matrix(rng, df)), ValueError),
    ]
    for name, kw, exc in bad:
        before, st = state_of(s), np.random.get_state()
        mon.raises(lambda: s.compute(**kw), 'subspaces:' + name, exc)
        mon.check(state_of(s) == before, 'subspaces:state unchanged after a refused request', name=name)
        mon.check(s.eigenvals is not None or not computed, 'subspaces:still computed')
    if computed:
        for n, exc in ((0, ValueError), (-1, ValueError), (m + 1, ValueError), (1.0, TypeError), ('1', TypeError), (None, TypeError)):
            before = state_of(s)
            mon.raises(lambda: s.partition(n), 'subspaces:partition', exc, n=n)
            mon.check(state_of(s) == before, 'subspaces:state unchanged after a refused partition', n=n)
        with mon.guard('partition'):
            s.partition(m)
        mon.check(s.W1.shape == (m, m) and s.W2.shape == (m, 0), 'subspaces:still usable')
    else:
        for o in (dm.BoundedActiveVariableDomain, dm.UnboundedActiveVariableDomain):
            mon.raises(lambda: o(s), 'subspaces:not computed', ValueError)


@family('X03', 100, 2000)
def x03_inputs(mon, rng):
    m, M = int(rng.randint(2, 6)), int(rng.randint(12, 40))
    X, f = rng.uniform(-1, 1, size=(M, m)), rng.normal(size=(M, 1))
    mon.input(X=X, f=f)
    B = bad_matrix(rng, X)
    s, mp = p_quad.umap(rng, m, int(rng.randint(1, m + 1)))
    nb, nu = mi.BoundedNormalizer(-np.ones((m, 1)), np.ones((m, 1))), mi.UnboundedNormalizer(np.zeros((m, 1)), np.eye(m))
    run, grun = sr.SimulationRunner(lambda x: 1.0), sr.SimulationGradientRunner(lambda x: np.ones((m, 1)))
    two = [np.ones(2), np.ones((1, 2)), np.ones((2, 1)), np.ones((1, 3))][rng.randint(4)]
    late = X[rng.randint(M)].copy()
    long = [np.ones((m + 1, 1)), np.ones((1, 2 * m)), np.ones((m, m))][rng.randint(3)]
    run2, grun2 = sr.SimulationRunner(lambda x: two), sr.SimulationGradientRunner(lambda x: long)
    run3 = sr.SimulationRunner(lambda x: two if np.array_equal(x[0], late) else 1.0)
    grun3 = sr.SimulationGradientRunner(lambda x: np.ones((m - 1, 1)))
    P = PolynomialApproximation(1)
    P.train(X, f)
    R = RadialBasisApproximation(1)
    R.train(X, f)
    AR = rs.ActiveSubspaceResponseSurface(mp, P)
    objs = [nb, nu, mp, P, R, AR]
    before = [state_of(o) for o in objs]
    st = np.random.get_state()
    for name, fn in [
        ('BoundedNormalizer.normalize', lambda: nb.normalize(B)), ('BoundedNormalizer.unnormalize', lambda: nb.unnormalize(B)),
        ('UnboundedNormalizer.normalize', lambda: nu.normalize(B)), ('UnboundedNormalizer.unnormalize', lambda: nu.unnormalize(B)),
        ('SimulationRunner.run', lambda: run.run(B)), ('SimulationGradientRunner.run', lambda: grun.run(B)),
        ('PolynomialApproximation.train', lambda: P.train(B, f)), ('PolynomialApproximation.predict', lambda: P.predict(B)),
        ('PolynomialApproximation.gradient', lambda: P.gradient(B)),
        ('RadialBasisApproximation.train', lambda: R.train(B, f)), ('RadialBasisApproximation.predict', lambda: R.predict(B)),
        ('forward', lambda: mp.forward(B)), ('inverse', lambda: mp.inverse(B)),
        ('process_inputs', lambda: mi.process_inputs(B)), ('process_inputs_outputs', lambda: mi.process_inputs_outputs(B, f)),
        ('process_inputs_outputs f', lambda: mi.process_inputs_outputs(X, f.ravel())),
        ('finite_difference_gradients', lambda: gr.finite_difference_gradients(B, lambda x: 1.0)),
        ('local_linear_gradients', lambda: gr.local_linear_gradients(B, f)),
        ('minimize', lambda: op.minimize(AR, B, f)),
    ]:
        mon.raises(fn, 'inputs:' + name, ValueError, shape=B.shape)
    for name, fn in [
        ('poly outputs', lambda: P.train(X, f[:-1])), ('poly two outputs', lambda: P.train(X, np.hstack((f, f)))),
        ('poly order', lambda: PolynomialApproximation(M).train(X, f)), ('rbf order', lambda: RadialBasisApproximation(M).train(X, f)),
        ('rbf outputs', lambda: R.train(X, f[:-1])), ('rbf two outputs', lambda: R.train(X, np.hstack((f, f)))),
        ('surface outputs', lambda: AR.train_with_data(X, f[:-1])),
        ('minimize outputs', lambda: op.minimize(AR, X, f[:-1])),
        ('pairs', lambda: mi.process_inputs_outputs(X[:-1], f)),
        ('pairs two outputs', lambda: mi.process_inputs_outputs(X, np.hstack((f, f)))),
        ('pairs many outputs', lambda: mi.process_inputs_outputs(X, np.tile(f, int(rng.randint(3, 6))))),
        ('surface two outputs', lambda: AR.train_with_data(X, np.hstack((f, f)))),
        ('minimize two outputs', lambda: op.minimize(AR, X, np.hstack((f, f)))),
        ('OLS two outputs', lambda: ss.ols_subspace(X, np.hstack((f, f)), np.ones((M, 1)) / M)),
        ('OLS outputs', lambda: ss.ols_subspace(X, f[:-1], np.ones((M, 1)) / M)),
        ('QPHD two outputs', lambda: ss.qphd_subspace(X, np.hstack((f, f)), np.ones((M, 1)) / M)),
        ('OPG two outputs', lambda: ss.opg_subspace(X, np.hstack((f, f)), np.ones((M, 1)) / M)),
        ('two outputs of a run', lambda: run2.run(X)), ('two outputs of some run', lambda: run3.run(X)),
        ('a gradient too long', lambda: grun2.run(X)), ('a gradient too short', lambda: grun3.run(X)),
        ('differences of two outputs', lambda: gr.finite_difference_gradients(X, lambda x: np.ones((1, 2)))),
        ('forward columns', lambda: mp.forward(X[:, :-1])),
        ('orientation', lambda: mi.atleast_2d(np.ones(3), 'diag')),
        ('local linear few samples', lambda: gr.local_linear_gradients(X[:m], f[:m])),
        ('local linear few neighbours', lambda: gr.local_linear_gradients(X, f, p=m)),
        ('local linear many neighbours', lambda: gr.local_linear_gradients(X, f, p=M + 1)),
    ]:
        mon.raises(fn, 'inputs:' + name)
    for name, fn in [
        ('local linear p', lambda: gr.local_linear_gradients(X, f, p=float(m + 1))),
        ('SimulationRunner', lambda: sr.SimulationRunner([3.0, None, 'f', X][rng.randint(4)])),
        ('SimulationGradientRunner', lambda: sr.SimulationGradientRunner([3.0, None, 'f', X][rng.randint(4)])),
        ('response surface map', lambda: rs.ActiveSubspaceResponseSurface([None, mp.domain, s, 3][rng.randint(4)])),
        ('design map', lambda: rs.av_design([None, mp.domain, s, 3][rng.randint(4)], 4)),
        ('bounded domain', lambda: dm.BoundedActiveVariableDomain([None, mp, s.W1, 3][rng.randint(4)])),
        ('unbounded domain', lambda: dm.UnboundedActiveVariableDomain([None, mp, s.W1, 3][rng.randint(4)])),
        ('inverse N', lambda: mp.inverse(rng.normal(size=(2, mp.domain.n)), [2.0, '2', None][rng.randint(3)])),
        ('sample_z N', lambda: dm.sample_z(2.0, np.zeros(mp.domain.n), s.W1, s.W2)),
        ('vertices m', lambda: dm.nzv(2.0, 1)),
    ]:
        mon.raises(fn, 'types:' + name, TypeError)
    for o, b in zip(objs, before):
        mon.check(state_of(o) == b, 'inputs:state unchanged after refused requests', what=type(o).__name__)
    st2 = np.random.get_state()
    mon.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], 'inputs:generator untouched by refused requests')
    with mon.guard('predict'):
        a = P.predict(X)[0]
    mon.check(np.all(np.isfinite(a)), 'inputs:still usable')


@family('X03', 60, 1000)
def x03_objects(mon, rng):
    m = int(rng.randint(2, 5))
    n = int(rng.randint(1, min(m, 2) + 1))
    s, mp = (p_quad.bmap if chance(rng, 0.5) else p_quad.umap)(rng, m, n)
    bounded = isinstance(mp, dm.BoundedActiveVariableMap)
    mon.input(W=s.eigenvecs, n=n, bounded=bounded)
    X = rng.uniform(-1, 1, size=(40, m))
    f = np.sin(X.sum(1)).reshape((-1, 1))
    R = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(2))
    R.train_with_data(X, f)
    before = state_of(R)
    for bad in (2.5, '3', None):
        mon.raises(lambda: R.train_with_interface(lambda x: 1.0, bad), 'objects:N not an integer')
        mon.raises(lambda: R.train_with_interface(lambda x: 1.0, 4, NMC=bad), 'objects:NMC not an integer')
        mon.raises(lambda: rs.av_design(mp, bad), 'objects:N not an integer')
        mon.raises(lambda: rs.av_design(mp, 4, NMC=bad), 'objects:NMC not an integer')
    mon.check(state_of(R) == before, 'objects:trained surface unchanged')

    def boom(x):
        raise Boom()
    # the user's own exception comes through, and the surface trained before stays
    with p_respsurf.design_may_fail():
        rs.av_design(mp, 6)                                       # the same search as below
    mon.raises(lambda: R.train_with_interface(boom, 6), 'objects:exception of the interface', Boom)
    mon.check(state_of(R) == before, 'objects:trained surface unchanged by a failed interface')
    mon.raises(lambda: ig.integrate(boom, mp, 4), 'objects:exception of the integrand', Boom) if n == 1 or not bounded else None
    mon.raises(lambda: op.av_minimize(boom, mp.domain), 'objects:exception of the objective', Boom)
    for bad in (None, mp, s, 3):
        mon.raises(lambda: op.av_minimize(lambda y: 1.0, bad), 'objects:not a domain')
    if bounded and n < m:
        y = np.dot(np.ones(m), s.W1)
        y = y / np.abs(y).max() * np.abs(s.W1).sum() * 1.5
        Y = np.vstack((np.zeros((1, n)), y.reshape((1, n))))
        b2 = state_of(mp)
        mon.raises(lambda: mp.inverse(Y, 2), 'objects:active point outside the domain')
        mon.check(state_of(mp) == b2, 'objects:map unchanged')
    cls = op.BoundedMinVariableMap if bounded else op.UnboundedMinVariableMap
    mv = cls(mp.domain)
    mv.train(X, f)
    b3 = state_of(mv)
    mon.raises(lambda: mv.inverse(np.zeros((1, n)), 2), 'objects:several minimizers requested')
    mon.raises(lambda: mv.train(X, f[:-1]), 'objects:minimizing map outputs')
    mon.raises(lambda: mv.train(X[:3], f[:3]), 'objects:minimizing map with too few samples')
    mon.check(state_of(mv) == b3, 'objects:minimizing map unchanged')
    q = qp.QPSolver('SCIPY')
    with open(os.devnull, 'w'):
        mon.raises(lambda: q.linear_program_ineq(np.ones((n, 1)), np.vstack((np.eye(n), -np.eye(n))),
                                                 np.vstack((np.ones((n, 1)), 0 * np.ones((n, 1)) + 0.5))), 'objects:infeasible program')


# ---------------------------------------------------------------------------------------------------------------- X04
about('X04', """the artists of the figures are read back and compared with the data given; the files in the working directory are
 listed before and after; the numpy data are digested around the call.""")


def plotting():
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def line_of(ax, x, y):
    """Some line of the axes has these data."""
    for l in ax.get_lines():
        a, b = np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()
        if a.shape == np.shape(x) and near(a, x) and near(b, y):
            return True
    return False


def near(a, b):
    """Equal to nine digits, number by number: plots hand on what they are given."""
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=0)


def band_of(ax, x, lo, hi):
    """Some filled region of the axes has exactly these corners."""
    for c in ax.collections:
        for p in c.get_paths():
            v = p.vertices
            want = np.vstack((np.column_stack((x, lo)), np.column_stack((x, hi))))
            if all((np.abs(v - t) - 1e-9 * np.abs(t)).max(1).min() <= 0 for t in want):
                if all((np.abs(want - t) - 1e-9 * np.abs(t)).max(1).min() <= 0 for t in v):
                    return True
    return False


def scatter_of(ax, P, f):
    for c in ax.collections:
        o = np.asarray(c.get_offsets())
        if near(o, P):
            a = c.get_array()
            if a is not None and near(np.asarray(a).ravel(), np.ravel(f)):
                lo, hi = c.get_clim()                     # different outputs have different colours
                return lo <= np.min(f) and hi >= np.max(f) and (np.ptp(f) == 0 or (hi - lo) <= 10 * max(np.ptp(f), 1e-12 * np.abs(f).max()))
    return False


def in_view(ax, x, y):
    """Every point lies within the limits of the axes."""
    a, b, c, d = list(ax.get_xlim()) + list(ax.get_ylim())
    x, y = np.ravel(x), np.ravel(y)
    return min(a, b) <= x.min() and x.max() <= max(a, b) and min(c, d) <= y.min() and y.max() <= max(c, d)


def picture(fig):
    fig.canvas.draw()
    return np.array(fig.canvas.buffer_rgba())


def seen(fig, artists):
    """Number of pixels that change when the artists are hidden: 0 when other artists cover them."""
    was = [a.get_visible() for a in artists]
    full = picture(fig)
    for a in artists:
        a.set_visible(False)
    without = picture(fig)
    for a, w in zip(artists, was):
        a.set_visible(w)
    return int((full != without).any(axis=2).sum()) if full.shape == without.shape else -1


def points_of(ax, P):
    return [c for c in ax.collections if near(np.asarray(c.get_offsets()), P)]


@family('X04', 60, 900)
def x04_plots(mon, rng):
    plt = plotting()
    label = [None, 'output', 'Lift_%d' % rng.randint(100), 'a b'][rng.randint(4)]
    typ = ['.png', '.pdf', '.eps', '.svg'][rng.randint(4)]
    save = chance(rng, 0.25)
    kind = ['evals', 'evecs', 'errors', 'ssp', 'zonotope'][rng.randint(5)]
    if os.path.isdir('figs'):
        for q in os.listdir('figs'):
            os.remove(os.path.join('figs', q))
        os.rmdir('figs')
    if chance(rng, 0.3):
        os.mkdir('figs')
    had = os.path.isdir('figs')
    with mon.guard('plot_opts'):
        opts = pl.plot_opts(savefigs=save, figtype=typ) if typ != '.eps' or chance(rng, 0.5) else pl.plot_opts(savefigs=save)
    mon.check(opts['savefigs'] == save and opts['figtype'] == typ, 'opts:as requested', opts=str(opts))
    mon.check(os.path.isdir('figs') == (save or had), 'opts:directory only for saving')
    opts['myfont']['family'] = 'sans-serif'
    out = 'Output' if label is None else label
    L = Ledger()
    k = int(rng.randint(1, 9)) if chance(rng, 0.75) else int(rng.randint(9, 70))
    idx = np.arange(1, k + 1)
    low = -6 if chance(rng, 0.6) else -30
    mine = []
    for i in range(0 if chance(rng, 0.6) else rng.randint(1, 7)):       # figures the caller has made before
        g = plt.figure()
        l, = g.add_subplot(111).plot(rng.normal(size=3))
        mine.append((g, l, l.get_xydata().copy(), g.axes[0].axis()))
    numbers = plt.get_fignums()
    files = []
    mon.input(kind=kind, k=k, label=label, save=save, typ=typ)
    mon.event('plot ' + kind)
    br = chance(rng, 0.6)
    with mon.guard('plot ' + kind):
        if kind == 'evals':
            e = np.sort(10.0 ** rng.uniform(low, 3, size=(k, 1)), axis=0)[::-1].copy()
            if k > 1 and chance(rng, 0.2):
                e[int(rng.randint(1, k)):] = 0.0          # eigenvalues of a matrix of low rank
            L.keep('e', e)
            B = L.keep('br', np.hstack((e * 0.5, e * 1.7)))
            pl.eigenvalues(e, e_br=B if br else None, out_label=label, opts=opts)
            files = ['evals_']
        elif kind == 'errors':
            B = L.keep('sub_br', np.sort(10.0 ** rng.uniform(low / 2.0, -0.05, size=(k, 3)), axis=1))
            pl.subspace_errors(B, out_label=label, opts=opts)
            files = ['subspace_']
        elif kind == 'evecs':
            nc = int(rng.randint(1, 7))
            m = max(nc, int(rng.randint(2, 9)) if chance(rng, 0.75) else int(rng.randint(9, 80)))
            W = L.keep('W', gen.orth(rng, m)[:, :nc].copy())
            B = np.zeros((m, 2 * nc))
            B[:, ::2], B[:, 1::2] = W - 0.1, W + 0.15
            L.keep('W_br', B)
            inl = ['x%d' % i for i in rng.permutation(m)] if chance(rng, 0.5) else None
            pl.eigenvectors(W, W_br=B if br else None, in_labels=inl, out_label=label, opts=opts)
            files = ['evecs_']
        elif kind == 'ssp':
            M = int(rng.randint(2, 40)) if chance(rng, 0.85) else int(rng.randint(40, 3000))
            d = int(rng.randint(1, 3))
            at = [0.0, 0.0, 5.0, -7.0, 1e3][rng.randint(5)]
            y, f = L.keep('y', at + rng.normal(size=(M, d))), L.keep('f', [0.0, 0.0, 50.0][rng.randint(3)] + rng.normal(size=(M, 1)))
            pl.sufficient_summary(y, f, out_label=label, opts=opts)
            files = ['ssp1_', 'ssp2_'][:d]
        else:
            m, N = int(rng.randint(3, 7)), int(rng.randint(1, 9)) if chance(rng, 0.6) else int(rng.randint(9, 400))
            s, dmn = gen.bounded_pair(rng, m, 2)
            V = L.keep('vertices', dmn.vertY)
            D = L.keep('design', gen.in_hypercube_y(rng, s.W1, int(rng.randint(1, 9))) * 0.9) if chance(rng, 0.5) else None
            y = L.keep('y', rng.normal(size=(N, 2)) * 0.3) if chance(rng, 0.5) else None
            f = None if y is None else L.keep('f', rng.normal(size=(N, 1)))
            pl.zonotope_2d_plot(V, design=D, y=y, f=f, out_label=label, opts=opts)
            files = ['zonotope_2d_']
    L.check(mon, 'plot ' + kind)
    mon.check(set(numbers) <= set(plt.get_fignums()), 'figures:those made before are still open', before=len(mine))
    figs = [plt.figure(i) for i in plt.get_fignums() if i not in numbers]
    axes = [a for g in figs for a in g.axes]
    if kind == 'evals':
        mon.check(len(figs) == 1 and any(line_of(a, idx, e.ravel()) for a in axes), 'evals:line of the eigenvalues')
        mon.check(axes[0].get_yscale() == 'log', 'evals:logarithmic')
        if br:
            mon.check(any(band_of(a, idx, B[:, 0], B[:, 1]) for a in axes), 'evals:band of the bootstrap ranges', B=B)
        lo, hi = axes[0].get_ylim()
        mon.check(lo <= e[e > 0].min() and hi >= e.max() and axes[0].get_xlim()[0] < 1 and axes[0].get_xlim()[1] > k, 'evals:all in view')
        mon.check(seen(figs[0], axes[0].get_lines()) > 0, 'evals:line not covered')
        mon.check(axes[0].get_title() == out, 'evals:title', title=axes[0].get_title())
    elif kind == 'errors':
        mon.check(any(line_of(a, idx, B[:, 1]) for a in axes), 'errors:line of the mean errors')
        mon.check(any(band_of(a, idx, B[:, 0], B[:, 2]) for a in axes), 'errors:band between the bounds')
        mon.check(in_view(axes[0], [1, k], [B[:, 0].min(), B[:, 1].max()]), 'errors:all in view')
        mon.check(seen(figs[0], axes[0].get_lines()) > 0, 'errors:line not covered')
        mon.check(axes[0].get_title() == out, 'errors:title')
    elif kind == 'evecs':
        im = np.arange(1, m + 1)
        shown = min(nc, 4)
        hit = [[i for i, a in enumerate(axes) if line_of(a, im, W[:, j])] for j in range(shown)]
        mon.check(all(len(h) == 1 for h in hit) and len(set(h[0] for h in hit if h)) == shown, 'evecs:one panel per eigenvector',
                  hit=hit, shown=shown)
        for j in range(shown):
            if not hit[j]:
                continue
            a = axes[hit[j][0]]
            if br:
                mon.check(band_of(a, im, B[:, 2 * j], B[:, 2 * j + 1]), 'evecs:band of the same eigenvector', j=j)
            t = a.get_title() + a.get_ylabel()
            mon.check(out in t and ('1' in t if nc == 1 else 'evec %d' % (j + 1) in t), 'evecs:titles', t=t, j=j)
            mon.check(tuple(a.get_ylim()) == (-1, 1), 'evecs:components between -1 and 1 in view')
        if inl is not None:
            mon.check(any([t.get_text() for t in a.get_xticklabels()] == inl for a in axes), 'evecs:input labels')
    elif kind == 'ssp':
        mon.check(len(figs) == d, 'ssp:number of figures', n=len(figs), d=d)
        mon.check(any(line_of(a, y[:, 0], f.ravel()) for a in figs[0].axes), 'ssp:first active variable against the outputs')
        mon.check(figs[0].axes[0].get_ylabel() == out, 'ssp:label')
        mon.check(any(line_of(a, y[:, 0], f.ravel()) and in_view(a, y[:, 0], f) for a in figs[0].axes), 'ssp:all in view')
        ar = [l for a in figs[0].axes for l in a.get_lines() if len(np.ravel(l.get_xdata())) == M]
        mon.check(seen(figs[0], ar) > 0, 'ssp:points not covered')
        if d == 2:
            mon.check(any(scatter_of(a, y, f) for a in figs[1].axes), 'ssp:both active variables, coloured by the outputs')
            on = [a for a in figs[1].axes if scatter_of(a, y, f)]
            mon.check(any(in_view(a, y[:, 0], y[:, 1]) for a in on), 'ssp:all in view in two dimensions', y=y,
                      limits=[list(a.get_xlim()) + list(a.get_ylim()) for a in on])
            mon.check(seen(figs[1], [c for a in on for c in points_of(a, y)]) > 0, 'ssp:points not covered in two dimensions')
            mon.check(any(a.get_xlabel() == 'Active variable 1' and a.get_ylabel() == 'Active variable 2' for a in on),
                      'ssp:axes labelled as the variables')
            mon.check(any(a.get_title() == out for a in figs[1].axes), 'ssp:title')
    else:
        from scipy.spatial import ConvexHull
        H = ConvexHull(V)
        segs = []
        for a in axes:
            for l in a.get_lines():
                segs.append(np.column_stack((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))))
            for c in a.collections:
                if hasattr(c, 'get_segments'):
                    segs += [np.asarray(t) for t in c.get_segments()]
        for sx in H.simplices:
            p, q = V[sx[0]], V[sx[1]]
            mon.check(any(len(t) == 2 and (np.allclose(t, [p, q]) or np.allclose(t, [q, p])) for t in segs), 'zonotope:edges')
        pts = [np.column_stack((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))) for a in axes for l in a.get_lines()]
        if D is not None:
            mon.check(all(any(len(t) and np.abs(t - r).max(1).min() < 1e-12 for t in pts) for r in D), 'zonotope:design points')
        if y is not None:
            mon.check(any(scatter_of(a, y, f) for a in axes), 'zonotope:points coloured by the values')
            on = [a for a in axes if scatter_of(a, y, f)]
            mon.check(seen(figs[0], [c for a in on for c in points_of(a, y)]) > 0, 'zonotope:points not covered')
        hull = [(a, l) for a in axes for l in list(a.get_lines()) + list(a.collections)
                if a.get_xlabel() or len(axes) == 1 or hasattr(l, 'get_segments')]
        mon.check(seen(figs[0], [l for a, l in hull]) > 0, 'zonotope:edges not covered')
        mon.check(any(in_view(a, V[:, 0], V[:, 1]) for a in axes if a.get_lines() or any(hasattr(c, 'get_segments') for c in a.collections)),
                  'zonotope:all in view')
    for g, l, xy, at in mine:
        mon.check(len(g.axes) == 1 and list(g.axes[0].get_lines()) == [l] and np.array_equal(l.get_xydata(), xy)
                  and g.axes[0].axis() == at and len(g.axes[0].collections) == 0,
                  'figures:those made before look the same')
    got = sorted(os.listdir('figs')) if os.path.isdir('figs') else []
    want = sorted(p + out + typ for p in files) if save else []
    mon.check(got == want, 'files:saved figures only when asked', got=got, want=want)
    mon.check(all(os.path.getsize(os.path.join('figs', g)) > 0 for g in got), 'files:not empty')
    mon.check([x for x in os.listdir('.') if x != 'figs'] == [], 'files:nothing else written', files=os.listdir('.'))
    plt.close('all')


@family('X04', 24, 200)
def x04_refusals(mon, rng):
    plt = plotting()
    opts = pl.plot_opts(savefigs=False)
    opts['myfont']['family'] = 'sans-serif'
    V = np.array([[1.0, 0], [0, 1], [-1, 0], [0, -1]]) * rng.uniform(0.5, 2)
    mon.input(V=V)
    y3 = rng.normal(size=(5, 3))
    f = rng.normal(size=(5, 1))
    mon.raises(lambda: pl.sufficient_summary(y3, f, opts=opts), 'refusal:three active variables')
    mon.raises(lambda: pl.eigenvectors(np.eye(4)[:, :2], W_br=np.zeros((4, 3)), opts=opts), 'refusal:ranges of wrong size')
    mon.raises(lambda: pl.zonotope_2d_plot(y3, opts=opts), 'refusal:vertices not in the plane')
    mon.raises(lambda: pl.zonotope_2d_plot(V, design=y3, opts=opts), 'refusal:design not in the plane')
    mon.raises(lambda: pl.zonotope_2d_plot(V, y=y3, f=f, opts=opts), 'refusal:points not in the plane')
    mon.raises(lambda: pl.zonotope_2d_plot(V, y=y3[:, :2], opts=opts), 'refusal:points without values')
    mon.raises(lambda: pl.zonotope_2d_plot(V, f=f, opts=opts), 'refusal:values without points')
    mon.raises(lambda: pl.zonotope_2d_plot(V, y=y3[:, :2], f=f[:-1], opts=opts), 'refusal:different numbers')
    mon.check(os.listdir('.') == [], 'refusal:no files', files=os.listdir('.'))
    plt.close('all')


# ---------------------------------------------------------------------------------------------------------------- X05
about('X05', """central differences of the model itself with two step sizes (an error estimate), row by row evaluation, digests of the
 inputs; the physical formulas are evaluated independently from their published form.""")

TUT = '/repo/tutorials'
MODELS = {
    'wing basic': ('wing_functions.py', 'wing', 'wing_grad', None),
    'wing': ('test_functions/wing_weight/wing_functions.py', 'wing', 'wing_grad', None),
    'borehole': ('test_functions/borehole/borehole_functions.py', 'borehole', 'borehole_grad', 8),
    'circuit': ('test_functions/otl_circuit/otlcircuit_functions.py', 'circuit', 'circuit_grad', 6),
    'piston': ('test_functions/piston/piston_functions.py', 'piston', 'piston_grad', 7),
    'robot': ('test_functions/robot/robot_functions.py', 'robot', 'robot_grad', 8),
}
LOADED = {}


def tutorial(name):
    if name not in LOADED:
        path, f, g, m = MODELS[name]
        spec = importlib.util.spec_from_file_location('tut_' + name.replace(' ', '_'), os.path.join(TUT, path))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        LOADED[name] = (getattr(mod, f), getattr(mod, g), m or 10)
    return LOADED[name]


def published(name, x):
    """The physical formulas as published, at one normalized point, written independently."""
    from math import pi, log, exp, sqrt, cos, sin

    def scaled(lo, hi):
        return [a + (b - a) * (t + 1) / 2.0 for a, b, t in zip(lo, hi, x)]
    if name in ('wing', 'wing basic'):
        if name == 'wing':
            x = scaled([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])
        Sw, Wfw, A, Lam, q, lam, tc, Nz, Wdg, Wp = [float(t) for t in x]
        cl = cos(Lam * pi / 180)
        return 0.036 * Sw ** 0.758 * Wfw ** 0.0035 * (A / cl ** 2) ** 0.6 * q ** 0.006 * lam ** 0.04 * \
            (100 * tc / cl) ** -0.3 * (Nz * Wdg) ** 0.49 + Sw * Wp
    if name == 'borehole':
        rw, r = 0.1 + 0.0161812 * x[0], exp(7.71 + 1.0056 * x[1])
        lo, hi = [63070, 990, 63.1, 700, 1120, 9855], [115600, 1110, 116, 820, 1680, 12045]
        Tu, Hu, Tl, Hl, L, Kw = [a + (b - a) * (t + 1) / 2.0 for a, b, t in zip(lo, hi, x[2:])]
        g = log(r / rw)
        return 2 * pi * Tu * (Hu - Hl) / (g * (1 + 2 * L * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
    if name == 'circuit':
        Rb1, Rb2, Rf, Rc1, Rc2, be = scaled([50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300])
        Vb1 = 12 * Rb2 / (Rb1 + Rb2)
        k = be * (Rc2 + 9)
        return (Vb1 + 0.74) * k / (k + Rf) + 11.35 * Rf / (k + Rf) + 0.74 * Rf * k / ((k + Rf) * Rc1)
    if name == 'piston':
        M, S, V0, k, P0, Ta, T0 = scaled([30, .005, .002, 1000, 90000, 290, 340], [60, .02, .01, 5000, 110000, 296, 360])
        A = P0 * S + 19.62 * M - k * V0 / S
        V = S / (2 * k) * (sqrt(A * A + 4 * k * P0 * V0 / T0 * Ta) - A)
        return 2 * pi * sqrt(M / (k + S ** 2 * P0 * V0 / T0 * Ta / V ** 2))
    th, L = [pi * (t + 1) for t in x[:4]], [(t + 1) / 2.0 for t in x[4:]]
    u = sum(L[i] * cos(sum(th[:i + 1])) for i in range(4))
    v = sum(L[i] * sin(sum(th[:i + 1])) for i in range(4))
    return sqrt(u * u + v * v)


def tutorial_inputs(rng, name, M):
    m = tutorial(name)[2]
    k = rng.randint(4)
    if k == 0:
        X = rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0], size=(M, m))
    elif k == 1:
        X = rng.choice([-1, 0, 1], size=(M, m))                 # integers
    else:
        X = rng.uniform(-1, 1, size=(M, m))
    if name == 'borehole' and k >= 2:
        X[:, :2] = np.clip(rng.normal(size=(M, 2)), -3, 3)
    if name == 'wing basic':
        lo = np.array([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025])
        hi = np.array([200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])
        X = lo + (hi - lo) * (X + 1) / 2.0
    if name == 'robot':
        f = np.array([published(name, x) for x in X])
        X = X[f > 0.05]
    return X


@family('X05', 240, 5000)
def x05_models(mon, rng):
    name = sorted(MODELS)[rng.randint(len(MODELS))]
    F, G, m = tutorial(name)
    M = gen.sizes(rng, 1, 12, 200)
    X = tutorial_inputs(rng, name, M)
    M = len(X)
    if M == 0:
        raise Skip('singular')
    mon.input(X=X, name=name)
    mon.event('model ' + name)
    L = Ledger()
    Xc = L.keep('X', layout(rng, X))
    with mon.guard('model'):
        f = F(Xc)
        df = G(Xc)
    L.check(mon, 'model')
    if not (mon.shape(f, (M, 1), 'model:a column of outputs', name=name) and mon.shape(df, (M, m), 'model:a row per gradient', name=name)):
        return
    if name == 'borehole' and X.dtype.kind in 'iu':
        # known finding: scaled inputs are stored in the caller's integer type, so the radius 0.1 +- 0.016 becomes 0
        lo, hi = np.array([63070, 990, 63.1, 700, 1120, 9855]), np.array([115600, 1110, 116, 820, 1680, 12045])
        P = np.trunc(np.hstack((0.1 + 0.0161812 * X[:, :1], np.exp(7.71 + 1.0056 * X[:, 1:2]), (hi - lo) * (X[:, 2:] + 1) / 2.0 + lo)))
        with np.errstate(all='ignore'):
            rw, r, Tu, Hu, Tl, Hl, Ln, Kw = P.T
            g = np.log(r / rw)
            cut = 2 * np.pi * Tu * (Hu - Hl) / (g * (1 + 2 * Ln * Tu / (g * rw ** 2 * Kw) + Tu / Tl))
        if np.allclose(f.ravel(), cut, equal_nan=True) and mon.known_finding(
                'borehole-integers', 'borehole and borehole_grad truncate the scaled inputs when given an integer array'):
            X = X.astype(float)
            f, df = F(X), G(X)
    want = np.array([published(name, [float(t) for t in x]) for x in X])
    mon.close(f.ravel(), want, 'model:published formula', rtol=1e-11, name=name, X=X)
    # rows do not depend on each other
    for i in range(min(M, 4)):
        with mon.guard('model'):
            r = X[i].copy() if chance(rng, 0.5) else X[i:i + 1].copy()
            fi, dfi = F(r), G(r)
        mon.close(fi, f[i:i + 1], 'model:rows independent', rtol=1e-12, name=name)
        mon.close(dfi, df[i:i + 1], 'model:gradient rows independent', rtol=1e-12, scale=np.abs(df[i]).max(), name=name)
    # derivatives: fourth order differences of the published formula
    for i in range(min(M, 4)):
        x = np.array([float(t) for t in X[i]])
        for j in range(m):
            h = 2e-4 if name != 'wing basic' else 2e-4 * abs([25, 40, 2, 10, 15, .25, .05, 1.75, 400, .0275][j])
            v = []
            for c in (-2, -1, 1, 2):
                z = x.copy()
                z[j] += c * h
                v.append(published(name, z))
            d = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
            d2 = (v[2] - v[1]) / (2 * h)
            if name == 'wing basic' and j == 3:
                d, d2 = d * 180 / np.pi, d2 * 180 / np.pi         # the tutorial's gradient is per radian
            noise = 1e-13 * abs(want[i]) / h * (180 / np.pi if name == 'wing basic' else 1)
            mon.close(np.array(df[i, j]), np.array(d), 'model:gradient is the derivative', rtol=1e-6, atol=10 * noise + abs(d - d2),
                      scale=abs(d), model=name, component=j, x=x)


@family('X05', 60, 600)
def x05_subspace_of_models(mon, rng):
    """The library's own finite differences of a model agree with its gradients, and so do the subspaces."""
    name = [k for k in sorted(MODELS) if k != 'wing basic'][rng.randint(5)]
    F, G, m = tutorial(name)
    X = rng.uniform(-1, 1, size=(60, m))
    if name == 'robot':
        X = X[F(X).ravel() > 0.3]
    mon.input(X=X, name=name)
    with mon.guard('subspace of a model'):
        d1 = gr.finite_difference_gradients(X, F)
        d2 = sr.SimulationGradientRunner(G).run(X)
        a, b = ss.Subspaces(), ss.Subspaces()
        a.compute(df=d1)
        b.compute(df=G(X))
        f = sr.SimulationRunner(F).run(X)
    sc = np.abs(d2).max()
    mon.close(d2, G(X), 'models:gradient runner', rtol=1e-12)
    mon.close(f, F(X), 'models:runner', rtol=1e-12)
    mon.close(d1, d2, 'models:finite differences', rtol=2e-3, scale=sc, name=name)
    mon.close(a.eigenvals, b.eigenvals, 'models:eigenvalues', rtol=1e-2, scale=b.eigenvals.max(), name=name)
