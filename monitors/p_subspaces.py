"""S01..S07: subspace estimation."""
import itertools

import numpy as np

from active_subspaces import subspaces as ss
from active_subspaces import gradients as gr
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner
from active_subspaces.utils.misc import BoundedNormalizer, UnboundedNormalizer

from .core import family, about, Skip
from . import gen
from .gen import chance, layout

# ---------------------------------------------------------------------------------------------------------------- S01
about('S01', """the returned eigenpairs are compared with the explicitly summed weighted outer-product matrix
 (reconstruction, order, orthonormality, sign convention) without using the eigensolver's output order.""")


def check_eigenpairs(mon, e, W, C, label, rtol=1e-10, absval=False):
    m = C.shape[0]
    mon.shape(e, (m, 1), label + ':e shape')
    mon.shape(W, (m, m), label + ':W shape')
    sc = max(np.abs(C).max() * m, 1e-300)
    mon.check(np.all(np.isfinite(e)) and np.all(np.isfinite(W)), label + ':finite', e=e)
    mon.check(np.all(e >= 0), label + ':nonnegative', e=e)
    mon.check(np.all(np.diff(e[:, 0]) <= 0), label + ':descending', e=e)
    mon.close(np.dot(W.T, W), np.eye(m), label + ':orthonormal', rtol=1e-11 * m)
    mon.check(np.all(W[0] >= -1e-14), label + ':first component not negative', row=W[0])
    if absval:
        lam = np.einsum('ij,ij->j', W, np.dot(C, W))
        mon.close(np.abs(lam).reshape(-1, 1), e, label + ':magnitudes', atol=rtol * sc)
        mon.close(np.dot(C, W), W * lam, label + ':eigenpairs', atol=rtol * sc)
    else:
        mon.close(np.dot(W * e[:, 0], W.T), C, label + ':reconstruction', atol=rtol * sc, e=e)


def outer_sum(df, w):
    m = df.shape[1]
    C = np.zeros((m, m))
    for i in range(df.shape[0]):
        C += float(w[i, 0]) * np.outer(df[i], df[i])
    return C


def gradients_sample(rng, M, m):
    k = rng.randint(6)
    if k == 0:
        df = rng.normal(size=(M, m))
    elif k == 1:
        df = rng.normal(size=(M, m)) * 10.0 ** rng.uniform(*[(-2, 2), (-6, 0)][rng.randint(2)], size=(1, m))
    elif k == 2:
        r = rng.randint(1, m + 1)
        df = np.dot(rng.normal(size=(M, r)), rng.normal(size=(r, m)))
    elif k == 3:
        df = rng.randint(-5, 6, size=(M, m))
    elif k == 4:
        df = rng.normal(size=(M, m)) + 5 * rng.normal(size=(1, m))
        df[:, rng.randint(m)] = 0.0
    else:
        df = rng.normal(size=(M, m)) * gen.logu(rng, -9, 9)
    return df


@family('S01', 300, 8000)
def s01_active_subspace(mon, rng):
    M, m = gen.sizes(rng, 1, 60, 1500), gen.sizes(rng, 1, 8, 25)
    df, w = gradients_sample(rng, M, m), gen.weights(rng, M)
    if chance(rng, 0.1):                                  # rare samples with large gradients count as much as others
        w = 10.0 ** rng.uniform(-16, 0, size=(M, 1))
        df = df / np.sqrt(w)
    mon.input(nontrivial=M > 1 and m > 1, df=df, w=w)
    C = outer_sum(df.astype(float), w)
    with mon.guard('active_subspace'):
        e, W = ss.active_subspace(layout(rng, df), layout(rng, w))
    check_eigenpairs(mon, e, W, C, 'AS', rtol=2e-14 * (4 + np.sqrt(M)))
    tr = sum(float(w[i, 0]) * float(np.dot(df[i].astype(float), df[i].astype(float))) for i in range(M))
    mon.close(e.sum(), tr, 'AS:trace is the mean squared gradient norm', rtol=1e-9)
    # reordering samples (with their weights) changes nothing
    p = rng.permutation(M)
    with mon.guard('active_subspace permuted'):
        e2, W2 = ss.active_subspace(df[p], w[p])
    mon.close(e2, e, 'AS:order of samples', atol=1e-10 * max(np.abs(C).max(), 1e-300) * m)
    # splitting a sample in two with half its weight changes nothing
    j = rng.randint(M)
    wd = np.vstack((w, w[j:j + 1])).astype(float)
    wd[[j, -1]] *= 0.5
    with mon.guard('active_subspace split'):
        e3, W3 = ss.active_subspace(np.vstack((df, df[j:j + 1])), wd)
    check_eigenpairs(mon, e3, W3, C, 'AS:split', rtol=2e-14 * (4 + np.sqrt(M)))
    # scaling
    a = gen.logu(rng, -3, 3) * rng.choice([-1, 1])
    with mon.guard('active_subspace scaled'):
        e4, W4 = ss.active_subspace(a * df, w)
    mon.close(e4, a * a * e, 'AS:scaling', rtol=1e-9)


@family('S01', 200, 5000)
def s01_compute(mon, rng):
    M, m = gen.sizes(rng, 1, 60, 800), gen.sizes(rng, 2, 8, 20)
    df = gradients_sample(rng, M, m)
    w = None if chance(rng, 0.4) else gen.weights(rng, M)
    mon.input(nontrivial=M > 1, df=df, w=-1 if w is None else w)
    wo = np.ones((M, 1)) / M if w is None else w
    C = outer_sum(df.astype(float), wo)
    s = ss.Subspaces()
    kw = {}
    if chance(rng, 0.3):
        kw['X'] = rng.normal(size=(M, m))
    if chance(rng, 0.3):
        kw['f'] = rng.normal(size=(M, 1))
    if w is not None:
        kw['weights'] = layout(rng, w)
    if chance(rng, 0.5):
        kw['sstype'] = 'AS'
    with mon.guard('compute AS'):
        s.compute(df=layout(rng, df), **kw)
    check_eigenpairs(mon, s.eigenvals, s.eigenvecs, C, 'compute', rtol=2e-14 * (4 + np.sqrt(M)))
    n = s.W1.shape[1]
    mon.check(1 <= n < m, 'compute:dimension in range', n=n)
    mon.check(np.array_equal(np.hstack((s.W1, s.W2)), s.eigenvecs), 'compute:W1 W2 partition eigenvecs')
    mon.check(s.e_br is None and s.sub_br is None, 'compute:no bootstrap ranges unless asked')


@family('S01', 200, 4000)
def s01_sorted_eigh(mon, rng):
    m = gen.sizes(rng, 1, 9, 30)
    k = rng.randint(4)
    if k == 0:
        A = rng.normal(size=(m, m))
        C = A + A.T
    elif k == 1:
        V = gen.orth(rng, m)
        lam = 10.0 ** rng.uniform(-3, 3, size=m) * rng.choice([-1, 1], size=m)
        C = np.dot(V * lam, V.T)
        C = 0.5 * (C + C.T)
    elif k == 2:
        C = np.diag(rng.randint(-4, 5, size=m).astype(float))
    else:
        b = rng.normal(size=(m, 1))
        C = np.dot(b, b.T)
    mon.input(nontrivial=m > 1, C=C)
    with mon.guard('sorted_eigh'):
        e, W = ss.sorted_eigh(layout(rng, C))
    check_eigenpairs(mon, e, W, C, 'eigh', absval=True, rtol=1e-13)
    mon.close(np.sort(e[:, 0]), np.sort(np.abs(np.linalg.eigvalsh(C))), 'eigh:all magnitudes returned',
              atol=1e-10 * max(np.abs(C).max(), 1e-300) * m)


# ---------------------------------------------------------------------------------------------------------------- S02
about('S02', """OLS: the slope solves the weighted normal equations, computed here from centred data; QPHD: the expected
 outer product of the gradient of an independently fitted weighted quadratic, with the uniform or Gaussian second
 moment chosen from the range of the inputs.""")


def wls_slope(X, f, w):
    w = w.astype(float)
    k = w[:, 0] > 0
    X, f, w = X[k].astype(float), f[k].astype(float), w[k] / w.max()
    xm, fm = (w * X).sum(0) / w.sum(), (w * f).sum(0) / w.sum()
    A, b = (X - xm) * np.sqrt(w), (f - fm) * np.sqrt(w)
    cond = np.linalg.cond(A)
    if not cond < 1e12:
        raise Skip('ill-conditioned')
    Q, R = np.linalg.qr(A)
    return np.linalg.solve(R, np.dot(Q.T, b)).ravel(), cond


@family('S02', 250, 6000)
def s02_ols(mon, rng):
    m = gen.sizes(rng, 1, 6, 15)
    M = gen.sizes(rng, m + 2, 60 + m, 900)
    X = gen.points(rng, M, m)
    w = gen.weights(rng, M)
    if (w > 0).sum() < m + 2:
        w = w + w.max()
    f = np.dot(X, rng.normal(size=(m, 1))) + rng.normal() * 3
    noise = rng.choice([0.0, 0.1, 5.0])
    f = f + noise * rng.normal(size=(M, 1)) * (1 + np.abs(f).max())
    mon.input(nontrivial=m > 1, X=X, f=f, w=w)
    c = wls_slope(X, f, w)
    if c[1] > 1e5:
        raise Skip('ill-conditioned')
    b = c[0]
    tol = 1e-9 * (1 + c[1] ** 2 * 1e-4)
    sc = (np.linalg.norm(b) + np.abs(f).max() / np.abs(X).max()) ** 2
    how = rng.randint(3)
    with mon.guard('OLS'):
        if how == 0:
            e, W = ss.ols_subspace(layout(rng, X), layout(rng, f), layout(rng, w))
        else:
            s = ss.Subspaces()
            kw = dict(weights=w) if how == 1 else {}
            if how == 2:
                b, c1 = wls_slope(X, f, np.ones((M, 1)))
                if c1 > 1e5:
                    raise Skip('ill-conditioned')
                c = (b, max(c[1], c1))
                tol = 1e-9 * (1 + c[1] ** 2 * 1e-4)
                sc = (np.linalg.norm(b) + np.abs(f).max() / np.abs(X).max()) ** 2
            if m == 1:
                raise Skip('m=1 has no partition')
            s.compute(X=layout(rng, X), f=layout(rng, f), sstype='OLS', **kw)
            e, W = s.eigenvals, s.eigenvecs
    check_eigenpairs(mon, e, W, np.outer(b, b), 'OLS', rtol=1e-7 if c[1] < 1e3 else 1e-4)
    mon.close(e[0, 0], np.dot(b, b), 'OLS:first eigenvalue is the squared slope norm', atol=tol * sc)
    mon.close(np.abs(e[1:]), np.zeros((m - 1, 1)), 'OLS:other eigenvalues vanish', atol=1e-10 * sc)
    if how != 2:
        # only ratios of weights and differences of outputs matter
        with mon.guard('OLS scaled'):
            e2, W2 = ss.ols_subspace(X, f + 7.5, w * gen.logu(rng, -3, 3))
        mon.close(e2[0], e[0], 'OLS:weight scale and output shift', atol=1e-7 * sc * (1 + c[1] * 1e-3))


@family('S02', 60, 1500)
def s02_ols_scaled_inputs(mon, rng):
    """Inputs in very different units: the slope is exact all the same."""
    m = int(rng.randint(2, 6))
    M = int(rng.randint(m + 2, 40))
    S = 10.0 ** rng.uniform(-4, 4, size=m)
    U = rng.uniform(-1, 1, size=(M, m))
    A = np.hstack((np.ones((M, 1)), U))
    cond = np.linalg.cond(A)
    if cond > 100:
        raise Skip('ill-conditioned')
    if chance(rng, 0.5):
        S = S[0] * np.ones(m) * 10.0 ** rng.uniform(-4, 4)
    a = (0.3 + rng.rand(m)) * rng.choice([-1, 1], size=m)
    X = U * S
    f = np.dot(U, a.reshape(m, 1)) + rng.normal()
    w = None if chance(rng, 0.4) else rng.rand(M, 1) + 0.1
    mon.input(X=X, f=f)
    b = a / S
    s = ss.Subspaces()
    with mon.guard('OLS'):
        s.compute(X=layout(rng, X), f=layout(rng, f), weights=w, sstype='OLS')
    mon.close(s.eigenvals[0, 0], np.dot(b, b), 'OLS:squared slope norm for inputs of all units', rtol=1e-8)
    v = s.eigenvecs[:, 0]
    v = v * np.sign(v[np.argmax(np.abs(b))] * b[np.argmax(np.abs(b))])
    mon.close(v, b / np.linalg.norm(b), 'OLS:slope direction for inputs of all units', atol=1e-8)


def quad_fit(X, f, w):
    """Weighted least-squares quadratic: (gradient at zero, Hessian, condition number)."""
    M, m = X.shape
    cols = [np.ones(M)] + [X[:, i] for i in range(m)]
    prs = [(i, j) for i in range(m) for j in range(i, m)]
    cols += [X[:, i] * X[:, j] for i, j in prs]
    B = np.array(cols).T.astype(float)
    s = np.abs(B).max(0)
    s[s == 0] = 1
    r = np.sqrt(w.astype(float) / w.max())
    A = (B / s) * r
    c = np.linalg.lstsq(A, (f * r)[:, 0], rcond=None)[0] / s
    H = np.zeros((m, m))
    for (i, j), v in zip(prs, c[m + 1:]):
        H[i, j] += v
        H[j, i] += v
    return c[1:m + 1], H, np.linalg.cond(A)


def range_inputs(rng, M, m):
    """Inputs whose range decides between the uniform and the Gaussian moment."""
    k = rng.randint(8)
    X = rng.uniform(-1, 1, size=(M, m))
    if k == 0:
        X = rng.normal(size=(M, m))
    elif k == 1:
        X[rng.randint(M), rng.randint(m)] = 1.0 + gen.logu(rng, -9, 0)
    elif k == 2:
        X[rng.randint(M), rng.randint(m)] = -1.0 - gen.logu(rng, -9, 0)
    elif k == 3:
        X[rng.randint(M), rng.randint(m)] = rng.choice([-1.0, 1.0])
    elif k == 4:
        X = np.minimum(rng.normal(size=(M, m)), 1.0)
    elif k == 5:
        X = np.maximum(rng.normal(size=(M, m)), -1.0)
    elif k == 6:
        X = rng.randint(-1, 2, size=(M, m)).astype(float) * rng.uniform(0.5, 1, size=(M, m))
    return X


@family('S02', 250, 6000)
def s02_qphd(mon, rng):
    m = gen.sizes(rng, 1, 5)
    P = (m + 1) * (m + 2) // 2
    M = gen.sizes(rng, P + 2, 4 * P + 20, 600)
    X = range_inputs(rng, M, m)
    A = rng.normal(size=(m, m))
    f = np.dot(X, rng.normal(size=(m, 1))) + 0.5 * np.sum(np.dot(X, A + A.T) * X, axis=1).reshape(M, 1)
    if chance(rng, 0.6):
        f = f + np.sin(3 * X[:, :1]) + rng.normal(size=(M, 1)) * rng.choice([0, 0.3, 2])
    w = gen.weights(rng, M)
    if (w > 0).sum() < P + 2:
        w = w + w.max()
    how = rng.randint(3)
    wo = np.ones((M, 1)) if how == 2 else w
    b, H, cond = quad_fit(X, f, wo)
    if cond > 1e5:
        raise Skip('ill-conditioned')
    mon.input(nontrivial=m > 1, X=X, f=f, w=w)
    gauss = X.max() > 1 or X.min() < -1
    mon.event('gaussian moment' if gauss else 'uniform moment')
    C = np.outer(b, b) + (1.0 if gauss else 1 / 3.0) * np.dot(H, H.T)
    with mon.guard('QPHD'):
        if how == 0:
            e, W = ss.qphd_subspace(layout(rng, X), layout(rng, f), layout(rng, w))
        else:
            if m == 1:
                raise Skip('m=1 has no partition')
            s = ss.Subspaces()
            s.compute(X=layout(rng, X), f=layout(rng, f), sstype='QPHD', **(dict(weights=w) if how == 1 else {}))
            e, W = s.eigenvals, s.eigenvecs
    sc = np.abs(C).max() + (np.abs(f).max() / max(np.abs(X).max(), 1e-3)) ** 2
    check_eigenpairs(mon, e, W, C, 'QPHD', rtol=1e-8 * (1 + cond ** 2 * 1e-3) * sc / np.abs(C).max())


@family('S02', 100, 2000)
def s02_integer_weights(mon, rng):
    """A sample of weight k is worth k copies of it, for every weighted estimator."""
    m = int(rng.randint(2, 4))
    P = (m + 1) * (m + 2) // 2
    M = int(rng.randint(P + 3, P + 25))
    X = rng.uniform(-1, 1, size=(M, m)) * rng.choice([1.0, 2.0])
    f = np.exp(np.dot(X, rng.normal(size=(m, 1)))) + rng.normal(size=(M, 1)) * 0.2
    df = rng.normal(size=(M, m))
    k = rng.randint(0, 4, size=M)
    k[:P + 2] = np.maximum(k[:P + 2], 1)
    r = np.repeat(np.arange(M), k)
    mon.input(X=X, f=f, k=k)
    w, one = k.reshape(M, 1).astype(float), np.ones((r.size, 1))
    inside = X.max() <= 1 and X.min() >= -1
    for name, a, b in (
            ('AS', lambda: ss.active_subspace(df, w), lambda: ss.active_subspace(df[r], one)),
            ('OLS', lambda: ss.ols_subspace(X, f, w), lambda: ss.ols_subspace(X[r], f[r], one)),
            ('QPHD', lambda: ss.qphd_subspace(X, f, w), lambda: ss.qphd_subspace(X[r], f[r], one))):
        if name == 'QPHD' and (X[r].max() <= 1 and X[r].min() >= -1) != inside:
            continue
        with mon.guard('weights ' + name):
            (e1, W1), (e2, W2) = a(), b()
        C1, C2 = np.dot(W1 * e1[:, 0], W1.T), np.dot(W2 * e2[:, 0], W2.T)
        mon.close(C1, C2, 'weight k is k copies: ' + name, rtol=1e-6)


# ---------------------------------------------------------------------------------------------------------------- S03
about('S03', """every returned row must equal the least-squares slope, recomputed here, on the p nearest other samples of
 some data point; all data points must be used as base points over repeated calls.""")


def local_slopes(X, f, p):
    M, m = X.shape
    out, conds = [], []
    for i in range(M):
        d = np.array([np.sqrt(np.sum((X[j] - X[i]) ** 2)) for j in range(M)])
        o = [j for j in np.argsort(d, kind='stable') if d[j] > 0]
        if len(o) < p:
            return None, None
        if len(o) > p and d[o[p]] - d[o[p - 1]] < 1e-9 * d[o[p]]:
            raise Skip('ties')
        Y = X[o[:p]] - X[i]
        A = np.hstack((np.ones((p, 1)), Y))
        sc = np.abs(Y).max()
        A[:, 1:] /= sc
        u, res, rk, sv = np.linalg.lstsq(A, f[o[:p], 0], rcond=None)
        B = np.hstack((np.ones((p, 1)), X[o[:p]]))
        out.append(u[1:] / sc)
        conds.append(np.linalg.cond(B))
    return np.array(out), np.array(conds)


@family('S03', 150, 3000)
def s03_local_linear(mon, rng):
    m = gen.sizes(rng, 2, 5)
    many = chance(rng, 0.1)
    if many:
        m = int(rng.randint(6, 13))
    M = int(rng.randint(2 * m + 2, 60)) if many else gen.sizes(rng, m + 2, 40, 150)
    X = gen.points(rng, M, m, kind=['uniform', 'gauss', 'wide', 'shift'][rng.randint(4)]).astype(float)
    nd = 0
    if not many and chance(rng, 0.25) and M > m + 6:
        nd = int(rng.randint(1, 4))
        X[:nd] = X[nd:2 * nd]                     # coincident samples are not neighbors of each other
    f = np.sin(np.dot(X, rng.normal(size=(m, 1)))) + 0.3 * X[:, :1] ** 2 + rng.normal() * 4
    pmax = M - 1 - nd
    default = chance(rng, 0.9 if many else 0.3)
    p = min(int(np.floor(1.7 * m)), M - 1) if default else int(rng.randint(m + 1, pmax + 1))
    if p < m + 1 or p > pmax:
        raise Skip('too few')
    S, conds = local_slopes(X, f, p)
    if S is None or conds.max() > 1e6:
        raise Skip('ill-conditioned neighborhood')
    mon.input(X=X, f=f, p=p)
    kw = {} if default else dict(p=p)
    if chance(rng, 0.5):
        kw['weights'] = gen.weights(rng, M) + 0.01
    used = set()
    for rep in range(3):
        with mon.guard('local_linear_gradients'):
            df = gr.local_linear_gradients(layout(rng, X), layout(rng, f), **kw)
        mon.check(isinstance(df, np.ndarray) and df.ndim == 2 and df.shape[1] == m and df.shape[0] >= 1,
                  'local:shape', shape=getattr(df, 'shape', None))
        D = np.abs(df[:, None, :] - S[None]).max(2)
        best = D.argmin(1)
        tol = 1e-7 * np.abs(S).max() + 1e-13 * conds[best] ** 2 * np.abs(f).max()
        mon.check(np.all(D[np.arange(len(df)), best] <= tol), 'local:row is the slope on the p nearest others', p=p,
                  M=M, m=m, worst=D.min(1).max())
        used.update(best.tolist())
        mon.event('local slopes matched', len(df))
    mon.check(len(used) > 1 or M < 6, 'local:more than one base point', used=len(used))


@family('S03', 16, 150)
def s03_large_samples(mon, rng):
    """Hundreds to thousands of samples."""
    m = int(rng.randint(2, 4))
    M = int(10.0 ** rng.uniform(2.3, 3.2))
    X = gen.points(rng, M, m, kind=['uniform', 'gauss'][rng.randint(2)]).astype(float)
    f = np.sin(3 * np.dot(X, rng.normal(size=(m, 1)))) + X[:, :1] ** 2
    p = int(np.floor(1.7 * m)) if chance(rng, 0.3) else int(rng.randint(m + 2, 40))
    mon.input(X=X, f=f, p=p)
    with mon.guard('local_linear_gradients'):
        df = gr.local_linear_gradients(layout(rng, X), layout(rng, f), **({} if p == int(np.floor(1.7 * m)) else dict(p=p)))
    D = ((X[:, None, :] - X[None]) ** 2).sum(2)
    best = np.full(len(df), np.inf)
    o = np.argsort(D, axis=1, kind='stable')[:, 1:p + 1]
    Y = X[o] - X[:, None, :]
    Y = Y - Y.mean(1)[:, None, :]
    F = f[o][:, :, 0]
    F = F - F.mean(1)[:, None]
    G = np.einsum('ijk,ijl->ikl', Y, Y)
    sv = np.linalg.eigvalsh(G)
    S = np.linalg.solve(G, np.einsum('ijk,ij->ik', Y, F)[:, :, None])[:, :, 0]
    R = np.abs(df[:, None, :] - S[None]).max(2)
    k = R.argmin(1)
    tol = 1e-7 * np.abs(S[k]).max(1) + 1e-12 * (sv[k, -1] / sv[k, 0]) * (1 + np.abs(f).max()) / np.sqrt(sv[k, 0])
    mon.check(np.all(R[np.arange(len(df)), k] <= tol), 'large:row is the slope on the p nearest others', p=p, M=M, m=m,
              worst=R.min(1).max())
    mon.event('local slopes matched', len(df))
    mon.event('samples', M)


@family('S03', 24, 300)
def s03_all_base_points(mon, rng):
    m, M = int(rng.randint(2, 4)), int(rng.randint(6, 12))
    X = rng.uniform(-1, 1, size=(M, m))
    f = np.exp(np.dot(X, rng.normal(size=(m, 1))))
    p = m + 1 + int(rng.randint(2))
    S, conds = local_slopes(X, f, p)
    mon.input(X=X, f=f, p=p)
    # base points that share a neighborhood share a slope
    grp = np.array([int(np.flatnonzero(np.abs(S - S[i]).max(1) <= 1e-9 * np.abs(S).max())[0]) for i in range(M)])
    size = np.bincount(grp, minlength=M)
    hits = np.zeros(M)
    tot = 0
    while tot < 120 * M:
        with mon.guard('local_linear_gradients'):
            df = gr.local_linear_gradients(X, f, p=p)
        D = np.abs(df[:, None, :] - S[None]).max(2)
        for i in D.argmin(1):
            hits[grp[i]] += 1
        tot += len(df)
    hits, size = hits[size > 0], size[size > 0]
    if hits.size == 1:
        raise Skip('one neighborhood')
    mon.check(hits.min() > 0, 'local:every sample serves as a base point', hits=hits)
    pr = size / float(M)
    z = np.abs(hits - tot * pr) / np.sqrt(tot * pr * (1 - pr))
    mon.check(z.max() < 8, 'local:base points drawn uniformly', hits=hits)


@family('S03', 80, 1500)
def s03_affine_exact(mon, rng):
    m = gen.sizes(rng, 2, 6)
    M = gen.sizes(rng, m + 2, 40, 120)
    X = gen.points(rng, M, m, kind=['uniform', 'gauss', 'shift'][rng.randint(3)]).astype(float)
    a = rng.normal(size=(m, 1)) * gen.logu(rng, -2, 2)
    f = np.dot(X, a) + rng.normal() * 5
    mon.input(X=X, a=a)
    w = gen.weights(rng, M) + 0.01
    with mon.guard('local_linear_gradients affine'):
        df = gr.local_linear_gradients(X, f, weights=w)
    # a nearly degenerate neighborhood can be anything; the median row cannot
    err = np.abs(df - a.T).max(1)
    mon.check(np.median(err) <= 1e-8 * (np.abs(a).max() + np.abs(f).max()), 'local:exact on affine data',
              err=err)
    with mon.guard('OPG affine'):
        s = ss.Subspaces()
        s.compute(X=layout(rng, X), f=layout(rng, f), sstype='OPG', **(dict(weights=w) if chance(rng, 0.5) else {}))
    if err.max() < 1e-6 * np.abs(a).max() and M > m + 6:
        u = a[:, 0] / np.linalg.norm(a)
        mon.check(abs(np.dot(s.eigenvecs[:, 0], u)) > 1 - 1e-2 or s.eigenvals[0, 0] > 100 * np.dot(a.T, a)[0, 0],
                  'OPG:direction of an affine function', W=s.eigenvecs[:, 0], u=u)


@family('S03', 60, 1200)
def s03_opg_is_mean_outer_product(mon, rng):
    m = gen.sizes(rng, 2, 5)
    M = gen.sizes(rng, 2 * m + 4, 50)
    X = rng.normal(size=(M, m))
    f = np.sin(np.dot(X, rng.normal(size=(m, 1)))) + X[:, :1] * X[:, 1:2]
    w = gen.weights(rng, M) + 0.01
    mon.input(X=X, f=f)
    sd = int(rng.randint(2 ** 31))
    np.random.seed(sd)
    with mon.guard('local_linear_gradients'):
        df = gr.local_linear_gradients(X, f, weights=w)
    C = outer_sum(df, np.ones((len(df), 1)) / len(df))
    np.random.seed(sd)
    with mon.guard('OPG'):
        if chance(rng, 0.5):
            e, W = ss.opg_subspace(layout(rng, X), layout(rng, f), layout(rng, w))
        else:
            s = ss.Subspaces()
            s.compute(X=X, f=f, weights=w, sstype='OPG')
            e, W = s.eigenvals, s.eigenvecs
    check_eigenpairs(mon, e, W, C, 'OPG', rtol=1e-9)


# ---------------------------------------------------------------------------------------------------------------- S04
about('S04', """a random sequence of compute and partition calls, valid and invalid, on one or two objects, replayed against
 a model of the object's state; a fresh object is the reference for reused ones.""")


def snap(s):
    return [None if a is None else np.array(a, copy=True) for a in
            (s.eigenvals, s.eigenvecs, s.W1, s.W2, s.e_br, s.sub_br)]


def same(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and x.shape == y.shape
                                              and np.array_equal(x, y, equal_nan=True)) for x, y in zip(a, b))


@family('S04', 120, 2500)
def s04_history(mon, rng):
    objs = [ss.Subspaces(), ss.Subspaces()]
    state = [snap(o) for o in objs]
    ops = []
    mon.check(all(x is None for x in state[0]), 'history:fresh object is empty')
    for step in range(int(rng.randint(4, 14))):
        k = rng.randint(2)
        o = objs[k]
        before = snap(o)
        op = rng.randint(9)
        if op <= 3:
            m, M = int(rng.randint(2, 6)), int(rng.randint(25, 40))
            X, df = rng.uniform(-1, 1, size=(M, m)), rng.normal(size=(M, m)) * 3.0 ** -np.arange(m)
            f = rng.normal(size=(M, 1))
            kw = dict(X=X, f=f, df=df, sstype=['AS', 'OLS', 'QPHD', 'AS'][rng.randint(4)])
            if chance(rng, 0.5):
                kw['nboot'] = int(rng.randint(1, 8))
                kw['ptype'] = ['EVG', 'RS', 'LI'][rng.randint(3)]
            ops.append('%d:compute %s %s %s' % (k, kw['sstype'], kw.get('ptype'), kw.get('nboot', 0)))
            sd = int(rng.randint(2 ** 31))
            np.random.seed(sd)
            with mon.guard('compute', ops=ops):
                o.compute(**kw)
            fresh = ss.Subspaces()
            np.random.seed(sd)
            fresh.compute(**kw)
            mon.check(same(snap(o), snap(fresh)), 'history:reused object equals a fresh one', ops=ops)
            mon.check((o.e_br is None) == (not kw.get('nboot')), 'history:ranges present iff bootstrapped', ops=ops)
            if kw.get('nboot'):
                mon.shape(o.e_br, (m, 2), 'history:e_br shape')
                mon.shape(o.sub_br, (m - 1, 3), 'history:sub_br shape')
        elif op <= 5:
            if o.eigenvecs is None:
                continue
            m = o.eigenvecs.shape[0]
            n = int(rng.randint(1, m + 1))
            n = np.int64(n) if chance(rng, 0.3) else n
            ops.append('%d:partition %d' % (k, n))
            with mon.guard('partition', ops=ops):
                o.partition(n)
            mon.check(o.W1.shape == (m, n) and o.W2.shape == (m, m - n), 'history:partition shapes', ops=ops)
            after = snap(o)
            mon.check(same(before[:2] + before[4:], after[:2] + after[4:]), 'history:partition only repartitions',
                      ops=ops)
        elif op == 6:
            if o.eigenvecs is None:
                continue
            m = o.eigenvecs.shape[0]
            n = [0, -1, m + 1, -m, m + 7][rng.randint(5)]
            ops.append('%d:partition %d (bad)' % (k, n))
            mon.raises(lambda: o.partition(n), 'history:out-of-range dimension rejected', ValueError, ops=ops)
            mon.check(same(before, snap(o)), 'history:rejected partition changes nothing', ops=ops)
        elif op == 7:
            if o.eigenvecs is None:
                continue
            n = [1.0, '1', None, np.array([1]), 1.5][rng.randint(5)]
            ops.append('%d:partition %r (bad)' % (k, n))
            mon.raises(lambda: o.partition(n), 'history:non-integer dimension rejected', TypeError, ops=ops)
            mon.check(same(before, snap(o)), 'history:rejected partition changes nothing', ops=ops)
        else:
            m, M = int(rng.randint(2, 6)), int(rng.randint(25, 40))
            X, f, df = rng.normal(size=(M, m)), rng.normal(size=(M, 1)), rng.normal(size=(M, m))
            bad = [dict(), dict(X=X, f=f), dict(df=df, sstype='OLS'), dict(X=X, sstype='QPHD'),
                   dict(df=df, sstype='nope'), dict(df=df, ptype='nope'), dict(df=df, ptype='RS'),
                   dict(df=df, ptype='LI'), dict(X=X[:3], f=f[:3], sstype='QPHD'), dict(X=X, f=f[:-1], sstype='OLS'),
                   dict(df=df[:, 0]), dict(X=X, f=np.hstack((f, f)), sstype='OPG'), dict(f=f, sstype='OLS'),
                   dict(X=X, f=f, ptype='RS', sstype='OLS'), dict(df=df, ptype='nope', nboot=3)][rng.randint(15)]
            ops.append('%d:bad compute %s' % (k, {a: (b if isinstance(b, (str, int)) else '..') for a, b in bad.items()}))
            mon.raises(lambda: o.compute(**bad), 'history:unusable request rejected', ops=ops)
            mon.check(same(before, snap(o)), 'history:a failed compute changes nothing', ops=ops)
        # invariants of both objects at the quiescent point
        for j in (0, 1):
            a = objs[j]
            if j != k:
                mon.check(same(state[j], snap(a)), 'history:other object untouched', ops=ops)
            if a.eigenvecs is not None:
                mon.check(a.W1 is not None and a.W1.shape[1] >= 1
                          and np.array_equal(np.hstack((a.W1, a.W2)), a.eigenvecs)
                          and a.eigenvals.shape == (a.eigenvecs.shape[0], 1),
                          'history:W1 and W2 are the leading and trailing eigenvectors', ops=ops)
            state[j] = snap(a)
    mon.input(ops='|'.join(ops), nontrivial=len(ops) > 3)
    mon.event('operations', len(ops))


@family('S04', 60, 1500)
def s04_results_are_stable(mon, rng):
    """Results handed out earlier are not changed by what is done later."""
    m, M = int(rng.randint(2, 6)), int(rng.randint(10, 40))
    df = rng.normal(size=(M, m))
    a, b = ss.Subspaces(), ss.Subspaces()
    mon.input(df=df)
    with mon.guard('compute'):
        a.compute(df=df)
        kept = [x for x in (a.eigenvals, a.eigenvecs, a.W1, a.W2)]
        copies = [x.copy() for x in kept]
        b.compute(df=2 * df)
        a.compute(df=rng.normal(size=(M, m)), nboot=3)
        a.partition(1)
    mon.check(all(np.array_equal(x, y) for x, y in zip(kept, copies)), 'history:earlier results unchanged')
    c = ss.Subspaces()
    with mon.guard('compute'):
        c.compute(df=df)
    mon.check(all(np.array_equal(x, y) for x, y in zip(copies, (c.eigenvals, c.eigenvecs, c.W1, c.W2))),
              'history:recomputation gives the same result')


# ---------------------------------------------------------------------------------------------------------------- S05
about('S05', """the chosen dimension is compared with the explicit criterion, recomputed by loops, on arbitrary spectra and
 error estimates, and on exactly low-rank data, where every criterion has one answer.""")


def spectrum(rng, m):
    k = rng.randint(5)
    if k == 0:
        e = 10.0 ** rng.uniform(-8, 3, size=m)
    elif k == 1:
        e = rng.rand(m)
    elif k == 2:
        e = rng.randint(0, 6, size=m).astype(float)
        e[0] += 1
    elif k == 3:
        r = rng.randint(1, m + 1)
        e = np.r_[rng.rand(r) + 0.5, 1e-16 * rng.rand(m - r)]
    else:
        e = np.linspace(m, 1, m) + 0.3 * rng.rand(m)
    if chance(rng, 0.25):
        e = e * 10.0 ** rng.uniform(-24, 12)
    return np.sort(e)[::-1].reshape(m, 1)


@family('S05', 300, 6000)
def s05_criteria(mon, rng):
    m = gen.sizes(rng, 2, 10, 30)
    e = spectrum(rng, m)
    sub = rng.rand(m - 1, 1) * gen.logu(rng, -3, 0)
    li = np.vstack((np.zeros((1, 1)), rng.rand(m - 1, 1)))
    li = li / li.sum()
    mon.input(nontrivial=m > 2, e=e, sub=sub, li=li)
    with mon.guard('eig_partition'):
        n, gap = ss.eig_partition(layout(rng, e))
    gaps = np.array([e[i, 0] - e[i + 1, 0] for i in range(m - 1)])
    mon.check(n == int(n) and 1 <= n <= m - 1, 'EVG:range', n=n, m=m)
    mon.close(np.ravel(gap), gaps, 'EVG:reported gaps', rtol=1e-12, scale=e)
    mon.check(gaps[n - 1] >= gaps.max() - 1e-13 * e[0, 0], 'EVG:largest gap', n=n, gaps=gaps)
    if np.sum(gaps >= gaps.max() - 1e-13 * e[0, 0]) > 1 and np.all(e == np.round(e)):
        mon.check(n - 1 == int(np.flatnonzero(gaps == gaps.max())[0]), 'EVG:first of equal gaps', n=n, gaps=gaps)
    with mon.guard('errbnd_partition'):
        n, bnd = ss.errbnd_partition(layout(rng, e), layout(rng, sub))
    want = np.array([np.sqrt(sum(e[:k, 0])) * sub[k - 1, 0] + np.sqrt(sum(e[k:, 0])) for k in range(1, m)])
    mon.close(np.ravel(bnd), want, 'RS:reported bounds', rtol=1e-12)
    mon.check(1 <= n <= m - 1 and want[n - 1] <= want.min() * (1 + 1e-12), 'RS:smallest bound', n=n, want=want)
    with mon.guard('ladle_partition'):
        n, G = ss.ladle_partition(layout(rng, e), layout(rng, li))
    want = np.array([li[k, 0] + e[k, 0] / e.sum() for k in range(m)])
    mon.close(np.ravel(G), want, 'LI:reported ladle', rtol=1e-12)
    k = int(np.argmin(want))
    if np.sort(want)[1] - want[k] > 1e-12:
        mon.check(n == max(k, 1), 'LI:minimizer of the ladle', n=n, want=want)
    mon.check(1 <= n <= m - 1, 'LI:range', n=n, m=m)


@family('S05', 120, 2500)
def s05_compute_uses_criterion(mon, rng):
    m, M = gen.sizes(rng, 2, 7), gen.sizes(rng, 8, 60)
    V = gen.orth(rng, m)
    df = np.dot(rng.normal(size=(M, m)) * 10.0 ** rng.uniform(-2, 1, size=(1, m)), V)
    if chance(rng, 0.25):
        df = df * 10.0 ** rng.uniform(-12, 8)
    ptype = ['EVG', 'RS', 'default'][rng.randint(3)]
    mon.input(df=df, p=ptype)
    s = ss.Subspaces()
    kw = {} if ptype == 'default' else dict(ptype=ptype)
    if ptype == 'RS' or chance(rng, 0.4):
        kw['nboot'] = int(rng.randint(1, 12))
    with mon.guard('compute ' + ptype):
        s.compute(df=df, **kw)
    e = s.eigenvals
    n = s.W1.shape[1]
    if ptype == 'RS':
        c = np.array([np.sqrt(sum(e[:k, 0])) * s.sub_br[k - 1, 1] + np.sqrt(sum(e[k:, 0])) for k in range(1, m)])
        mon.check(c[n - 1] <= c.min() * (1 + 1e-10), 'compute RS: smallest bound', n=n, c=c)
    else:
        g = -np.diff(e[:, 0])
        mon.check(n <= m - 1 and g[n - 1] >= g.max() - 1e-12 * e[0, 0], 'compute EVG: largest gap', n=n, g=g)


@family('S05', 80, 1500)
def s05_low_rank(mon, rng):
    """Gradients that span exactly r < m directions: RS and LI must find r."""
    m = gen.sizes(rng, 3, 8)
    r = int(rng.randint(1, m))
    M = int(rng.randint(60, 120))
    lam = 2.0 ** -np.arange(r) * gen.logu(rng, -2, 2)
    V = gen.orth(rng, m)[:r]
    df = np.dot(rng.normal(size=(M, r)) * np.sqrt(lam), V)
    nb = int(rng.randint(5, 25))
    mon.input(df=df, r=r)
    if r == m - 1 and False:
        raise Skip()
    for ptype in ('RS', 'LI'):
        s = ss.Subspaces()
        with mon.guard('compute low rank ' + ptype):
            s.compute(df=df, nboot=nb, ptype=ptype)
        mon.check(s.W1.shape[1] == r, 'low rank:%s finds the rank' % ptype, n=s.W1.shape[1], r=r, m=m)
        mon.event('rank %d of %d' % (r, m))


# ---------------------------------------------------------------------------------------------------------------- S06
about('S06', """bootstrap ranges from a single replicate must coincide with one of all possible resamples with replacement,
 enumerated; their frequencies, and the mean over many replicates, are tested against the enumeration.""")


def subspace_dist(W, V):
    m = W.shape[0]
    return np.array([np.sqrt(max(0.0, 1 - np.linalg.svd(np.dot(W[:, :k].T, V[:, :k]), compute_uv=False).min() ** 2))
                     for k in range(1, m)])


@family('S06', 150, 3000)
def s06_ranges_sane(mon, rng):
    m, M = gen.sizes(rng, 2, 7), gen.sizes(rng, 20, 60)
    X = rng.uniform(-1, 1, size=(M, m))
    f = np.exp(np.dot(X, rng.normal(size=(m, 1)) * 0.7)) + X[:, :1] ** 2
    df = rng.normal(size=(M, m)) * 2.0 ** -np.arange(m)
    st = ['AS', 'OLS', 'QPHD', 'OPG'][rng.randint(4)]
    if st == 'QPHD':
        X, f, df = [np.vstack((a, a[::-1] * 0.9, a * 0.7)) for a in (X, f, df)]
        M = X.shape[0]
    if st == 'OPG':
        m = min(m, 4)
        X, df = X[:, :m], df[:, :m]
        M2 = 40
        X, f, df = np.vstack((X, rng.uniform(-1, 1, size=(M2, m)))), np.vstack((f, rng.rand(M2, 1))), \
            np.vstack((df, rng.normal(size=(M2, m))))
        M += M2
    nb = [1, 2, 3, 10, 30][rng.randint(5)]
    w = None if chance(rng, 0.5) else gen.weights(rng, M) + 0.01
    mon.input(X=X, f=f, st=st, nb=nb)
    s = ss.Subspaces()
    kw = dict(X=X, f=f, df=df) if chance(rng, 0.5) else (dict(df=df) if st == 'AS' else dict(X=X, f=f))
    with mon.guard('bootstrap ' + st, nb=nb):
        s.compute(weights=w, sstype=st, nboot=nb, **kw)
    mon.event('replicates', nb)
    b, d = s.e_br, s.sub_br
    mon.shape(b, (m, 2), 'ranges:e_br shape')
    mon.shape(d, (m - 1, 3), 'ranges:sub_br shape')
    mon.check(np.all(np.isfinite(b)) and np.all(np.isfinite(d)), 'ranges:finite', st=st)
    mon.check(np.all(b[:, 0] <= b[:, 1]) and np.all(b >= 0), 'ranges:eigenvalue bounds ordered', b=b)
    mon.check(np.all(np.diff(b, axis=0) <= 1e-14), 'ranges:bounds descend with the eigenvalues', b=b)
    t = 1e-12
    mon.check(np.all(d[:, 0] <= d[:, 1] + t) and np.all(d[:, 1] <= d[:, 2] + t), 'ranges:low <= mean <= high', d=d)
    mon.check(np.all(d >= 0) and np.all(d <= 1 + 1e-9), 'ranges:distances in [0,1]', d=d)
    if nb == 1:
        mon.close(b[:, 0], b[:, 1], 'ranges:one replicate has zero width', rtol=1e-14)
        mon.close(d[:, 0], d[:, 2], 'ranges:one replicate has zero width (subspace)', rtol=1e-14)
    elif st == 'AS':
        mon.check(np.any(b[:, 0] < b[:, 1]), 'ranges:replicates differ', b=b)


def est(st, X, f, df, w):
    if st == 'AS':
        return ss.active_subspace(df, w)
    if st == 'OLS':
        return ss.ols_subspace(X, f, w)
    return ss.qphd_subspace(X, f, w)


@family('S06', 24, 200)
def s06_enumerated(mon, rng):
    st = 'AS'
    m = int(rng.randint(2, 5))
    M = int(rng.randint(3, 5))
    X, f, df = rng.uniform(-1, 1, size=(M, m)), rng.normal(size=(M, 1)), rng.normal(size=(M, m))
    w = None if chance(rng, 0.3) else rng.rand(M, 1) + 0.05
    wo = np.ones((M, 1)) / M if w is None else w
    mon.input(X=X, f=f, df=df, st=st)
    kw = dict(df=df) if st == 'AS' else dict(X=X, f=f)
    full = ss.Subspaces()
    with mon.guard('compute'):
        full.compute(weights=w, sstype=st, **kw)
    table = {}
    for ind in itertools.product(range(M), repeat=M):
        key = tuple(sorted(ind))
        if key in table:
            table[key][0] += 1
            continue
        i = list(ind)
        e, V = est(st, X[i], f[i], df[i], wo[i])
        table[key] = [1, e[:, 0], subspace_dist(full.eigenvecs, V)]
    keys = sorted(table)
    E = np.array([table[k][1] for k in keys])
    D = np.array([table[k][2] for k in keys])
    P = np.array([table[k][0] for k in keys]) / float(M ** M)
    sc = E.max()
    # eigenvalues that determine the replicate; degenerate replicates may leave subspaces undefined
    good = np.array([all((table[k][1][j] - table[k][1][j + 1]) > 1e-8 * sc for j in range(m - 1)) for k in keys])
    hits = np.zeros(len(keys))
    T = 400
    for t in range(T):
        s = ss.Subspaces()
        with mon.guard('bootstrap single replicate'):
            s.compute(weights=w, sstype=st, nboot=1, **kw)
        v, d = s.e_br[:, 0], s.sub_br[:, 1]
        err = np.abs(E - v).max(1)
        j = int(err.argmin())
        if not mon.check(err[j] <= 1e-8 * sc, 'bootstrap:replicate is a resample of the data rows', v=v, st=st):
            return
        hits[j] += 1
        if good[j]:
            mon.close(d, D[j], 'bootstrap:subspace distance of the replicate', atol=2e-7)
    # distinct multisets with equal spectra are merged before counting
    order = np.lexsort(E.T[::-1])
    groups, cur = [], [order[0]]
    for a in order[1:]:
        if np.abs(E[a] - E[cur[0]]).max() <= 4e-8 * sc:
            cur.append(a)
        else:
            groups.append(cur)
            cur = [a]
    groups.append(cur)
    for g in groups:
        p, h = P[g].sum(), hits[g].sum()
        if p < 1 - 1e-9:
            z = abs(h - T * p) / np.sqrt(T * p * (1 - p) + 1)
            mon.check(z < 8.5, 'bootstrap:resampling frequencies', p=p, h=h, T=T)
    mon.event('distinct replicates seen', int((hits > 0).sum()))
    # many replicates: extremes and mean
    nb = 600
    s = ss.Subspaces()
    with mon.guard('bootstrap'):
        s.compute(weights=w, sstype=st, nboot=nb, **kw)
    mon.check(np.all(s.e_br[:, 0] >= E.min(0) - 1e-8 * sc) and np.all(s.e_br[:, 1] <= E.max(0) + 1e-8 * sc),
              'bootstrap:ranges within the possible', e_br=s.e_br)
    likely = P > 0.05
    if likely.any():
        mon.check(np.all(s.e_br[:, 0] <= E[likely].min(0) + 1e-8 * sc)
                  and np.all(s.e_br[:, 1] >= E[likely].max(0) - 1e-8 * sc), 'bootstrap:ranges reach the frequent values',
                  e_br=s.e_br)
    if good.all():
        mu = np.dot(P, D)
        sd = np.sqrt(np.maximum(np.dot(P, D ** 2) - mu ** 2, 0) / nb)
        mon.check(np.all(np.abs(s.sub_br[:, 1] - mu) <= 8 * sd + 1e-6), 'bootstrap:mean subspace distance',
                  got=s.sub_br[:, 1], want=mu)


@family('S06', 10, 100)
def s06_extremes(mon, rng):
    """So many replicates that every resample occurs: the ranges end exactly at the extremes."""
    m, M = int(rng.randint(2, 4)), int(rng.randint(3, 5))
    df = rng.normal(size=(M, m)) * 10.0 ** rng.uniform(-1, 1, size=(M, 1))
    w = None if chance(rng, 0.5) else rng.rand(M, 1) + 0.05
    wo = np.ones((M, 1)) / M if w is None else w
    mon.input(df=df, w=wo)
    full = ss.Subspaces()
    nb = 6500                                    # (1 - 4^-4)^6500 < 1e-11
    with mon.guard('bootstrap'):
        full.compute(df=df, weights=w, nboot=nb)
    E, D, ok = [], [], True
    for ind in itertools.combinations_with_replacement(range(M), M):
        i = list(ind)
        e, V = est('AS', None, None, df[i], wo[i])
        E.append(e[:, 0])
        if np.all(-np.diff(e[:, 0]) > 1e-8 * e[0, 0]):
            D.append(subspace_dist(full.eigenvecs, V))
        else:
            ok = False                           # its eigenvectors are not determined
    E = np.array(E)
    mon.close(full.e_br[:, 0], E.min(0), 'bootstrap:smallest eigenvalues over all resamples', atol=1e-9 * E.max())
    mon.close(full.e_br[:, 1], E.max(0), 'bootstrap:largest eigenvalues over all resamples', atol=1e-9 * E.max())
    if D:
        D = np.array(D)
        lo, hi = D.min(0), D.max(0)
        mon.check(np.all(full.sub_br[:, 0] <= lo + 1e-6) and (not ok or np.all(full.sub_br[:, 0] >= lo - 1e-6)),
                  'bootstrap:smallest subspace error over all resamples', got=full.sub_br[:, 0], want=lo)
        mon.check(np.all(full.sub_br[:, 2] >= hi - 1e-6) and (not ok or np.all(full.sub_br[:, 2] <= hi + 1e-6)),
                  'bootstrap:largest subspace error over all resamples', got=full.sub_br[:, 2], want=hi)


class Observed(object):
    """Records the eigenpairs the estimators return while active, wherever the library refers to them."""

    def __init__(self, st):
        self.name = {'AS': 'active_subspace', 'OLS': 'ols_subspace', 'QPHD': 'qphd_subspace', 'OPG': 'opg_subspace'}[st]
        self.pairs = []

    def __enter__(self):
        self.old = getattr(ss, self.name)

        def fun(*a, **kw):
            r = self.old(*a, **kw)
            self.pairs.append((np.array(r[0], copy=True).ravel(), np.array(r[1], copy=True)))
            return r
        setattr(ss, self.name, fun)
        return self

    def __exit__(self, *a):
        setattr(ss, self.name, self.old)


@family('S06', 60, 900)
def s06_observed_replicates(mon, rng):
    """The ranges are those of the replicates that were computed, however many."""
    st = ['AS', 'AS', 'QPHD', 'OLS', 'OPG'][rng.randint(5)]
    m, M, X, f, df, w = boot_data(rng, st, 300, most=25)
    nb = int(rng.randint(1, [40, 400, 1200][rng.randint(3)] if st != 'OPG' else 12))
    mon.input(X=X if X is not None else df, f=f if f is not None else 0, w=w if w is not None else 0, st=st, nb=nb)
    s = ss.Subspaces()
    with mon.guard('bootstrap ' + st), Observed(st) as ob:
        s.compute(X=X, f=f, df=df, weights=w, sstype=st, nboot=nb)
    if len(ob.pairs) != nb + 1:
        raise Skip('replicates not observed')             # another way to compute them
    E = np.array([e for e, V in ob.pairs[1:]])
    D = np.array([subspace_dist(s.eigenvecs, V) for e, V in ob.pairs[1:]])
    sc = E.max()
    mon.close(s.e_br[:, 0], E.min(0), 'observed:lower ends are the smallest eigenvalues', atol=1e-12 * sc, nb=nb)
    mon.close(s.e_br[:, 1], E.max(0), 'observed:upper ends are the largest eigenvalues', atol=1e-12 * sc, nb=nb)
    for j, (name, want) in enumerate((('smallest', D.min(0)), ('mean', D.mean(0)), ('largest', D.max(0)))):
        mon.close(s.sub_br[:, j], want, 'observed:%s distance' % name, atol=3e-7, nb=nb)
    mon.event('replicates observed', nb)


@family('S05', 60, 800)
def s05_ladle_observed(mon, rng):
    """Li's criterion from the replicates that were computed: few or many, of gradients in any units."""
    st = ['AS', 'AS', 'AS', 'QPHD'][rng.randint(4)]
    m, M, X, f, df, w = boot_data(rng, st, 300, most=20)
    if st == 'AS' and chance(rng, 0.5):
        if chance(rng, 0.5):
            df = rng.normal(size=(M, m)) * 10.0 ** -np.cumsum(rng.uniform(0, 2.0, size=m) * (rng.rand(m) < 0.5))
        else:                                              # replicates that hardly differ
            m = int(rng.randint(3, 5))
            df = rng.normal(size=(M, m)) * 10.0 ** -np.cumsum(rng.uniform(1.5, 2.5, size=m))
    if st == 'AS':
        df = df * 10.0 ** rng.uniform(-6, 6)
    nb = int(rng.randint(1, [12, 150][rng.randint(2)]))
    mon.input(X=X if X is not None else df, f=f if f is not None else 0, w=w if w is not None else 0, st=st, nb=nb)
    s = ss.Subspaces()
    with mon.guard('ladle ' + st), Observed(st) as ob:
        s.compute(X=X, f=f, df=df, weights=w, sstype=st, nboot=nb, ptype='LI')
    if len(ob.pairs) != nb + 1:
        raise Skip('replicates not observed')             # another way to compute them
    e, W = s.eigenvals.ravel(), s.eigenvecs
    F = np.zeros(m)
    for k in range(1, m):
        F[k] = np.mean([1.0 - abs(np.linalg.det(np.dot(W[:, :k].T, V[:, :k]))) for l, V in ob.pairs[1:]])
    if not F.sum() > 1e-9:
        raise Skip('replicates that do not differ')
    G = F / F.sum() + e / e.sum()
    k, two = int(np.argmin(G)), np.sort(G)[:2]
    if two[1] - two[0] < 1e-5 or k == 0:
        raise Skip('no clear minimum')
    mon.check(s.W1.shape[1] == k, 'ladle:minimizer over the replicates computed', n=s.W1.shape[1], k=k, G=G)
    mon.event('ladle at %d of %d' % (k, m))


def replicate_table(st, X, f, df, w, W, R, rng):
    """Our own R bootstrap replicates: eigenvalues (R, m), subspace distances (R, m-1), |determinants| (R, m-1)."""
    M, m = (df if st == 'AS' else X).shape
    if st == 'AS':
        C = np.empty((R, m, m))
        for r in range(R):
            c = np.bincount(rng.randint(M, size=M), minlength=M)
            C[r] = np.dot((df * (c * w[:, 0])[:, None]).T, df)
        e, V = np.linalg.eigh(C)
        e, V = np.abs(e[:, ::-1]), V[:, :, ::-1]
    else:
        e, V = np.empty((R, m)), np.empty((R, m, m))
        for r in range(R):
            i = rng.randint(M, size=M)
            a, b = est(st, X[i], f[i], None, w[i])
            e[r], V[r] = a[:, 0], b
    P = np.matmul(W.T, V)
    D = np.array([np.linalg.svd(P[:, :k, k:], compute_uv=False)[:, 0] for k in range(1, m)]).T
    G = np.array([np.abs(np.linalg.det(P[:, :k, :k])) for k in range(1, m)]).T
    return e, D, G


def boot_data(rng, st, big, least=2, most=6):
    m = int(rng.randint(least, 6)) if most == 6 or chance(rng, 0.7) else int(rng.randint(6, most))
    if st == 'AS':
        M = int(round(gen.logu(rng, 1, np.log10(big))))
        df = rng.normal(size=(M, m)) * 10.0 ** -rng.uniform(0, 1.2, size=m)
        df = np.dot(df, gen.orth(rng, m))
        X = f = None
    else:
        m = min(m, 4)
        M = int(rng.randint(30, 80))
        X, df = rng.uniform(-1, 1, size=(M, m)), None
        f = np.exp(np.dot(X, rng.normal(size=(m, 1)) * 0.6)) + rng.normal() * X[:, :1] ** 2 + 0.2 * rng.normal(size=(M, 1))
    w = None if chance(rng, 0.4) else gen.weights(rng, M) + 1e-3
    return m, M, X, f, df, w


@family('S06', 40, 500)
def s06_statistics(mon, rng):
    """Many replicates of many samples: ranges and mean distances against replicates of our own."""
    st = ['AS', 'AS', 'QPHD', 'OLS'][rng.randint(4)]
    m, M, X, f, df, w = boot_data(rng, st, 3000)
    wo = np.ones((M, 1)) / M if w is None else w
    nb, R = int(rng.randint(100, 260)), 1200 if st == 'AS' else 400
    mon.input(X=X if X is not None else df, f=f if f is not None else 0, w=wo, st=st, nb=nb)
    s = ss.Subspaces()
    with mon.guard('bootstrap ' + st):
        s.compute(X=X, f=f, df=df, weights=w, sstype=st, nboot=nb)
    e, D, G = replicate_table(st, X, f, df, wo, s.eigenvecs, R, rng)
    mon.event('replicates', nb)
    mon.event('M above 1000', int(M > 1000))
    keep = 1 if st == 'OLS' else m      # only the first eigenpair of a rank-one matrix is determined
    t = 1 - (1e-12) ** (1.0 / nb)       # fraction of replicates that nb replicates do not exceed, at most
    t += 6 * np.sqrt(t * (1 - t) / R)
    sc = e.max()
    lo = np.mean(e[:, :keep] < s.e_br[:keep, 0] - 1e-9 * sc, axis=0)
    hi = np.mean(e[:, :keep] > s.e_br[:keep, 1] + 1e-9 * sc, axis=0)
    mon.check(np.all(lo <= t) and np.all(hi <= t), 'statistics:range covers the replicates', lo=lo, hi=hi, t=t, st=st)
    width = e[:, :keep].max(0) - e[:, :keep].min(0)
    mon.check(st != 'AS' or np.all(s.e_br[:keep, 0] >= e[:, :keep].min(0) - 3 * width - 1e-9 * sc)
              and np.all(s.e_br[:keep, 1] <= e[:, :keep].max(0) + 3 * width + 1e-9 * sc),
              'statistics:range of the right size', e_br=s.e_br, width=width, st=st)
    j = slice(0, 1 if st == 'OLS' else m - 1)
    mu, sd = D[:, j].mean(0), D[:, j].std(0)
    err = np.abs(s.sub_br[j, 1] - mu)
    mon.check(np.all(err <= 8 * sd * np.sqrt(1.0 / nb + 1.0 / R) + 1e-6), 'statistics:mean subspace distance', err=err, sd=sd,
              nb=nb, M=M, st=st)


@family('S05', 60, 900)
def s05_ladle_statistics(mon, rng):
    """Li's criterion with many replicates, against a ladle from replicates of our own, where it is decided clearly."""
    m, M, X, f, df, w = boot_data(rng, 'AS', 500, 3)
    wo = np.ones((M, 1)) / M if w is None else w
    e, W = est('AS', None, None, df, wo)
    nb = 150
    ev, D, G = replicate_table('AS', None, None, df, wo, W, 12 * nb, rng)
    F = 1 - G.reshape(12, nb, m - 1).mean(1)
    F = np.hstack((np.zeros((12, 1)), F))
    L = F / F.sum(1, keepdims=True) + e[:, 0] / e.sum()
    mean, sd = L.mean(0), L.std(0)
    k = int(np.argmin(mean))
    other = np.arange(m) != k
    if np.any(mean[other] - mean[k] < 9 * (sd[other] + sd[k]) + 1e-3):
        raise Skip('not decided clearly')
    mon.input(df=df, w=wo)
    s = ss.Subspaces()
    with mon.guard('compute LI'):
        s.compute(df=df, weights=w, nboot=nb, ptype='LI')
    mon.event('ladle at %d of %d' % (k, m))
    mon.check(s.W1.shape[1] == max(k, 1), 'ladle:minimizer over replicates', n=s.W1.shape[1], k=k, mean=mean, sd=sd)


@family('S06', 60, 1200)
def s06_degenerate_data(mon, rng):
    """Where every resample gives the same answer the ranges have zero width."""
    m, M = gen.sizes(rng, 2, 5), gen.sizes(rng, 45, 70)
    X = rng.uniform(-1, 1, size=(M, m))
    a = rng.normal(size=(m, 1))
    f = np.dot(X, a) + 1
    mon.input(X=X, a=a)
    k = rng.randint(4)
    s = ss.Subspaces()
    nb = int(rng.randint(2, 15))
    if k == 3:
        # samples of weight zero carry garbage: rows, outputs and weights must be drawn together
        X = np.vstack((X, rng.uniform(-1, 1, size=(M, m)), rng.uniform(-1, 1, size=(M, m))))
        w = np.zeros((3 * M, 1))
        w[rng.permutation(3 * M)[:2 * M]] = 1.0
        w = w * (rng.rand(3 * M, 1) + 0.2)
        st = ['OLS', 'QPHD', 'AS'][rng.randint(3)]
        Y = np.dot(X, a / np.linalg.norm(a))
        f = Y + 1.0 if st == 'OLS' else Y ** 2 + 0.2 * Y
        df = np.tile(a.T, (3 * M, 1))
        bad = w[:, 0] == 0
        f[bad] = rng.normal(size=(bad.sum(), 1)) * 5
        df[bad] = rng.normal(size=(bad.sum(), m)) * 5
        with mon.guard('bootstrap with zero weights ' + st):
            s.compute(X=X, f=f, df=df, weights=w, sstype=st, nboot=nb)
        mon.check(np.all(s.sub_br[0] < 1e-5), 'bootstrap:rows and weights drawn together', d=s.sub_br, st=st)
        mon.check(np.all(s.e_br[1:] < 1e-8 * s.eigenvals[0]), 'bootstrap:zero-weight rows never count', e=s.e_br, st=st)
        return
    if k == 0:
        with mon.guard('bootstrap OLS'):
            s.compute(X=X, f=f, sstype='OLS', nboot=nb, weights=None if chance(rng, .5) else gen.weights(rng, M) + .01)
        lam = np.dot(a.T, a)[0, 0]
        rows = 1
    elif k == 1:
        g = rng.normal(size=(1, m))
        with mon.guard('bootstrap AS constant gradient'):
            s.compute(df=np.tile(g, (M, 1)), nboot=nb)
        lam = np.dot(g, g.T)[0, 0]
        rows = 1
    else:
        r = int(rng.randint(1, m))
        V = gen.orth(rng, m)[:r]
        with mon.guard('bootstrap AS low rank'):
            s.compute(df=np.dot(rng.normal(size=(M, r)), V), nboot=nb)
        mon.check(np.all(s.sub_br[r - 1] < 1e-6), 'bootstrap:span of low-rank gradients is certain', d=s.sub_br, r=r)
        mon.check(np.all(s.e_br[r:] < 1e-10), 'bootstrap:null eigenvalues are certain', e=s.e_br)
        return
    mon.close(s.e_br[0], np.array([lam, lam]), 'bootstrap:certain eigenvalue', rtol=1e-8)
    mon.check(np.all(s.sub_br[0] < 1e-6), 'bootstrap:certain direction', d=s.sub_br)


# ---------------------------------------------------------------------------------------------------------------- S07
about('S07', """functions built as g(A^T x) with a known A: whatever gradient route and estimator applies, the estimated active
 subspace must be the span of A and the remaining eigenvalues must vanish.""")


def ridge(rng, m, r):
    A = gen.orth(rng, m)[:, :r] * gen.logu(rng, -1, 1)
    k = rng.randint(4)
    c = rng.uniform(0.5, 1.5, size=r)
    d = rng.uniform(-1, 1, size=r)
    s = np.linalg.norm(A[:, 0])
    A = A / s
    if k == 0:
        return A, lambda y: np.sum(c * y * y + d * y), lambda y: 2 * c * y + d
    if k == 1:
        return A, lambda y: np.sum(np.sin(c * y + d)), lambda y: c * np.cos(c * y + d)
    if k == 2:
        return A, lambda y: np.sum(np.exp(c * y)), lambda y: c * np.exp(c * y)
    return A, lambda y: np.prod(1 + 0.3 * c * y) + np.sum(y ** 3), \
        lambda y: 0.3 * c * np.prod(1 + 0.3 * c * y) / (1 + 0.3 * c * y) + 3 * y ** 2


def check_span(mon, s, A, label, tol):
    r = A.shape[1]
    s.partition(r)
    R = A - np.dot(s.W1, np.dot(s.W1.T, A))
    mon.check(np.abs(R).max() <= tol, label + ':span of the active subspace', resid=np.abs(R).max(), e=s.eigenvals)
    mon.check(s.eigenvals[r:].size == 0 or s.eigenvals[r:].max() <= tol * s.eigenvals[0, 0],
              label + ':inactive eigenvalues vanish', e=s.eigenvals)
    if s.W2.size:
        mon.check(np.abs(np.dot(s.W2.T, A)).max() <= tol, label + ':inactive directions are flat')


@family('S07', 150, 3000)
def s07_gradient_routes(mon, rng):
    m = gen.sizes(rng, 2, 8, 14)
    r = int(rng.randint(1, min(m, 4) + 1))
    A, g, dg = ridge(rng, m, r)
    M = gen.sizes(rng, 6 * r + 4, 60)
    X = rng.uniform(-1, 1, size=(M, m)) if chance(rng, 0.5) else rng.normal(size=(M, m)) * 0.7
    fun = lambda x: g(np.dot(x, A).ravel())
    dfun = lambda x: np.dot(A, dg(np.dot(x, A).ravel())).reshape(1, m)
    mon.input(X=X, A=A)
    D = np.array([dfun(x.reshape(1, m))[0] for x in X])
    sv = np.linalg.svd(D, compute_uv=False)
    if sv[r - 1] < 0.03 * sv[0]:
        raise Skip('direction hardly active')
    s = ss.Subspaces()
    w = None if chance(rng, 0.5) else rng.rand(M, 1) + 0.05
    if chance(rng, 0.5):
        with mon.guard('gradient runner route'):
            df = SimulationGradientRunner(dfun).run(layout(rng, X))
            s.compute(df=df, weights=w)
        mon.close(df, D, 'runner gradients', rtol=1e-13)
        check_span(mon, s, A, 'exact gradients', 1e-5)
    else:
        h = 10.0 ** rng.uniform(-7, -5)
        with mon.guard('finite difference route'):
            df = gr.finite_difference_gradients(layout(rng, X), fun if chance(rng, .5) else SimulationRunner(fun), h=h)
            s.compute(df=df, weights=w)
        check_span(mon, s, A, 'finite differences', 1e-2)


@family('S07', 120, 2500)
def s07_model_routes(mon, rng):
    """Linear functions by OLS/OPG, quadratic ones by QPHD: recovered from input/output pairs alone."""
    m = gen.sizes(rng, 2, 6)
    st = ['OLS', 'QPHD', 'OPG'][rng.randint(3)]
    P = (m + 1) * (m + 2) // 2
    M = gen.sizes(rng, P + 10, P + 60)
    X = rng.uniform(-1, 1, size=(M, m)) * rng.choice([1.0, 2.0])
    w = None if chance(rng, 0.4) else rng.rand(M, 1) + 0.1
    if st == 'QPHD':
        r = int(rng.randint(1, m + 1))
        A = gen.orth(rng, m)[:, :r]
        Y = np.dot(X, A)
        f = (Y ** 2 * rng.choice([-1, 1], size=r) * rng.uniform(0.5, 2, size=r)).sum(1, keepdims=True) \
            + np.dot(Y, rng.normal(size=(r, 1))) + 2
    else:
        r = 1
        A = gen.orth(rng, m)[:, :1]
        f = 3 * np.dot(X, A) - 1
    mon.input(X=X, f=f, st=st)
    s = ss.Subspaces()
    with mon.guard('model route ' + st):
        s.compute(X=layout(rng, X), f=layout(rng, f), weights=w, sstype=st)
    check_span(mon, s, A, st, 1e-6 if st != 'OPG' else 1e-3)


@family('S07', 80, 1500)
def s07_normalized_physical_model(mon, rng):
    """The whole front end: physical units, a normalizer, a runner, an estimator."""
    m = gen.sizes(rng, 2, 6)
    M = gen.sizes(rng, 30, 60)
    if chance(rng, 0.5):
        lb = rng.normal(size=(m, 1)) * 10
        ub = lb + gen.logu(rng, -1, 2) * (rng.rand(m, 1) + 0.2)
        nz = BoundedNormalizer(lb, ub)
        X = rng.uniform(lb.T, ub.T, size=(M, m))
        J = np.diag((ub - lb).ravel() / 2)
    else:
        B = rng.normal(size=(m, m)) + 2 * np.eye(m)
        C = np.dot(B, B.T)
        mu = rng.normal(size=(m, 1)) * 3
        nz = UnboundedNormalizer(mu, C)
        X = rng.multivariate_normal(mu.ravel(), C, size=M)
        J = np.linalg.cholesky(C)
    a = rng.normal(size=(m, 1)) / np.sqrt(np.diag(np.dot(J, J.T))).reshape(m, 1)
    mon.input(X=X, a=a)
    with mon.guard('front end'):
        XX = nz.normalize(X)
        F = SimulationRunner(lambda x: float(np.dot(nz.unnormalize(x), a)[0, 0])).run(XX)
        s = ss.Subspaces()
        s.compute(X=XX, f=F, sstype='OLS')
    u = np.dot(J.T, a)
    mon.close(F, np.dot(X, a), 'front end:outputs at the physical points', rtol=1e-9,
              scale=np.abs(X).max() * np.abs(a).max() * m)
    check_span(mon, s, u / np.linalg.norm(u), 'front end', 1e-6)
