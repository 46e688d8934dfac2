"""O01..O04: linear/quadratic programs and minimization with active subspaces."""
import os

import numpy as np
import scipy.optimize as scopt

from active_subspaces import domains as dm
from active_subspaces import optimizers as op
from active_subspaces import subspaces as ss
from active_subspaces import response_surfaces as rs
from active_subspaces.utils import qp_solver as qp
from active_subspaces.utils import designs as dn
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation

from .core import family, about, Skip, Inconclusive
from . import gen
from . import gurobi_stub
from .gen import chance, layout

class Interposed(object):
    """Replaces functions of scipy.optimize, wherever the library refers to them, while active."""

    def __init__(self, **make):
        self.make = make

    def __enter__(self):
        self.undo = []
        for name, make in self.make.items():
            old = getattr(scopt, name)
            new = make(old)
            for mod in (scopt, op, qp, dn):
                for k, v in list(vars(mod).items()):
                    if v is old:
                        setattr(mod, k, new)
                        self.undo.append((mod, k, old))
        return self

    def __exit__(self, *a):
        for mod, k, v in self.undo:
            setattr(mod, k, v)


# ------------------------------------------------------------------------------------------------ programs with known answers


def lp_eq(rng):
    """(c, A, b, lb, ub, x, unique): x optimal by construction of the multipliers."""
    n = int(rng.randint(1, 9))
    M = int(rng.randint(0, n)) if n > 1 else 0
    M = max(M, 1) if n > 1 else 1
    A = rng.normal(size=(M, n))
    lb = rng.uniform(-3, 1, size=(n, 1))
    ub = lb + rng.uniform(0.2, 4, size=(n, 1))
    if chance(rng, 0.2):
        lb, ub = -np.ones((n, 1)), np.ones((n, 1))
    if chance(rng, 0.15):
        i = rng.randint(n)
        ub[i] = lb[i]
    t = rng.uniform(0.1, 0.9, size=(n, 1))
    k = rng.choice(n, size=max(n - M, 0), replace=False)    # nonbasic variables sit at a bound
    side = rng.randint(0, 2, size=n)
    mu = np.zeros((n, 1))
    for i in k:
        t[i] = side[i]
        mu[i] = rng.uniform(0.1, 2) * (1 if side[i] == 0 else -1)
    x = lb + t * (ub - lb)
    c = np.dot(A.T, rng.normal(size=(M, 1))) + mu
    s = gen.logu(rng, -3, 3) if chance(rng, 0.3) else 1.0
    if chance(rng, 0.05):                                 # any feasible point will do
        return c * 0, A, np.dot(A, x), lb, ub, x, n == M
    return c * s, A, np.dot(A, x), lb, ub, x, np.linalg.cond(A[:, [i for i in range(n) if i not in k]]) < 1e3


def lp_ineq(rng):
    n = int(rng.randint(1, 7))
    M = int(rng.randint(n, 3 * n + 3))
    A = rng.normal(size=(M, n))
    x = rng.normal(size=(n, 1)) * 2
    b = np.dot(A, x) - rng.uniform(0.1, 2, size=(M, 1))
    S = rng.choice(M, size=n, replace=False)
    b[S] = np.dot(A[S], x)
    lam = rng.uniform(0.1, 2, size=(n, 1))
    c = np.dot(A[S].T, lam)
    uniq = np.linalg.cond(A[S]) < 1e3
    if chance(rng, 0.05):
        c, uniq = c * 0, False
    A, b = parallel(rng, A, b)
    return c, A, b, x, uniq


def parallel(rng, A, b, most=5):
    """Some constraints again, in weaker or rescaled form, anywhere among the others."""
    if chance(rng, 0.6):
        return A, b
    i = rng.randint(len(A), size=rng.randint(1, most + 1))
    A, b = np.vstack((A, A[i])), np.vstack((b, b[i] - rng.uniform(0, 2, size=(i.size, 1)) * (rng.rand(i.size, 1) < 0.7)))
    s = np.where(rng.rand(len(A), 1) < 0.3, 2.0 ** rng.randint(-2, 3, size=(len(A), 1)), 1.0)
    p = rng.permutation(len(A))
    return (A * s)[p], (b * s)[p]


def psd(rng, n):
    V = gen.orth(rng, n)
    Q = np.dot(V * 10.0 ** rng.uniform(-0.7, 0.7, size=n), V.T)
    if chance(rng, 0.4):                                  # the same quadratic form written nonsymmetrically
        K = rng.normal(size=(n, n))
        Q = Q + (K - K.T)
    return Q


def qp_bnd(rng, nmax=7):
    n = int(rng.randint(1, nmax))
    Q = psd(rng, n)
    lb = rng.uniform(-3, 1, size=(n, 1))
    ub = lb + rng.uniform(0.2, 4, size=(n, 1))
    t = rng.uniform(0.05, 0.95, size=(n, 1))
    k = rng.randint(0, 3, size=n)
    mu = np.zeros((n, 1))
    for i in range(n):
        if k[i] < 2:
            t[i] = k[i]
            mu[i] = rng.uniform(0.05, 2) * (1 if k[i] == 0 else -1)
    x = lb + t * (ub - lb)
    if chance(rng, 0.1):                                  # no linear part
        Q = np.diag(10.0 ** rng.uniform(-0.7, 0.7, size=n))
        if chance(rng, 0.5):
            K = rng.normal(size=(n, n))
            Q = Q + (K - K.T)
        return np.zeros((n, 1)), Q, lb, ub, np.clip(0.0, lb, ub)
    return mu - np.dot(Q + Q.T, x), Q, lb, ub, x


def qp_ineq(rng, nmax=7, Mmax=30):
    n = int(rng.randint(1, nmax))
    M = int(rng.randint(1, min(3 * n + 3, Mmax)))
    Q = psd(rng, n)
    A = rng.normal(size=(M, n))
    x = rng.normal(size=(n, 1)) * rng.choice([0.3, 1.0, 3.0])
    b = np.dot(A, x) - rng.uniform(0.05, 2, size=(M, 1))
    S = rng.choice(M, size=int(rng.randint(0, min(M, n) + 1)), replace=False)
    b[S] = np.dot(A[S], x)
    c = np.dot(A[S].T, rng.uniform(0.05, 2, size=(len(S), 1))) - np.dot(Q + Q.T, x)
    A, b = parallel(rng, A, b, 2 if Mmax < 10 else 5)
    return c, Q, A, b, x


def check_lp(mon, c, x, want, feas, unique, label, tol):
    if not mon.shape(x, want.shape, label + ':shape'):
        return
    mon.check(feas(x) <= tol * (1 + np.abs(want).max()), label + ':feasible', infeasibility=feas(x), x=x)
    mon.close(np.dot(c.T, x), np.dot(c.T, want), label + ':optimal value', scale=np.abs(c) * (1 + np.abs(want)),
              rtol=tol * len(c), x=x, minimizer=want)
    if unique:
        mon.close(x, want, label + ':minimizer', atol=max(1e-5, 1e3 * tol) * (1 + np.abs(want).max()))


def obj(c, Q, x):
    return np.dot(c.T, x) + np.dot(x.T, np.dot(Q, x))


def check_qp(mon, c, Q, x, want, feas, label, tol):
    if not mon.shape(x, want.shape, label + ':shape'):
        return
    mon.check(feas(x) <= 10 * tol * (1 + np.abs(want).max()), label + ':feasible', infeasibility=feas(x), x=x)
    sc = 1 + np.abs(c).sum() + np.abs(Q).sum()
    sc = sc * (1 + np.abs(want).max()) ** 2
    mon.close(obj(c, Q, x), obj(c, Q, want), label + ':optimal value', atol=tol * sc, x=x, minimizer=want, c=c, Q=Q)
    mon.close(x, want, label + ':minimizer', atol=np.sqrt(tol * sc / 0.2) * 3)


def bnd_feas(lb, ub):
    return lambda x: max((lb - x).max(), (x - ub).max())


def run_programs(mon, rng, solver, exact):
    """The four programs on one QPSolver; the answers do not depend on what was solved before."""
    q = qp.QPSolver(solver)
    order = rng.permutation(4)
    tl, tq = 1e-7, (1e-8 if exact else 2e-6)
    nmax = 4 if exact else 7
    big = gen.logu(rng, 1, 4) if chance(rng, 0.25) else 1.0        # the same linear programs in smaller units
    for k in order:
        if k == 0:
            c, A, b, lb, ub, want, uniq = lp_eq(rng)
            if big > 1:
                b, lb, ub, want = b * big, lb * big, ub * big, want * big
            mon.input(c=c, A=A, b=b, lb=lb, ub=ub)
            with mon.guard('linear_program_eq'):
                x = q.linear_program_eq(c, layout(rng, A), b, lb, ub)
            f = bnd_feas(lb, ub)
            check_lp(mon, c, x, want, lambda x: max(f(x), np.abs(np.dot(A, x) - b).max()), uniq, 'LP eq', tl)
        elif k == 1:
            c, A, b, want, uniq = lp_ineq(rng)
            if big > 1:
                b, want = b * big, want * big
            mon.input(c=c, A=A, b=b)
            with mon.guard('linear_program_ineq'):
                x = q.linear_program_ineq(c, layout(rng, A), b)
            check_lp(mon, c, x, want, lambda x: (b - np.dot(A, x)).max(), uniq, 'LP ineq', tl)
        elif k == 2:
            c, Q, lb, ub, want = qp_bnd(rng, nmax)
            mon.input(c=c, Q=Q, lb=lb, ub=ub)
            with mon.guard('quadratic_program_bnd'):
                x = q.quadratic_program_bnd(c, layout(rng, Q), lb, ub)
            check_qp(mon, c, Q, x, want, bnd_feas(lb, ub), 'QP bnd', tq)
        else:
            c, Q, A, b, want = qp_ineq(rng, nmax, 9 if exact else 30)
            mon.input(c=c, Q=Q, A=A, b=b)
            with mon.guard('quadratic_program_ineq'):
                x = q.quadratic_program_ineq(c, layout(rng, Q), layout(rng, A), b)
            check_qp(mon, c, Q, x, want, lambda x: (b - np.dot(A, x)).max(), 'QP ineq', tq)
    return q


def refusals(mon, rng, solver):
    q = qp.QPSolver(solver)
    n = int(rng.randint(1, 5))
    c = rng.normal(size=(n, 1))
    c[0] = 1.0 + abs(c[0])
    lb, ub = -np.ones((n, 1)), np.ones((n, 1))
    mon.input(c=c)
    a = rng.uniform(0.5, 1, size=(1, n))
    mon.raises(lambda: q.linear_program_eq(c, a, np.array([[n + 1.0]]), lb, ub), 'infeasible LP eq refused')
    A = np.vstack((a, -a))
    mon.raises(lambda: q.linear_program_ineq(c, A, np.array([[1.0], [0.5]])), 'infeasible LP ineq refused')
    mon.raises(lambda: q.linear_program_ineq(c, -np.eye(n)[:1], np.zeros((1, 1))), 'unbounded LP ineq refused')
    Q = psd(rng, n)
    mon.raises(lambda: q.quadratic_program_ineq(c, Q, A, np.array([[1.0], [0.5]])), 'infeasible QP refused')
    d = gen.logu(rng, -3, 0)                              # almost feasible is not feasible
    mon.raises(lambda: q.linear_program_ineq(c, A, np.array([[1.0], [d - 1.0]])), 'nearly feasible LP ineq refused', gap=d)
    mon.raises(lambda: q.quadratic_program_ineq(c, Q, A, np.array([[1.0], [d - 1.0]])), 'nearly feasible QP refused', gap=d)
    mon.raises(lambda: q.linear_program_eq(c, a, np.array([[a.sum() + d]]), lb, ub), 'nearly feasible LP eq refused', gap=d)
    Z = np.zeros((1, n))                                  # 0 = d, 0 >= d
    mon.raises(lambda: q.linear_program_eq(c, np.vstack((Z, a)), np.array([[d], [0.0]]), lb, ub), 'impossible row of LP eq refused')
    mon.raises(lambda: q.linear_program_ineq(c, np.vstack((np.eye(n), Z)), np.r_[np.zeros((n, 1)), [[d]]]), 'impossible row of LP ineq refused')
    mon.raises(lambda: q.quadratic_program_ineq(c, Q, np.vstack((np.eye(n), Z)), np.r_[np.zeros((n, 1)), [[d]]]), 'impossible row of QP refused')
    q2 = qp.QPSolver(solver)
    q2.solver = 'NONE'
    for f in (lambda: q2.linear_program_eq(c, a, np.zeros((1, 1)), lb, ub), lambda: q2.linear_program_ineq(c, A, lb),
              lambda: q2.quadratic_program_bnd(c, Q, lb, ub), lambda: q2.quadratic_program_ineq(c, Q, A, lb)):
        mon.raises(f, 'unavailable solver refused', ValueError)


# ---------------------------------------------------------------------------------------------------------------- O01
about('O01', """programs are constructed backwards from a chosen minimizer and multipliers, so the optimal value is known
 without a solver; infeasible and unbounded programs must be refused.""")


@family('O01', 500, 10000)
def o01_known_programs(mon, rng):
    run_programs(mon, rng, rng.choice(['SCIPY', 'GUROBI', 'OTHER']), False)


@family('O01', 60, 1000)
def o01_refusals(mon, rng):
    refusals(mon, rng, 'SCIPY')
    q = qp.QPSolver()
    mon.check(q.solver == 'SCIPY', 'falls back to SciPy', solver=q.solver)


@family('O01', 100, 2000)
def o01_zonotope_programs(mon, rng):
    """The programs the library itself poses: points of the hypercube above an active point."""
    m = int(rng.randint(2, 8))
    n = int(rng.randint(1, m))
    W = gen.orth(rng, m)
    W1, W2 = W[:, :n], W[:, n:]
    y = gen.in_hypercube_y(rng, W1, 1)[0]
    s = np.dot(W1, y).reshape((m, 1))
    A, b = np.vstack((W2, -W2)), np.vstack((-1 - s, -1 + s))
    mon.input(W=W, y=y)
    q = qp.QPSolver()
    c = rng.normal(size=(m - n, 1))
    with mon.guard('linear_program_ineq'):
        z = q.linear_program_ineq(c, A, b)
    mon.check(np.abs(np.dot(W2, z) + s).max() <= 1 + 1e-8, 'zonotope LP:feasible')
    # dual bound: minimum over x in the cube with W1^T x = y of (W2 c).x
    r = scopt.linprog(np.dot(W2, c).ravel(), A_eq=W1.T, b_eq=y, bounds=[(-1, 1)] * m)
    mon.close(np.dot(c.T, z)[0, 0], np.array(r.fun), 'zonotope LP:optimal value', atol=1e-7)
    with mon.guard('linear_program_eq'):
        x = q.linear_program_eq(np.dot(W2, c), W1.T, y.reshape((n, 1)), -np.ones((m, 1)), np.ones((m, 1)))
    mon.close(np.dot(np.dot(W2, c).T, x)[0, 0], np.array(r.fun), 'zonotope LP:both forms agree', atol=1e-7)
    mon.check(np.abs(x).max() <= 1 + 1e-8 and np.abs(np.dot(W1.T, x).ravel() - y).max() < 1e-7,
              'zonotope LP:feasible (equality form)')


@family('O01', 150, 2500)
def o01_failed_solver(mon, rng):
    """SciPy ends without success, once or always, at a point of its own: that point is never the answer."""
    when = -1 if chance(rng, 0.5) else int(rng.randint(0, 2))
    seen = []

    def failing(old):
        def solver(*a, **kw):
            r = old(*a, **kw)
            seen.append(when in (-1, len(seen)))
            if seen[-1]:
                r.success, r.message = False, 'stopped'
                r.status = int(rng.choice([1, 4]) if old is linprog else rng.choice([1, 2, 4, 8, 9]))
                if r.x is not None:
                    r.x = np.asarray(r.x) * 0.9 + 0.05
            return r
        return solver
    linprog = scopt.linprog
    q = qp.QPSolver()
    k = rng.randint(4)
    mon.input(k=k, when=when)
    if k == 0:
        c, A, b, lb, ub, want, uniq = lp_eq(rng)
        f = bnd_feas(lb, ub)
        run = lambda: q.linear_program_eq(c, A, b, lb, ub)
        judge = lambda x: check_lp(mon, c, x, want, lambda x: max(f(x), np.abs(np.dot(A, x) - b).max()), uniq, 'failed LP eq', 1e-7)
    elif k == 1:
        c, A, b, want, uniq = lp_ineq(rng)
        run = lambda: q.linear_program_ineq(c, A, b)
        judge = lambda x: check_lp(mon, c, x, want, lambda x: (b - np.dot(A, x)).max(), uniq, 'failed LP ineq', 1e-7)
    elif k == 2:
        c, Q, lb, ub, want = qp_bnd(rng)
        run = lambda: q.quadratic_program_bnd(c, Q, lb, ub)
        judge = lambda x: check_qp(mon, c, Q, x, want, bnd_feas(lb, ub), 'failed QP bnd', 2e-6)
    else:
        c, Q, A, b, want = qp_ineq(rng)
        run = lambda: q.quadratic_program_ineq(c, Q, A, b)
        judge = lambda x: check_qp(mon, c, Q, x, want, lambda x: (b - np.dot(A, x)).max(), 'failed QP ineq', 2e-6)
    mon.input(minimizer=want, c=c)
    x = None
    with Interposed(minimize=failing, linprog=failing):
        try:
            x = run()
        except Exception as e:
            if not any(seen):
                mon.fail('failed solver:completes', 'raised %s: %s' % (type(e).__name__, e))
            mon.event('refused')
    if not any(seen):
        raise Skip('no solver run was seen')
    mon.event('solver runs failed', sum(seen))
    mon.check(x is None or not all(seen), 'failed solver:no answer', x=x, minimizer=want)
    if x is not None:
        judge(x)


def boundary_point(rng, W1):
    """A hypercube point on whose image the inactive variables are (all but) determined, and that image."""
    m, n = W1.shape
    d = rng.normal(size=n)
    x = np.sign(np.dot(W1, d))
    if chance(rng, 0.4) and n > 1:
        i = rng.randint(m)
        x = np.sign(np.dot(W1, d - W1[i] * np.dot(W1[i], d) / np.dot(W1[i], W1[i])))
        x[i] = rng.uniform(-0.95, 0.95)
    y = np.dot(x, W1) * (1 + rng.choice([0, 0, 1e-15, -1e-15, 1e-12, -1e-10]))
    return x, y


@family('O01', 200, 4000)
def o01_boundary_programs(mon, rng):
    """The feasible set is a single point, up to rounding: the programs above the boundary of a zonotope."""
    m = int(rng.randint(2, 8))
    n = int(rng.randint(1, m))
    W = gen.orth(rng, m)
    if not gen.general_position(W[:, :n], 1e-2):
        raise Skip('general position')
    W1, W2 = W[:, :n], W[:, n:]
    x, y = boundary_point(rng, W1)
    t = np.dot(W1, y).reshape((m, 1))
    A, b = np.vstack((W2, -W2)), np.vstack((-1 - t, -1 + t))
    c = rng.normal(size=(m - n, 1)) * rng.choice([1e-16, 0.1, 1, 10])
    H = psd(rng, m - n) * rng.choice([1e-2, 0.1, 1, 5])
    if chance(rng, 0.3):
        H = H - np.eye(m - n) * 0.05                           # not convex: there is still only one answer
    mon.input(W=W, y=y, c=c, H=H)
    q = qp.QPSolver()
    want = np.dot(x, W2).reshape((m - n, 1))
    with mon.guard('boundary'):
        z = q.quadratic_program_ineq(c, H, A, b)
    mon.check(np.abs(np.dot(W2, z) + t).max() <= 1 + 1e-6, 'boundary QP:feasible', worst=np.abs(np.dot(W2, z) + t).max())
    mon.close(z, want, 'boundary QP:the only feasible point', atol=2e-2 if n < m - 1 else 1e-4)


# of a quarter million programs drawn as below, those for which a single run of L-BFGS-B reports convergence far from the minimizer
STALLED = [1772, 2412, 6238, 7820, 9815, 12832, 16793, 22309, 26140, 28399, 30934, 31745, 36271, 38315, 39691, 41728, 42341, 47319,
           48176, 50418, 51128, 60187, 62829, 64570, 69223, 71661, 77456, 87201, 88719, 89181, 93887, 97986, 105218, 107920, 109986,
           113651, 118856, 120288, 123140, 124263, 128304, 135554, 137247, 145223, 148620, 156524]


def scaled_qp_bnd(r):
    """Bound constrained programs of some spread: wide spectra, bounds far from the origin."""
    n = int(r.randint(1, 9))
    V = gen.orth(r, n)
    Q = np.dot(V * 10 ** r.uniform(-1, 1, size=n), V.T)
    if r.rand() < .5:
        K = r.normal(size=(n, n))
        Q = Q + K - K.T
    a, w = r.choice([1.0, 10.0]), r.choice([1.0, 10.0])
    lb = r.uniform(-3, 1, size=(n, 1)) * a
    ub = lb + r.uniform(.2, 4, size=(n, 1)) * w
    k = r.randint(0, 3, size=n)
    t = r.uniform(.05, .95, size=(n, 1))
    mu = np.zeros((n, 1))
    for i in range(n):
        if k[i] < 2:
            t[i] = k[i]
            mu[i] = r.uniform(.05, 2) * (1 if k[i] == 0 else -1) * w
    x = lb + t * (ub - lb)
    return mu - np.dot(Q + Q.T, x), Q, lb, ub, x


@family('O01', 60, 600)
def o01_stalled_searches(mon, rng):
    """Programs on which a first local search stops short of the minimizer, and others drawn in the same way."""
    seed = int(rng.choice(STALLED)) if chance(rng, 0.7) else int(rng.randint(2 ** 31))
    c, Q, lb, ub, want = scaled_qp_bnd(np.random.RandomState(seed))
    mon.input(seed=seed)
    with mon.guard('quadratic_program_bnd'):
        x = qp.QPSolver('SCIPY').quadratic_program_bnd(c, layout(rng, Q), lb, ub)
    check_qp(mon, c, Q, x, want, bnd_feas(lb, ub), 'stalled QP bnd', 2e-6)


# ---------------------------------------------------------------------------------------------------------------- O02
about('O02', """a stand-in gurobipy records the program that was posed and solves it by active-set enumeration or HiGHS; the
 answers are judged as in O01, and a status other than optimal must be refused.""")


@family('O02', 300, 6000)
def o02_known_programs(mon, rng):
    from . import gurobi_stub as g
    g.FORCE_STATUS[0] = None
    del g.LOG[:]
    q = run_programs(mon, rng, 'GUROBI', True)
    mon.check(q.solver == 'GUROBI', 'gurobi:selected when present', solver=q.solver)
    mon.check(len(g.LOG) == 4, 'gurobi:one program posed per request', n=len(g.LOG))
    mon.event('programs posed', len(g.LOG))
    mon.check(qp.QPSolver().solver == 'GUROBI' and qp.QPSolver('SCIPY').solver == 'SCIPY', 'gurobi:selection by name')


@family('O02', 100, 1500)
def o02_refusals(mon, rng):
    from . import gurobi_stub as g
    g.FORCE_STATUS[0] = None
    refusals(mon, rng, 'GUROBI')
    q = qp.QPSolver('GUROBI')
    st = int(rng.choice([k for k in range(1, 18) if k != g.GRB.OPTIMAL]))      # every status Gurobi knows but one
    c, A, b, lb, ub, want, u = lp_eq(rng)
    c1, A1, b1, w1, u1 = lp_ineq(rng)
    c2, Q2, lb2, ub2, w2 = qp_bnd(rng, 4)
    c3, Q3, A3, b3, w3 = qp_ineq(rng, 4, 9)
    mon.input(c=c, A=A, st=st)
    try:
        g.FORCE_STATUS[0] = st
        mon.raises(lambda: q.linear_program_eq(c, A, b, lb, ub), 'gurobi:no optimum, no answer (LP eq)', status=st)
        mon.raises(lambda: q.linear_program_ineq(c1, A1, b1), 'gurobi:no optimum, no answer (LP ineq)', status=st)
        mon.raises(lambda: q.quadratic_program_bnd(c2, Q2, lb2, ub2), 'gurobi:no optimum, no answer (QP bnd)',
                   status=st)
        mon.raises(lambda: q.quadratic_program_ineq(c3, Q3, A3, b3), 'gurobi:no optimum, no answer (QP ineq)',
                   status=st)
    finally:
        g.FORCE_STATUS[0] = None
    with mon.guard('after refusals'):
        x = q.linear_program_ineq(c1, A1, b1)
    mon.close(np.dot(c1.T, x), np.dot(c1.T, w1), 'gurobi:works after a refusal', rtol=1e-7,
              scale=np.abs(c1) * (1 + np.abs(w1)))


def same_form(mon, rng, p, c, Q, label):
    """The recorded objective equals c.x + x.Qx at random points."""
    n = c.size
    mon.close(p['c'], c.ravel(), label + ':linear coefficients', rtol=0, atol=1e-12 * np.abs(c.ravel()))
    if Q is not None:
        mon.close(p['Q'] + p['Q'].T, Q + Q.T, label + ':quadratic coefficients', rtol=0, atol=1e-12 * (np.abs(Q) + np.abs(Q.T)))
    for k in range(4):
        x = rng.normal(size=n) * rng.choice([0.1, 1, 100])
        got = np.dot(p['c'], x) + np.dot(x, np.dot(p['Q'], x))
        want = np.dot(c.ravel(), x) + (0 if Q is None else np.dot(x, np.dot(Q, x)))
        sc = np.abs(c.ravel() * x).sum() + (0 if Q is None else np.dot(np.abs(x), np.dot(np.abs(Q), np.abs(x))))
        mon.close(np.array(got), np.array(want), label + ':objective', atol=1e-10 * sc)


def same_set(mon, rng, p, G, h, E, d, label):
    """The recorded constraints admit the same points as Gx >= h, Ex = d: compared row by row after scaling, without order."""
    def rows(A, b, sign):
        out = []
        for a, v in zip(A, np.ravel(b)):
            s = np.abs(a).max()
            if s == 0:
                continue
            r = np.r_[a, v] / s
            if sign and r[np.argmax(np.abs(r[:-1]) > 0.5)] < 0:
                r = -r
            out.append(r)
        return out
    for got, want, sign in ((rows(p['A'], p['b'], False), rows(G, h, False), False), (rows(p['E'], p['d'], True), rows(E, d, True), True)):
        if sign and not want and not got:
            continue
        for r in want:
            mon.check(any(np.allclose(r, g, rtol=1e-9, atol=1e-11) for g in got), label + ':every constraint is posed', row=r)
        for r in got:
            mon.check(any(np.allclose(r, g, rtol=1e-9, atol=1e-11) for g in want), label + ':no other constraint is posed', row=r)


@family('O02', 60, 900)
def o02_posed(mon, rng):
    """Programs of any size and scale: the program that reaches the solver is the one requested, and its solution is returned."""
    from . import gurobi_stub as g
    n = gen.sizes(rng, 1, 12, 30)
    M = gen.sizes(rng, 1, 20, 80)
    s = 10.0 ** rng.uniform(-3, 4, size=3) if chance(rng, 0.5) else np.ones(3)
    c = rng.normal(size=(n, 1)) * s[0] * 10.0 ** rng.uniform(-3, 0, size=(n, 1))
    A = rng.normal(size=(M, n)) * 10.0 ** rng.uniform(-4, 0, size=(M, n)) * (rng.rand(M, n) < rng.choice([0.3, 1.0]))
    A[np.arange(M), rng.randint(n, size=M)] += 1.0
    b = rng.normal(size=(M, 1)) * s[1]
    lb = -np.abs(rng.normal(size=(n, 1))) * s[2] + rng.normal() * s[2]
    ub = lb + np.abs(rng.normal(size=(n, 1))) * s[2]
    Q = psd(rng, n) * s[0]
    if chance(rng, 0.4):                         # variables in units of their own
        D = 10.0 ** rng.uniform(-6, 3, size=(n, 1))
        Q, c = Q * D * D.T, c * D
    x0 = rng.normal(size=n) * s[2]
    mon.input(c=c, A=A, b=b, lb=lb, ub=ub, Q=Q)
    none = np.zeros((0, n)), np.zeros(0)
    box = np.vstack((np.eye(n), -np.eye(n))), np.vstack((lb, -ub))
    q = qp.QPSolver('GUROBI')
    g.ANSWER[0] = x0
    try:
        for k in rng.permutation(4):
            del g.LOG[:]
            with mon.guard('posed'):
                if k == 0:
                    x = q.linear_program_eq(c, layout(rng, A), b, lb, ub)
                elif k == 1:
                    x = q.linear_program_ineq(c, layout(rng, A), b)
                elif k == 2:
                    x = q.quadratic_program_bnd(c, layout(rng, Q), lb, ub)
                else:
                    x = q.quadratic_program_ineq(c, layout(rng, Q), layout(rng, A), b)
            label = 'posed ' + ('LP eq', 'LP ineq', 'QP bnd', 'QP ineq')[k]
            mon.check(len(g.LOG) == 1, label + ':one program', n=len(g.LOG))
            p = g.LOG[-1]
            mon.check(p['c'].size == n, label + ':number of variables', got=p['c'].size, want=n)
            if p['c'].size != n:
                continue
            same_form(mon, rng, p, c, Q if k > 1 else None, label)
            if k == 0:
                same_set(mon, rng, p, box[0], box[1], A, b, label)
            elif k == 2:
                same_set(mon, rng, p, box[0], box[1], none[0], none[1], label)
            else:
                same_set(mon, rng, p, A, b, none[0], none[1], label)
            mon.check(np.shape(x) == (n, 1) and np.array_equal(np.ravel(x), x0), label + ':the solution is returned', x=x, solution=x0)
    finally:
        g.ANSWER[0] = None


@family('O02', 40, 600)
def o02_pipeline(mon, rng):
    """The sampling pipeline on top of the Gurobi backend."""
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 3)))
    s, d = gen.bounded_pair(rng, m, n)
    mp = dm.BoundedActiveVariableMap(d)
    Y = gen.in_hypercube_y(rng, s.W1, 3)
    mon.input(W=s.eigenvecs, Y=Y)
    with mon.guard('inverse'):
        X, ind = mp.inverse(Y, 2)
    mon.check(np.abs(X).max() <= 1 + 1e-6, 'gurobi:inverse in the hypercube')
    mon.close(np.dot(X, s.W1), Y[ind.ravel().astype(int)], 'gurobi:inverse maps back', atol=1e-8)


# ---------------------------------------------------------------------------------------------------------------- O03
about('O03', """convex objectives: the Frank-Wolfe gap at the returned point, computed with the exact support function of the
 zonotope, bounds the distance of fstar to the true minimum; other objectives: the local searches are recorded and
 the best one must be returned.""")


def fw_gap(W1, g, y):
    """grad.y - min over the zonotope of grad.v"""
    return float(np.dot(g, y) + np.abs(np.dot(W1, g)).sum())


class Recorder(Interposed):
    """Records the results of scipy.optimize.minimize while active."""

    def __init__(self):
        self.res = []

        def make(old):
            def minimize(*a, **k):
                r = old(*a, **k)
                self.res.append(r)
                return r
            return minimize
        Interposed.__init__(self, minimize=make)


def objective(rng, n, center, convex=True):
    """(f(y), grad) of one flat vector, convex or with several minima."""
    A = gen.convex_quadratic(rng, n, 1.2)
    if convex and chance(rng, 0.3):
        b, t = rng.normal(size=n), rng.uniform(0.2, 1)

        def f(y):
            y = np.ravel(y) - center
            return float(0.5 * np.dot(y, np.dot(A, y)) + t * np.logaddexp(0, np.dot(b, y)))

        def g(y):
            y = np.ravel(y) - center
            return np.dot(A, y) + t * b / (1 + np.exp(-np.dot(b, y)))
        return f, g
    if convex:
        k = rng.uniform(-5, 5) if chance(rng, 0.8) else rng.choice([-1, 1]) * gen.logu(rng, 2, 4)

        def f(y):
            y = np.ravel(y) - center
            return float(k + 0.5 * np.dot(y, np.dot(A, y)))

        def g(y):
            return np.dot(A, np.ravel(y) - center)
        return f, g
    w, p, a = rng.uniform(1.5, 4, size=n), rng.uniform(0, 6.3, size=n), rng.uniform(0.5, 2)

    def f(y):
        y = np.ravel(y)
        return float(0.1 * np.dot(y, y) + a * np.cos(w * y + p).sum())

    def g(y):
        y = np.ravel(y)
        return 0.2 * y - a * w * np.sin(w * y + p)
    return f, g


def domain(rng, nmin=1):
    m = int(rng.randint(max(nmin, 1), 7))
    n = int(rng.randint(nmin, min(m, 3) + 1))
    return gen.bounded_pair(rng, m, n)


def call(mon, label, f, d, g):
    with Recorder() as rec:
        with mon.guard(label):
            r = op.av_minimize(f, d) if g is None else op.av_minimize(f, d, avdfun=g)
    return r, rec


def common(mon, y, fs, f, n, label):
    mon.shape(y, (1, n), label + ':minimizer is a 1-by-n matrix')
    mon.check(np.ndim(fs) == 0, label + ':minimum is a number', fs=fs)
    mon.close(np.array(float(fs)), np.array(f(y.ravel())), label + ':fstar is the value at ystar', rtol=1e-12,
              atol=1e-13)


def best(mon, rec, y, fs, label):
    ok = [r for r in rec.res if r.success and np.size(r.x) == y.size]
    if len(ok) < 2:
        mon.event('searches not seen')
        return
    mon.event('searches', len(ok))
    lo = min(float(r.fun) for r in ok)
    mon.close(np.array(float(fs)), np.array(lo), label + ':best of the searches', rtol=0,
              atol=1e-9 * max(abs(float(r.fun)) for r in ok) + 1e-300, all=[float(r.fun) for r in ok])


@family('O03', 250, 5000)
def o03_interval(mon, rng):
    m = gen.sizes(rng, 1, 8)
    s = gen.subspaces(rng, m, 1)
    d = dm.BoundedActiveVariableDomain(s)
    r = np.abs(s.W1).sum()
    center = rng.uniform(-1.5, 1.5, size=1) * r
    f, g = objective(rng, 1, center)
    mon.input(W=s.W1, center=center)
    with mon.guard('av_minimize'):
        y, fs = op.av_minimize(f, d) if chance(rng, 0.5) else op.av_minimize(f, d, avdfun=g)
    common(mon, y, fs, f, 1, 'interval')
    mon.check(abs(y[0, 0]) <= r * (1 + 1e-12), 'interval:in the domain', y=y, r=r)
    gap = fw_gap(s.W1, g(y), y.ravel())
    mon.check(gap <= 1e-5 * r * (1 + abs(g(y)[0])), 'interval:minimum of a convex function', gap=gap, y=y,
              center=center)


@family('O03', 120, 2500)
def o03_zonotope(mon, rng):
    s, d = domain(rng, 2)
    n = s.W1.shape[1]
    center = np.dot(rng.uniform(-1.6, 1.6, size=s.W1.shape[0]), s.W1)
    f, g = objective(rng, n, center)
    mon.input(W=s.W1, center=center)
    (y, fs), rec = call(mon, 'av_minimize', f, d, None if chance(rng, 0.35) else g)
    common(mon, y, fs, f, n, 'zonotope')
    A, h = gen.zonotope_halfspaces(s.W1)
    v = (np.abs(np.dot(A, y.ravel())) - h).max()
    mon.check(v <= 1e-7, 'zonotope:in the domain', excess=v)
    gap = fw_gap(s.W1, g(y), y.ravel())
    sc = 1 + np.abs(g(y)).max() + abs(fs)
    mon.check(gap <= 3e-4 * sc, 'zonotope:minimum of a convex function', gap=gap, y=y, center=center)
    best(mon, rec, y, fs, 'zonotope')


@family('O03', 120, 2500)
def o03_unbounded(mon, rng):
    m = int(rng.randint(1, 7))
    n = int(rng.randint(1, min(m, 4) + 1))
    s = gen.subspaces(rng, m, n)
    d = dm.UnboundedActiveVariableDomain(s)
    center = rng.normal(size=n) * 2
    f, g = objective(rng, n, center)
    mon.input(W=s.W1, center=center)
    (y, fs), rec = call(mon, 'av_minimize', f, d, None if chance(rng, 0.35) else g)
    common(mon, y, fs, f, n, 'unbounded')
    ref = scopt.minimize(f, center, jac=g, method='BFGS', options={'gtol': 1e-10})
    mon.check(fs <= ref.fun + 1e-4 * (1 + abs(ref.fun)), 'unbounded:minimum of a convex function', fs=fs, ref=ref.fun)
    best(mon, rec, y, fs, 'unbounded')


@family('O03', 120, 2500)
def o03_multimodal(mon, rng):
    k = rng.randint(3)
    if k == 0:
        m = int(rng.randint(1, 6))
        s = gen.subspaces(rng, m, 1)
        d, n = dm.BoundedActiveVariableDomain(s), 1
    elif k == 1:
        s, d = domain(rng, 2)
        n = s.W1.shape[1]
    else:
        m = int(rng.randint(1, 6))
        n = int(rng.randint(1, min(m, 3) + 1))
        s = gen.subspaces(rng, m, n)
        d = dm.UnboundedActiveVariableDomain(s)
    f, g = objective(rng, n, None, False)
    u = 10.0 ** rng.uniform(-9, 2) if chance(rng, 0.4) else 1.0
    if u != 1:                                   # in other units
        f0, g0 = f, g
        f, g = (lambda y: u * f0(y)), (lambda y: u * g0(y))
    g = None if chance(rng, 0.3) else g
    mon.input(W=s.W1, k=k, u=u)
    with Recorder() as rec:
        try:
            y, fs = op.av_minimize(f, d, avdfun=g)
        except Exception as e:
            if any(not r.success for r in rec.res):       # a local search failed: refusing is allowed
                mon.event('search failed, refused')
                mon.counts['multimodal:refused'] += 1
                return
            mon.fail('multimodal:completes', 'av_minimize raised %s: %s' % (type(e).__name__, e))
            mon.counts['multimodal:completes'] += 1
            return
    common(mon, y, fs, f, n, 'multimodal')
    best(mon, rec, y, fs, 'multimodal')
    if k < 2:
        A, h = gen.zonotope_halfspaces(s.W1)
        mon.check((np.abs(np.dot(A, y.ravel())) - h).max() <= 1e-7 * h.max(), 'multimodal:in the domain')
    else:
        mon.check(fs <= f(np.zeros(n)) + 5.0 * n * max(u, 1), 'multimodal:sane')
    # repeatable whatever the state of the global generator
    np.random.seed(int(rng.randint(1000)))
    y2, fs2 = op.av_minimize(f, d, avdfun=g)
    mon.check(np.array_equal(y, y2) and fs == fs2, 'multimodal:repeatable')


@family('O03', 60, 900)
def o03_failed_searches(mon, rng):
    """One or all local searches end without success at a point that claims a smaller value: it may not be the answer."""
    k = rng.randint(3)
    if k == 0:
        d, n = dm.BoundedActiveVariableDomain(gen.subspaces(rng, int(rng.randint(1, 6)), 1)), 1
    elif k == 1:
        s, d = domain(rng, 2)
        n = s.W1.shape[1]
    else:
        m = int(rng.randint(1, 6))
        n = int(rng.randint(1, min(m, 3) + 1))
        d = dm.UnboundedActiveVariableDomain(gen.subspaces(rng, m, n))
    f, g = objective(rng, n, 0.3 * rng.normal(size=n))
    g = None if chance(rng, 0.4) else g
    when = -1 if chance(rng, 0.3) else int(rng.randint(0, 10))
    mon.input(n=n, k=k, when=when)
    bad = []

    def failing(old):
        def minimize(*a, **kw):
            r = old(*a, **kw)
            minimize.calls += 1
            if when in (-1, minimize.calls - 1):
                r.success, r.status, r.message = False, 8, 'stopped'
                r.x = np.asarray(r.x) * 0.9 + 1e-3
                r.fun = r.fun - 1.0
                bad.append((np.array(r.x), r.fun))
            return r
        minimize.calls = 0
        return minimize

    def failing_bound(old):
        def fminbound(*a, **kw):
            r = old(*a, **kw)
            if not kw.get('full_output'):
                return r
            bad.append((np.atleast_1d(r[0]) * 0.9, float(np.ravel(r[1])[0]) - 1.0))
            return (r[0] * 0.9, r[1] - 1.0, 1, r[3])
        return fminbound
    y = None
    with Interposed(minimize=failing, fminbound=failing_bound):
        try:
            y, fs = op.av_minimize(f, d, avdfun=g)
        except Exception as e:
            if not bad:
                mon.fail('failed searches:completes', 'av_minimize raised %s: %s' % (type(e).__name__, e))
            mon.event('refused')
    if not bad:
        raise Skip('no search was seen')
    mon.event('searches failed', len(bad))
    for x, v in bad:
        mon.check(y is None or not (np.allclose(np.ravel(y), x, atol=1e-12) or fs <= v + 1e-9 * (1 + abs(v))),
                  'failed searches:not the answer', y=y, x=x)


@family('O03', 40, 300)
def o03_refusals(mon, rng):
    s = gen.subspaces(rng, 3, 1)
    mon.input(W=s.W1)
    base = dm.ActiveVariableDomain()
    base.subspaces = s
    mon.raises(lambda: op.av_minimize(lambda y: 0.0, base), 'domain of no known kind refused')
    mon.raises(lambda: op.av_minimize(lambda y: 0.0, None), 'no domain refused')


# ---------------------------------------------------------------------------------------------------------------- O04
about('O04', """data from quadratics with at most n+1 active coordinates, on which the documented quadratic surrogate is exact:
 the optimal inactive variables then follow from the known quadratic by KKT conditions; the end-to-end minimizer is
 mapped forward and evaluated on the surface.""")


def surrogate_case(rng, bounded):
    """Subspaces and a convex quadratic f(x) = c0 + b.x + x^T A x / 2 of the first n+1 coordinates."""
    m = int(rng.randint(2, 7))
    n = int(rng.randint(1, min(m, 4)))
    if bounded:
        s, d = gen.bounded_pair(rng, m, min(n, 2))
        n = s.W1.shape[1]
        if n == m:
            raise Skip('no inactive variables')
    else:
        s = gen.subspaces(rng, m, n)
        d = dm.UnboundedActiveVariableDomain(s)
    W = s.eigenvecs
    q = n + 1 if (m - n <= 2 or chance(rng, 0.5)) else n + 2
    U = W[:, :q]
    H = gen.convex_quadratic(rng, q, 1.0)
    A = np.dot(U, np.dot(H, U.T))
    b = np.dot(U, rng.normal(size=q)) * rng.choice([0.2, 1, 3])
    c0 = rng.normal()
    p = n + 2 if m - n > 2 else n + 1
    M = int((p + 1) * (p + 2) / 2 + (rng.randint(5, 30) if chance(rng, 0.8) else rng.randint(100, 600)))
    X = rng.uniform(-1, 1, size=(M, m)) if bounded else rng.normal(size=(M, m))
    f = (c0 + np.dot(X, b) + 0.5 * (np.dot(X, A) * X).sum(1)).reshape((M, 1))
    return s, d, m, n, A, b, c0, X, f


def z_objective(s, A, b, y):
    """(c, K): sum c.z + z K z / 2 is the surrogate, regularized as documented in the code, at x = W1 y + W2 z."""
    W1, W2 = s.W1, s.W2
    K = np.dot(W2.T, np.dot(A, W2)) + 0.01 * np.eye(W2.shape[1])
    c = np.dot(W2.T, b) + np.dot(W2.T, np.dot(A, np.dot(W1, y)))
    return c, K


@family('O04', 200, 4000)
def o04_unbounded_map(mon, rng):
    s, d, m, n, A, b, c0, X, f = surrogate_case(rng, False)
    mp = op.UnboundedMinVariableMap(d)
    NY = gen.sizes(rng, 1, 5, 30)
    Y = rng.normal(size=(NY, n)) * 2
    mon.input(W=s.eigenvecs, X=X, f=f, Y=Y)
    with mon.guard('train'):
        if chance(rng, 0.4):                           # forgotten by the second training
            mp.train(X, rng.normal(size=f.shape) * 3 + (X ** 2).sum(1).reshape(f.shape))
            mp.inverse(Y)
        mp.train(layout(rng, X), layout(rng, f))
    with mon.guard('inverse'):
        Xs, ind = mp.inverse(layout(rng, Y))
        Z = mp.regularize_z(Y)
    mon.shape(Z, (NY, m - n, 1), 'unbounded map:shape')
    mon.close(np.dot(Xs, s.W1), Y, 'unbounded map:keeps the active variables', atol=1e-10)
    for i in range(NY):
        c, K = z_objective(s, A, b, Y[i])
        z = Z[i].ravel()
        mon.close(np.dot(K, z) + c, np.zeros(m - n), 'unbounded map:stationary point of the surrogate',
                  atol=1e-6 * (1 + np.abs(c).max()), z=z, c=c)
        mon.close(Xs[i], np.dot(s.W1, Y[i]) + np.dot(s.W2, z), 'unbounded map:point from its coordinates', atol=1e-10)
    mon.raises(lambda: mp.inverse(Y, 2), 'more than one point refused')
    mon.raises(lambda: mp.regularize_z(Y, N=3), 'more than one point refused')


@family('O04', 120, 2500)
def o04_bounded_map(mon, rng):
    s, d, m, n, A, b, c0, X, f = surrogate_case(rng, True)
    mp = op.BoundedMinVariableMap(d)
    Y = gen.in_hypercube_y(rng, s.W1, gen.sizes(rng, 1, 4))
    NY = len(Y)
    mon.input(W=s.eigenvecs, X=X, f=f, Y=Y)
    with mon.guard('train'):
        if chance(rng, 0.4):                           # forgotten by the second training
            mp.train(X, np.dot(X, rng.normal(size=(m, 1))) * 3 + (X ** 2).sum(1).reshape(f.shape))
            mp.inverse(Y)
        mp.train(layout(rng, X), layout(rng, f))
    with mon.guard('inverse'):
        Xs, ind = mp.inverse(layout(rng, Y))
    mon.close(np.dot(Xs, s.W1), Y, 'bounded map:keeps the active variables', atol=1e-9)
    mon.check(np.abs(Xs).max() <= 1 + 1e-7, 'bounded map:in the hypercube', worst=np.abs(Xs).max())
    for i in range(NY):
        c, K = z_objective(s, A, b, Y[i])
        z = np.dot(Xs[i], s.W2)
        # the exact solution of the same program, by enumeration of the active sets
        t = np.dot(s.W1, Y[i])
        st, zs = gurobi_stub.solve(c, K / 2, np.vstack((s.W2, -s.W2)), np.r_[-1 - t, -1 + t], np.zeros((0, m - n)),
                                   np.zeros(0))
        if st != gurobi_stub.GRB.OPTIMAL:
            raise Inconclusive('reference QP failed')
        v = lambda z: np.dot(c, z) + 0.5 * np.dot(z, np.dot(K, z))
        mon.check(v(z) - v(zs) <= 3e-4 * (1 + np.abs(c).sum() + np.abs(K).sum()),
                  'bounded map:minimizes the surrogate', excess=v(z) - v(zs), y=Y[i], z=z, best=zs)
    mon.raises(lambda: mp.inverse(Y, 2), 'more than one point refused')


@family('O04', 120, 2500)
def o04_minimize(mon, rng):
    """End to end: data -> subspace -> surface -> minimize."""
    minimize_end_to_end(mon, rng, int(rng.randint(2, 6)))


@family('O04', 16, 200)
def o04_minimize_wide(mon, rng):
    """The same with many variables, with samples on a lattice or samples repeated."""
    minimize_end_to_end(mon, rng, int(rng.randint(6, 12)))


def minimize_end_to_end(mon, rng, m):
    bounded = chance(rng, 0.6)
    n = int(rng.randint(1, min(m, 3)))
    if chance(rng, 0.1):
        m = n = int(rng.randint(1, 3))
    W = gen.orth(rng, m)
    if bounded and not gen.general_position(W[:, :n], 1e-2):
        raise Skip('general position')
    H = gen.convex_quadratic(rng, n, 0.8)
    cy = rng.normal(size=n) * 0.5
    A = np.dot(W[:, :n], np.dot(H, W[:, :n].T))

    def fun(X):
        Y = np.dot(X, W[:, :n]) - cy
        return 0.5 * (np.dot(Y, H) * Y).sum(1).reshape((-1, 1)) + 1.5
    M = 60 + int(rng.randint(0, 40)) + (0 if m < 6 else 3 * m * m)
    X = rng.uniform(-1, 1, size=(M, m)) if bounded else rng.normal(size=(M, m))
    if m > 5 and chance(rng, 0.4):
        X = rng.randint(-2, 3, size=(M, m)) * 0.5 if chance(rng, 0.5) else X[rng.randint(M // 2, size=M)]
    f = fun(X)
    s = gen.subspaces(rng, m, n, W=W)
    d = dm.BoundedActiveVariableDomain(s) if bounded else dm.UnboundedActiveVariableDomain(s)
    mp = dm.BoundedActiveVariableMap(d) if bounded else dm.UnboundedActiveVariableMap(d)
    a = rs.ActiveSubspaceResponseSurface(mp, PolynomialApproximation(N=2) if chance(rng, 0.6) else
                                         RadialBasisApproximation(N=2))
    poly = isinstance(a.respsurf, PolynomialApproximation)
    mon.input(W=W, X=X, f=f, bounded=bounded)
    with mon.guard('train_with_data'):
        a.train_with_data(X, f)
    with mon.guard('minimize'):
        x, fs = op.minimize(a, layout(rng, X), layout(rng, f))
    mon.shape(x, (1, m), 'minimize:minimizer is a 1-by-m matrix')
    mon.check(np.ndim(fs) == 0, 'minimize:minimum is a number')
    mon.close(np.array(float(fs)), np.array(a.predict(x)[0][0, 0]), 'minimize:fstar is the surface at xstar',
              atol=1e-7)
    y = np.dot(x, W[:, :n]).ravel()
    if bounded:
        mon.check(np.abs(x).max() <= 1 + 1e-6, 'minimize:in the hypercube', worst=np.abs(x).max())
        g = np.dot(H, y - cy)
        gap = fw_gap(W[:, :n], g, y)
    else:
        gap = float(np.abs(np.dot(H, y - cy)).max())
    # an exact surface: the true minimum over the domain is found
    tol = 3e-4 if poly else 2e-2
    mon.check(gap <= tol * (1 + np.abs(H).sum()), 'minimize:true minimum of an exact ridge function', gap=gap, y=y,
              cy=cy, poly=poly)
    mon.close(np.array(float(fs)), fun(x)[0, 0], 'minimize:fstar is the function at xstar', atol=1e-6 if poly else 1e-2)


@family('O04', 100, 2000)
def o04_boundary(mon, rng):
    """The smallest active value on the boundary of the domain, where the inactive variables are determined."""
    m = int(rng.randint(2, 6))
    n = int(rng.randint(1, min(m, 3)))
    s, d = gen.bounded_pair(rng, m, n)
    n = s.W1.shape[1]
    if n == m:
        raise Skip('no inactive variables')
    a = rng.normal(size=n) * rng.choice([0.3, 1, 3])
    X = rng.uniform(-1, 1, size=(40 + int(rng.randint(40)), m))
    b = np.dot(s.W1, a) + np.dot(s.W2, rng.normal(size=m - n) * rng.choice([0, 1e-3, 1e-2]))
    f = np.dot(X, b).reshape((-1, 1))
    if chance(rng, 0.4):
        f = f + rng.choice([1e-2, 0.1]) * np.dot(X, s.W2[:, :1]) ** 2 * rng.choice([-1, 1])
    mon.input(W=s.eigenvecs, X=X, f=f)
    r = rs.ActiveSubspaceResponseSurface(dm.BoundedActiveVariableMap(d), PolynomialApproximation(N=int(rng.randint(1, 3))))
    with mon.guard('train_with_data'):
        r.train_with_data(X, f)
    with mon.guard('minimize at the boundary'):
        x, fs = op.minimize(r, X, f)
    mon.shape(x, (1, m), 'boundary:shape')
    mon.check(np.abs(x).max() <= 1 + 1e-6, 'boundary:in the hypercube', worst=np.abs(x).max())
    mon.close(np.array(float(fs)), np.array(r.predict(x)[0][0, 0]), 'boundary:fstar is the surface at xstar', atol=1e-6)
    # the surface is (nearly) linear: compare with its values over the vertices
    V = r.predict_av(d.vertY)[0] if n > 1 else r.predict_av(d.vertY.reshape(-1, 1))[0]
    mon.check(fs <= V.min() + 1e-4 * (1 + np.abs(V).max()), 'boundary:no vertex is better', fstar=float(fs), vertex=V.min())


@family('O04', 30, 300)
def o04_refusals(mon, rng):
    s = gen.subspaces(rng, 3, 1)
    d = dm.UnboundedActiveVariableDomain(s)
    a = rs.ActiveSubspaceResponseSurface(dm.UnboundedActiveVariableMap(d), PolynomialApproximation(N=1))
    X = rng.normal(size=(20, 3))
    f = np.dot(X, s.W1)
    mon.input(X=X)
    a.train_with_data(X, f)
    mon.raises(lambda: op.minimize(a, X, f[:-1]), 'unequal inputs and outputs refused')
    mon.raises(lambda: op.minimize(a, X, np.hstack((f, f))), 'two outputs refused')
    mon.raises(lambda: op.minimize(a, X[:, 0], f), 'flat inputs refused')
