"""A stand-in for gurobipy: it collects the posed program and solves it by its own means.

Linear programs go to HiGHS; strictly convex quadratic programs are solved by enumerating active sets, so that neither
shares code with the SciPy backend of the repository.  Every solved program is recorded in LOG.
"""
import itertools
import sys
import types

import numpy as np

LOG = []                      # one dict per optimize() call
FORCE_STATUS = [None]         # makes the next optimize() calls end with this status
ANSWER = [None]               # the solution the next optimize() calls report, whatever the program


class GurobiError(Exception):
    pass


class GRB(object):
    CONTINUOUS, BINARY, INTEGER = 'C', 'B', 'I'
    EQUAL, GREATER_EQUAL, LESS_EQUAL = '=', '>', '<'
    INFINITY = 1e100
    MINIMIZE, MAXIMIZE = 1, -1
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT = range(1, 10)
    SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL, INPROGRESS, USER_OBJ_LIMIT, WORK_LIMIT, MEM_LIMIT = range(10, 18)

    class Status(object):
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT = range(1, 10)
        SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL, INPROGRESS, USER_OBJ_LIMIT, WORK_LIMIT, MEM_LIMIT = range(10, 18)

    class Param(object):
        OutputFlag = 'OutputFlag'

    class Attr(object):
        X, ObjVal, Status, LB, UB = 'X', 'ObjVal', 'Status', 'LB', 'UB'


def _num(x):
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return float(x.ravel()[0])
    return None


class Expr(object):
    """constant + sum lin[v] v + sum quad[(u, v)] u v"""
    __array_ufunc__ = None

    def __init__(self, *args):
        self.const, self.lin, self.quad = 0.0, {}, {}
        if len(args) == 1:
            a = _expr(args[0])
            if a is None and isinstance(args[0], (list, tuple)):
                a = Expr()
                for c, v in args[0]:
                    a._add(_expr(v), float(c))
            self._add(a, 1.0)
        elif len(args) == 2:
            c, v = args
            if isinstance(v, Var):
                c, v = [c], [v]
            self.addTerms(c, v)

    def copy(self):
        e = type(self)() if type(self) in (LinExpr, QuadExpr) else Expr()
        e.const, e.lin, e.quad = self.const, dict(self.lin), dict(self.quad)
        return e

    def _add(self, o, s):
        self.const += s * o.const
        for k, c in o.lin.items():
            self.lin[k] = self.lin.get(k, 0.0) + s * c
        for k, c in o.quad.items():
            self.quad[k] = self.quad.get(k, 0.0) + s * c
        return self

    def addTerms(self, c, v, v2=None):
        if isinstance(v, Var):
            c, v = [c], [v]
            v2 = [v2] if v2 is not None else None
        for i in range(len(v)):
            if v2 is None:
                self._add(_expr(v[i]), float(c[i]))
            else:
                self._add(_expr(v[i]) * v2[i], float(c[i]))

    def addConstant(self, c):
        self.const += float(c)

    def add(self, e, mult=1.0):
        self._add(_expr(e), float(mult))

    def __add__(self, o):
        o = _expr(o)
        if o is None:
            return NotImplemented
        return Expr()._add(self, 1.0)._add(o, 1.0)

    __radd__ = __add__

    def __iadd__(self, o):
        o = _expr(o)
        if o is None:
            return NotImplemented
        return self._add(o.copy(), 1.0)

    def __sub__(self, o):
        o = _expr(o)
        return Expr()._add(self, 1.0)._add(o, -1.0)

    def __rsub__(self, o):
        o = _expr(o)
        return Expr()._add(o, 1.0)._add(self, -1.0)

    def __isub__(self, o):
        return self._add(_expr(o).copy(), -1.0)

    def __neg__(self):
        return Expr()._add(self, -1.0)

    def __mul__(self, o):
        c = _num(o)
        if c is not None:
            return Expr()._add(self, c)
        o = _expr(o)
        if o is None:
            return NotImplemented
        if self.quad or o.quad:
            raise GurobiError('degree')
        e = Expr()
        e.const = self.const * o.const
        for k, c in self.lin.items():
            e.lin[k] = e.lin.get(k, 0.0) + c * o.const
        for k, c in o.lin.items():
            e.lin[k] = e.lin.get(k, 0.0) + c * self.const
        for (k, c), (l, d) in itertools.product(self.lin.items(), o.lin.items()):
            kk = (min(k, l), max(k, l))
            e.quad[kk] = e.quad.get(kk, 0.0) + c * d
        return e

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / float(o))

    def __pow__(self, k):
        if k != 2:
            raise GurobiError('power')
        return self * self

    def __ge__(self, o):
        return TempConstr(self - o, '>')

    def __le__(self, o):
        return TempConstr(self - o, '<')

    def __eq__(self, o):
        return TempConstr(self - o, '=')

    __hash__ = object.__hash__

    def getValue(self):
        raise GurobiError('not supported')


class LinExpr(Expr):
    pass


class QuadExpr(Expr):
    pass


class TempConstr(object):
    def __init__(self, e, sense):
        self.e, self.sense = e, sense


class Var(object):
    __array_ufunc__ = None

    def __init__(self, model, index, lb, ub, obj):
        self.model, self.index = model, index
        self.lb, self.ub, self.obj = lb, ub, obj
        self._x = None

    LB = property(lambda s: s.lb, lambda s, v: setattr(s, 'lb', float(v)))
    UB = property(lambda s: s.ub, lambda s, v: setattr(s, 'ub', float(v)))
    Obj = property(lambda s: s.obj, lambda s, v: setattr(s, 'obj', float(v)))

    @property
    def x(self):
        if self._x is None:
            raise GurobiError('no solution')
        return self._x
    X = x

    def getAttr(self, a):
        return getattr(self, a if a not in ('x', 'X') else 'x')

    def _e(self):
        e = Expr()
        e.lin[self.index] = 1.0
        return e

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self._e() == o


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'neg', 'truediv', 'pow', 'ge', 'le'):
    def _mk(n):
        def f(self, *a):
            return getattr(self._e(), n)(*a)
        return f
    setattr(Var, '__%s__' % _n, _mk('__%s__' % _n))


def _expr(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, Var):
        return x._e()
    c = _num(x)
    if c is not None:
        e = Expr()
        e.const = c
        return e
    return None


def quicksum(it):
    e = Expr()
    for t in it:
        e._add(_expr(t), 1.0)
    return e


class _Dict(dict):
    def values(self):
        return list(dict.values(self))


class Model(object):
    def __init__(self, name='', env=None):
        self.vars, self.cons, self.objective, self.ModelSense = [], [], Expr(), 1
        self.status = GRB.LOADED
        self.Params = types.SimpleNamespace()
        self.params = self.Params

    def __getstate__(self):
        return {'status': self.status}

    Status = property(lambda s: s.status)
    modelSense = property(lambda s: s.ModelSense, lambda s, v: setattr(s, 'ModelSense', v))

    def setParam(self, *a):
        pass

    def setAttr(self, name, v, w=None):
        if name in ('ModelSense', 'modelSense'):
            self.ModelSense = v
        elif w is not None:
            for a, b in zip(v, w):
                setattr(a, name, float(b))

    def update(self):
        pass

    def dispose(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype='C', name='', column=None):
        if vtype != 'C':
            raise GurobiError('only continuous variables')
        v = Var(self, len(self.vars), float(lb), float(ub), float(obj))
        self.vars.append(v)
        return v

    def addVars(self, *idx, **kw):
        keys = range(idx[0]) if len(idx) == 1 and isinstance(idx[0], (int, np.integer)) else \
            (list(idx[0]) if len(idx) == 1 else list(itertools.product(*map(range, idx))))
        lb, ub = kw.get('lb', 0.0), kw.get('ub', GRB.INFINITY)
        d = _Dict()
        for i, k in enumerate(keys):
            g = lambda v: v if np.ndim(v) == 0 else np.ravel(v)[i]
            d[k] = self.addVar(lb=g(lb), ub=g(ub))
        return d

    def addConstr(self, lhs, sense=None, rhs=None, name=''):
        if isinstance(lhs, TempConstr):
            t = lhs
        else:
            s = {'=': '=', '==': '=', '>': '>', '>=': '>', '<': '<', '<=': '<'}[sense]
            t = TempConstr(_expr(lhs) - rhs, s)
        if t.e.quad:
            raise GurobiError('quadratic constraint')
        self.cons.append(t)
        return t

    addLConstr = addConstr

    def addConstrs(self, gen, name=''):
        return [self.addConstr(t) for t in gen]

    def setObjective(self, e, sense=None):
        self.objective = Expr()._add(_expr(e), 1.0)
        if sense is not None:
            self.ModelSense = sense

    def getVars(self):
        return list(self.vars)

    def getObjective(self):
        return self.objective

    def getAttr(self, name, of=None):
        if of is None:
            return {'status': self.status, 'Status': self.status, 'ObjVal': getattr(self, 'ObjVal', None),
                    'objVal': getattr(self, 'ObjVal', None)}[name]
        if isinstance(of, dict):
            return {k: v.getAttr(name) for k, v in of.items()}
        return [v.getAttr(name) for v in of]

    def program(self):
        n = len(self.vars)
        s = float(self.ModelSense)
        c, Q = np.zeros(n), np.zeros((n, n))
        for v in self.vars:
            c[v.index] += s * v.obj
        for k, a in self.objective.lin.items():
            c[k] += s * a
        for (k, l), a in self.objective.quad.items():
            Q[k, l] += s * a / 2
            Q[l, k] += s * a / 2
        lb = np.array([v.lb for v in self.vars])
        ub = np.array([v.ub for v in self.vars])
        A, b, E, d = [], [], [], []          # A x >= b, E x = d
        for t in self.cons:
            row = np.zeros(n)
            for k, a in t.e.lin.items():
                row[k] += a
            if t.sense == '=':
                E.append(row)
                d.append(-t.e.const)
            else:
                g = 1.0 if t.sense == '>' else -1.0
                A.append(g * row)
                b.append(-g * t.e.const)
        for i in range(n):
            r = np.zeros(n)
            r[i] = 1.0
            if lb[i] > -1e20:
                A.append(r)
                b.append(lb[i])
            if ub[i] < 1e20:
                A.append(-r)
                b.append(-ub[i])
        return dict(c=c, Q=Q, A=np.array(A).reshape(-1, n), b=np.array(b), E=np.array(E).reshape(-1, n), d=np.array(d))

    def optimize(self, callback=None):
        p = self.program()
        if FORCE_STATUS[0] is not None:
            self.status, x = FORCE_STATUS[0], None
            if self.status >= GRB.ITERATION_LIMIT:        # Gurobi keeps the best point so far of a search it gave up
                x = 0.1 * np.arange(1.0, p['c'].size + 1)
        elif ANSWER[0] is not None:
            self.status, x = GRB.OPTIMAL, ANSWER[0]
        else:
            self.status, x = solve(**p)
        p.update(status=self.status, x=x)
        LOG.append(p)
        for i, v in enumerate(self.vars):
            v._x = None if x is None else float(x[i])
        if x is not None:
            self.ObjVal = self.objVal = float(p['c'].dot(x) + x.dot(p['Q']).dot(x))


def solve(c, Q, A, b, E, d):
    n = c.size
    if not np.any(Q):
        from scipy.optimize import linprog
        r = linprog(c, A_ub=-A if A.size else None, b_ub=-b if A.size else None, A_eq=E if E.size else None,
                    b_eq=d if E.size else None, bounds=[(None, None)] * n, method='highs')
        return {0: GRB.OPTIMAL, 2: GRB.INFEASIBLE, 3: GRB.UNBOUNDED}.get(r.status, GRB.NUMERIC), \
            (r.x if r.status == 0 else None)
    if np.linalg.eigvalsh(Q).min() <= 0:
        return GRB.NUMERIC, None
    scale = 1 + np.abs(b).max() if b.size else 1.0
    for k in range(0, n - len(d) + 1):
        for S in itertools.combinations(range(len(b)), k):
            C = np.vstack((E, A[list(S)]))
            q = C.shape[0]
            if q and np.linalg.svd(C)[1].min() < 1e-9:
                continue
            K = np.vstack((np.hstack((2 * Q, -C.T)), np.hstack((C, np.zeros((q, q))))))
            try:
                s = np.linalg.solve(K, np.r_[-c, d, b[list(S)]])
            except np.linalg.LinAlgError:
                continue
            x, lam = s[:n], s[n + len(d):]
            if np.all(np.isfinite(s)) and (b.size == 0 or (A.dot(x) - b).min() >= -1e-9 * scale) and \
                    (k == 0 or lam.min() >= -1e-9 * (1 + np.abs(c).max())):
                return GRB.OPTIMAL, x
    return GRB.INFEASIBLE, None


def install():
    mod = types.ModuleType('gurobipy')
    for k in ('GRB', 'Model', 'Var', 'LinExpr', 'QuadExpr', 'GurobiError', 'quicksum', 'TempConstr'):
        setattr(mod, k, globals()[k])
    mod.Env = object
    mod.__version__ = 'stub'
    sys.modules['gurobipy'] = mod
