"""Interposition on the public functions and methods of active_subspaces.

While active, every public function and method is replaced (in every module that refers to it) by a wrapper that
compares, before and after the call and also when it raises:
- the bytes of every array reachable from its arguments (for methods that only read, also from the object itself);
- the state of numpy's global random generator.
What was seen goes to a Log.
"""
import collections
import copy
import contextlib
import functools
import inspect
import sys

import numpy as np

# methods that only read their object
READERS = set(['normalize', 'unnormalize', 'forward', 'inverse', 'regularize_z', 'predict', 'predict_av', 'gradient',
               'gradient_av', '__call__', 'run', 'linear_program_eq', 'linear_program_ineq', 'quadratic_program_bnd',
               'quadratic_program_ineq'])

# results determined by the arguments alone: they neither use nor disturb the global random generator
DETERMINISTIC = set('''
 active_subspace ols_subspace qphd_subspace eig_partition errbnd_partition ladle_partition sorted_eigh
 Subspaces.partition nzv interval_endpoints unique_rows
 UnboundedActiveVariableDomain.__init__ ActiveVariableMap.__init__ ActiveVariableMap.forward
 UnboundedMinVariableMap.regularize_z MinVariableMap.train
 interval_design maximin_design gauss_hermite_design r_hermite r_jacobi jacobi_matrix gl1d gh1d g1d gauss_hermite
 gauss_legendre BoundedNormalizer.normalize BoundedNormalizer.unnormalize UnboundedNormalizer.normalize
 UnboundedNormalizer.unnormalize BoundedNormalizer.__init__ UnboundedNormalizer.__init__ process_inputs
 process_inputs_outputs conditional_expectations
 PolynomialApproximation.train PolynomialApproximation.predict RadialBasisApproximation.train
 RadialBasisApproximation.predict ResponseSurface.gradient ResponseSurface.__call__ exponential_squared
 grad_exponential_squared polynomial_bases grad_polynomial_bases index_set
 ActiveSubspaceResponseSurface.train_with_data ActiveSubspaceResponseSurface.predict_av
 ActiveSubspaceResponseSurface.gradient_av ActiveSubspaceResponseSurface.predict ActiveSubspaceResponseSurface.gradient
 ActiveSubspaceResponseSurface.__call__
 '''.split())

# the same when they succeed (a failing solver names its report at random)
ON_SUCCESS = set('''BoundedMinVariableMap.regularize_z minimize QPSolver.linear_program_eq QPSolver.linear_program_ineq
 QPSolver.quadratic_program_bnd QPSolver.quadratic_program_ineq'''.split())

# the same, once the user's function does not touch the generator (ours never do)
CALLBACK = set('''av_minimize interval_minimize zonotope_minimize unbounded_minimize finite_difference_gradients
 SimulationRunner.run SimulationGradientRunner.run SimulationRunner.__init__ SimulationGradientRunner.__init__'''.split())


# not repeated with unusual numbers: searches that may then take long
SEARCHES = set('''zonotope_vertices BoundedActiveVariableDomain.__init__ BoundedActiveVariableDomain.compute_boundary
 sample_z hit_and_run_z rejection_sampling_z random_walk_z BoundedActiveVariableMap.regularize_z ActiveVariableMap.inverse
 integrate av_integrate quadrature_rule av_quadrature_rule av_design minimize av_minimize interval_minimize zonotope_minimize
 unbounded_minimize interval_quadrature_rule zonotope_quadrature_rule maximin_design index_set
 ActiveSubspaceResponseSurface.train_with_interface SimulationRunner.run SimulationGradientRunner.run
 finite_difference_gradients BoundedMinVariableMap.regularize_z MinVariableMap.inverse'''.split())

# these take time that grows faster than the number of rows
COSTLY = set('''local_linear_gradients opg_subspace Subspaces.compute RadialBasisApproximation.train
 RadialBasisApproximation.predict exponential_squared grad_exponential_squared ActiveSubspaceResponseSurface.train_with_data
 ResponseSurface.gradient ResponseSurface.__call__ ActiveSubspaceResponseSurface.predict qphd_subspace conditional_expectations
 zonotope_barycenter gauss_hermite_design QPSolver.linear_program_eq QPSolver.linear_program_ineq
 QPSolver.quadratic_program_bnd QPSolver.quadratic_program_ineq'''.split())


class Log(object):
    def __init__(self):
        self.calls = collections.Counter()
        self.raised = collections.Counter()
        self.arrays = 0
        self.objects = 0           # calls around which the attributes of the objects involved were compared
        self.mutated = []          # (function, argument, detail)
        self.rng_used = collections.Counter()
        self.rng_kept = collections.Counter()
        self.rng_bad = []          # deterministic functions that changed the generator
        self.depth = 0
        self.echo = None           # random state: now and then repeat a call after overwriting what it returned
        self.echoes = 0
        self.odd = None            # random state: now and then repeat a call with unusual values and sizes
        self.odds = 0
        self.odds_raised = 0
        self.shared = []           # functions whose results depend on what became of earlier results


def digest(a):
    if a.dtype == object:
        return repr(a)
    return (a.shape, a.dtype.str, a.tobytes())


def arrays(x, path, out, depth, seen):
    """All arrays reachable from x: containers and objects of active_subspaces."""
    if isinstance(x, np.ndarray):
        if x.size <= 200000:
            out.append((path, x))
    elif depth <= 0 or id(x) in seen:
        return
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, v in enumerate(x[:50]):
            arrays(v, '%s[%d]' % (path, i), out, depth - 1, seen)
    elif isinstance(x, dict):
        seen.add(id(x))
        for k, v in x.items():
            arrays(v, '%s[%r]' % (path, k), out, depth - 1, seen)
    elif type(x).__module__.startswith('active_subspaces'):
        seen.add(id(x))
        for k, v in list(vars(x).items()):
            arrays(v, '%s.%s' % (path, k), out, depth - 1, seen)


def state(x, path, out, depth, seen):
    """path -> digest of the public attributes (arrays and plain values) of the library's objects reachable from x."""
    if depth <= 0 or id(x) in seen:
        return
    if isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, v in enumerate(x[:50]):
            state(v, '%s[%d]' % (path, i), out, depth - 1, seen)
    elif type(x).__module__.startswith('active_subspaces'):
        seen.add(id(x))
        for k, v in list(vars(x).items()):
            if k.startswith('_'):
                continue
            q = '%s.%s' % (path, k)
            if isinstance(v, np.ndarray):
                if v.size <= 200000:
                    out[q] = digest(v)
            elif v is None or isinstance(v, (bool, int, float, str, np.number)):
                out[q] = repr(v)
            else:
                state(v, q, out, depth - 1, seen)


def lookup(x, names):
    for n in names:
        x = vars(x).get(n)
        if x is None:
            return None
    return x


def wrap(fn, name, method, log):
    short = name.split('.')[-1]
    try:
        params = list(inspect.signature(fn).parameters)
    except (TypeError, ValueError):
        params = []

    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        todo, objects = [], []
        for i, v in enumerate(args):
            label = params[i] if i < len(params) else 'argument %d' % i
            if method and i == 0:
                if short not in READERS:
                    # the maps, domains and subspaces it refers to are only read
                    objects += [('self.' + k, u) for k, u in list(vars(v).items()) if k in ('avmap', 'domain', 'subspaces')]
                    continue
                label = 'self'
            objects.append((label, v))
        objects += list(kwargs.items())
        states = {}
        for k, v in objects:
            arrays(v, k, todo, 4, set())
            state(v, k, states, 4, set())
        before = [(p, a, digest(a)) for p, a in todo]
        lists = [(i, v, list(v)) for i, v in enumerate(args) if type(v) is list]
        st = np.random.get_state()
        failed = False
        log.depth += 1
        try:
            out = fn(*args, **kwargs)
            if log.depth == 1 and log.echo is not None and name in DETERMINISTIC and name != 'maximin_design' and (
                    not method or short in READERS) and log.echo.rand() < 0.6:
                given = []
                for i, v in enumerate(args):
                    if not (method and i == 0):
                        arrays(v, '', given, 4, set())
                for v in kwargs.values():
                    arrays(v, '', given, 4, set())
                kept = copy.deepcopy(out)
                repeat_after_overwriting(lambda: fn(*args, **kwargs), kept, [a for _, a in given], name, log)
                repeat_with_changed_arguments(fn, args, kwargs, method, name, log)
                if any(a.flags.writeable and not agree([a], [b]) for a, b in zip(results(out, []), results(kept, []))):
                    log.shared.append(name + ' (its own earlier result changed)')
            while log.depth == 1 and log.odd is not None and name not in SEARCHES and log.odd.rand() < 0.6:
                repeat_with_odd_arguments(fn, args, kwargs, method, name, params, log)
            return out
        except BaseException:
            failed = True
            log.raised[name] += 1
            raise
        finally:
            log.depth -= 1
            log.calls[name] += 1
            log.arrays += len(before)
            for p, a, d in before:
                if digest(a) != d:
                    log.mutated.append((name, p, '%s %s' % (a.shape, a.dtype)))
            if states:
                now = {}
                for k, v in objects:
                    state(v, k, now, 4, set())
                log.objects += 1
                for q, d in states.items():
                    if now.get(q) != d:
                        log.mutated.append((name, q, 'attribute replaced'))
            for i, v, c in lists:
                if len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
                    log.mutated.append((name, params[i] if i < len(params) else str(i), 'list %r became %r' % (c, v)))
            st2 = np.random.get_state()
            if st[2:] == st2[2:] and np.array_equal(st[1], st2[1]):
                log.rng_kept[name] += 1
            else:
                log.rng_used[name] += 1
                if name in DETERMINISTIC or name in CALLBACK or name in ON_SUCCESS and not failed:
                    log.rng_bad.append(name)
    return wrapper


def results(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            results(v, out)
    return out


def agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype.kind not in 'fiub' or y.dtype.kind not in 'fiub':
            return False
        ok = np.isfinite(x)
        if not np.array_equal(ok, np.isfinite(y)) or np.any(np.abs(x[ok] - y[ok]) > 1e-7 * (1 + np.abs(x[ok]).max(initial=0))):
            return False
    return True


def repeat_after_overwriting(call, first, given, name, log):
    """call() again; then once more after overwriting the arrays it returned: the answer must not have changed."""
    keep = [a.copy() for a in results(first, [])]
    if not keep:
        return
    try:
        again = results(call(), [])
        if not agree(keep, again):
            return                              # not repeatable to rounding, which other properties judge
        done = 0
        for a in again:
            if a.size and a.flags.writeable and not any(np.may_share_memory(a, g) for g in given):
                a[...] = 3 if a.dtype.kind in 'iub' else -7.25
                done += 1
        if not done:
            return
        last = results(call(), [])
    except Exception:
        return
    log.echoes += 1
    if not agree(keep, last):
        log.shared.append(name)


def repeat_with_changed_arguments(fn, args, kwargs, method, name, log):
    """Change the arrays given in place and call again: the answer must be that for other arrays of the same contents."""
    mine = [v for i, v in enumerate(args) if not (method and i == 0)] + [kwargs[k] for k in sorted(kwargs)]
    mine = [v for v in mine if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size and v.flags.writeable]
    if not mine or any(np.may_share_memory(a, b) for i, a in enumerate(mine) for b in mine[:i]):
        return
    saved = [a.copy() for a in mine]
    kind = log.echo.randint(3)
    try:
        for a in mine:
            if kind == 0:
                a *= 0.96875
            elif kind == 1:
                a[...] = a[::-1].copy()
            elif a is mine[0]:
                a[log.echo.randint(len(a))] *= 0.96875

        def fresh(v):
            return v.copy(order='K') if any(v is a for a in mine) else v
        a2 = [v if method and i == 0 else fresh(v) for i, v in enumerate(args)]
        k2 = {k: fresh(v) for k, v in kwargs.items()}
        mine2 = [v for v in a2 if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size]
        try:
            got = results(copy.deepcopy(fn(*args, **kwargs)), [])
            want = results(copy.deepcopy(fn(*a2, **k2)), [])
            if not agree(want, results(fn(*[np.asfortranarray(fresh(v)) if any(v is a for a in mine2) else v for v in a2], **k2), [])):
                return                          # not repeatable to rounding
        except Exception:
            return
        log.echoes += 1
        if want and not agree(want, got):
            log.shared.append(name + ' (arguments changed in place)')
    finally:
        for a, b in zip(mine, saved):
            a[...] = b


def odd(a, rng, rows):
    """An unusual copy of the array."""
    a = a.copy(order='F' if rng.rand() < 0.3 else 'C')
    if rows > 1:
        a = np.repeat(a, rows, axis=0)
    kind = rng.randint(6)
    if a.dtype.kind in 'iu':
        return a + rng.randint(1, 5) if kind < 2 else a
    if a.dtype.kind != 'f' or not a.size:
        return a
    if kind == 0:
        a *= 10.0 ** rng.randint(-12, 9)
    elif kind == 1:
        a *= -1
    elif kind == 2:
        a[rng.randint(len(a)) if a.ndim else ()] = 0
    elif kind == 3:
        a[-(1 + rng.randint(len(a))):] = 0
    elif kind == 4:
        a.ravel(order='K')[rng.randint(a.size)] *= 10.0 ** rng.randint(-12, 9)
    return a


def repeat_with_odd_arguments(fn, args, kwargs, method, name, params, log):
    """The same call with scaled, signed, zero, tiny and huge numbers and many rows, on a copy of the object: it may
    raise, but neither changes what it is given nor, where it is deterministic, the generator."""
    rng = log.odd
    given = list(args[1:] if method else args) + [kwargs[k] for k in sorted(kwargs)]
    long = [len(v) for v in given if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind in 'fiu']
    if not long or any(callable(v) for v in given) and max(long) > 200:
        return
    rows = 1
    if rng.rand() < 0.25:
        rows = max(1, int(rng.choice([60, 300] if name in COSTLY else [300, 1500, 6000])) // max(long))
    try:
        head = [copy.deepcopy(args[0])] if method else []
    except Exception:
        return
    which = rng.rand(len(given)) < 0.6
    mine = []

    def make(i, v):
        if isinstance(v, np.ndarray) and v.ndim:
            k = rows if len(v) == max(long) else 1
            index = i + bool(method) < len(params) and params[i + bool(method)] == 'ind'
            v = np.repeat(v, k, axis=0) + (rng.randint(4) if index else 0) if index or not which[i] else odd(v, rng, k)
            mine.append(v)
        return v
    labels = [params[i + bool(method)] if i + bool(method) < len(params) else str(i) for i in range(len(given))]
    a2 = [make(i, v) for i, v in enumerate(given[:len(args) - bool(method)])]
    k2 = {k: make(len(a2) + i, kwargs[k]) for i, k in enumerate(sorted(kwargs))}
    before = [digest(v) for v in mine]
    short = name.split('.')[-1]
    states = {}
    if head and short in READERS:
        state(head[0], 'self', states, 4, set())
    st = np.random.get_state()
    failed = False
    try:
        fn(*(head + a2), **k2)
    except Exception:
        failed = True
        log.odds_raised += 1
    st2 = np.random.get_state()
    np.random.set_state(st)
    log.odds += 1
    for v, d in zip(mine, before):
        if digest(v) != d:
            log.mutated.append((name, 'of shape %s' % (v.shape,), 'called with unusual numbers, arguments %s' % labels))
    now = {}
    if states:
        state(head[0], 'self', now, 4, set())
        for q, d in states.items():
            if now.get(q) != d:
                log.mutated.append((name, q, 'attribute changed by a call with unusual numbers'))
    if not (st[2:] == st2[2:] and np.array_equal(st[1], st2[1])) and (
            name in DETERMINISTIC or name in CALLBACK or name in ON_SUCCESS and not failed):
        log.rng_bad.append(name + ' (with unusual numbers)')


def modules():
    import active_subspaces
    return [m for k, m in sorted(sys.modules.items())
            if m is not None and (k == 'active_subspaces' or k.startswith('active_subspaces.')) and 'plotters' not in k]


@contextlib.contextmanager
def watching(log):
    """Interpose for the duration of the block."""
    undo = []
    replaced = {}
    try:
        mods = modules()
        for mod in mods:
            for k, v in list(vars(mod).items()):
                if inspect.isfunction(v) and v.__module__ == mod.__name__ and not k.startswith('_'):
                    replaced[id(v)] = (v, wrap(v, k, False, log))
                elif inspect.isclass(v) and v.__module__ == mod.__name__:
                    for kk, vv in list(vars(v).items()):
                        if inspect.isfunction(vv) and (not kk.startswith('_') or kk in ('__init__', '__call__')):
                            undo.append((v, kk, vv))
                            setattr(v, kk, wrap(vv, '%s.%s' % (k, kk), True, log))
        others = [m for k, m in sorted(sys.modules.items()) if m is not None and k.startswith('monitors.p_')]
        for mod in mods + others:
            for k, v in list(vars(mod).items()):
                if id(v) in replaced:
                    undo.append((mod, k, v))
                    setattr(mod, k, replaced[id(v)][1])
        yield log
    finally:
        for o, k, v in reversed(undo):
            setattr(o, k, v)
