"""Core of the monitoring framework: cases, checks, verdicts, replays, evidence.

A property is decided by *case families*.  A family is a function f(mon, rng): it builds a workload from `rng`, drives
the real active_subspaces code and tells the monitor `mon` what it observed.  The monitor counts every observation and
records violations together with what is needed to replay the very same case (property, family, index, seed).
"""
import collections
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

# The case counts written at the families are relative; these factors make a quick run take some 10 s on 8 cores.
SCALE = dict(D01=4, D02=12, D03=4, D04=1, 
             G01=40, G02=27, G03=40, 
             O01=10, O02=12, O03=9, O04=7, Q01=40, Q02=40, Q03=3, Q04=3, Q05=3, Q06=40, 
             R01=7, R02=6, R03=9, R04=8, R05=7, 
             S01=34, S02=32, S03=8, S04=29, S05=33, S06=6, S07=40, X01=2, X02=1, X03=13, X04=5, X05=15)
THOROUGH = 12                            # a thorough run has at least so many times the cases of a quick one

FAMILIES = collections.OrderedDict()     # property -> [Family]
ABOUT = {}                               # property -> text: what the oracle is


class Family(object):
    def __init__(self, prop, name, fn, quick, thorough):
        self.prop, self.name, self.fn, self.quick, self.thorough = prop, name, fn, quick, thorough


def family(prop, quick, thorough):
    """Register a case family of property `prop` with its number of cases per tier."""
    def deco(fn):
        q = max(1, int(quick * SCALE.get(prop, 1) * float(os.environ.get('VERIF_SCALE', 1))))
        FAMILIES.setdefault(prop, []).append(Family(prop, fn.__name__, fn, q, max(thorough, THOROUGH * q)))
        return fn
    return deco


def about(prop, text):
    ABOUT[prop] = ' '.join(text.split())


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated workload is outside what the property speaks of; counted, not judged."""


class Inconclusive(Exception):
    pass


def brief(x, depth=0):
    """A short JSON-able rendering of a witness value."""
    if isinstance(x, np.ndarray):
        if x.size <= 40:
            return np.array2string(x, precision=17, threshold=1000).replace('\n', '') if x.dtype.kind in 'fc' \
                else str(x.tolist())
        return 'array%s %s min=%r max=%r head=%s' % (x.shape, x.dtype, _f(x.min()), _f(x.max()),
                                                    x.ravel()[:6].tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if isinstance(x, dict) and depth < 3:
        return {str(k): brief(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 3:
        return [brief(v, depth + 1) for v in list(x)[:20]]
    return repr(x)[:300]


def _f(v):
    try:
        return float(v)
    except Exception:
        return str(v)


def known_keys(cache=[]):
    if not cache:
        keys = set()
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            w = line.split()
            if len(w) > 2 and w[0] == 'known:' and w[2].startswith('key='):
                keys.add(w[2][4:])
        cache.append(keys)
    return cache[0]


# results observed lately in this process, with copies: none of them may change afterwards
HELD = collections.deque(maxlen=40)


def hold(label, a):
    if type(a) is np.ndarray and 0 < a.size <= 2000 and a.dtype.kind in 'fiub' \
            and not any(h[1] is a for h in HELD):
        HELD.append((label, a, a.copy()))


class Monitor(object):
    """Collects the observations of one case."""

    def __init__(self):
        self.counts = collections.Counter()      # observation label -> number of evaluated checks
        self.events = collections.Counter()      # other things seen (classes of workloads, calls...)
        self.failures = []                       # (label, message, witness)
        self.inputs = []                         # digests of the inputs driven
        self.nontrivial = False
        self.sample = None
        self.known = []

    # -- workload description
    def input(self, nontrivial=True, **kw):
        h = hashlib.sha1()
        for k in sorted(kw):
            v = kw[k]
            h.update(k.encode())
            if isinstance(v, np.ndarray):
                h.update(str(v.shape).encode())
                h.update(np.ascontiguousarray(v).tobytes())
            else:
                h.update(repr(v).encode())
        self.inputs.append(h.hexdigest())
        self.nontrivial = self.nontrivial or bool(nontrivial)
        if self.sample is None:
            self.sample = {k: brief(v) for k, v in kw.items()}

    def event(self, label, n=1):
        self.events[label] += int(n)

    # -- verdicts
    def fail(self, label, msg, **witness):
        self.failures.append((label, msg, {k: brief(v) for k, v in witness.items()}))

    def known_finding(self, key, msg):
        """True if known_findings.txt lists this mechanism; the run then reports it instead of a violation."""
        if key not in known_keys():
            return False
        self.known.append((key, msg))
        return True

    def check(self, cond, label, msg='', **witness):
        self.counts[label] += 1
        if not bool(cond):
            self.fail(label, msg or label, **witness)
            return False
        return True

    def close(self, got, want, label, rtol=1e-8, atol=0.0, scale=None, **witness):
        """|got - want| <= atol + rtol*scale, same shape, all finite.  scale defaults to max|want|."""
        self.counts[label] += 1
        hold(label, got)
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(label, '%s: shape %s instead of %s' % (label, got.shape, want.shape), got=got, want=want,
                      **witness)
            return False
        if got.size == 0:
            return True
        if got.dtype.kind not in 'fiub':
            self.fail(label, '%s: result of type %s' % (label, got.dtype), got=got, **witness)
            return False
        s = float(np.max(np.abs(want))) if scale is None else float(np.max(np.abs(scale)))
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
        tol = atol + rtol * s
        if not np.all(err <= tol):
            self.fail(label, '%s: error %s exceeds %s' % (label, float(np.nanmax(err)) if err.size else None, tol),
                      got=got, want=want, **witness)
            return False
        return True

    def shape(self, a, shape, label, **witness):
        self.counts[label] += 1
        if not isinstance(a, np.ndarray) or a.shape != tuple(shape):
            self.fail(label, '%s: shape %s instead of %s' % (label, getattr(a, 'shape', type(a)), tuple(shape)),
                      **witness)
            return False
        hold(label, a)
        return True

    def still_held(self):
        """Results observed earlier, in this case or in one before, are as they were."""
        self.counts['results observed earlier unchanged'] += bool(HELD)
        for label, a, was in list(HELD):
            if a.shape != was.shape or not np.array_equal(a, was, equal_nan=a.dtype.kind == 'f'):
                HELD.clear()
                self.fail('results observed earlier unchanged', 'a result observed earlier (%s) has changed' % label,
                          was=was, now=a)
                break

    def raises(self, fn, label, exc=Exception, **witness):
        """fn must raise."""
        self.counts[label] += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail(label, '%s: raised %s instead of %s' % (label, type(e).__name__, exc), **witness)
            return False
        self.fail(label, '%s: was accepted' % label, result=r, **witness)
        return False

    @contextlib.contextmanager
    def guard(self, label, **witness):
        """The code inside works on valid input: an exception out of the code under test is a violation."""
        self.counts[label + ':completes'] += 1
        try:
            yield
        except (Skip, Violation, Inconclusive, CaseTimeout):
            raise
        except Exception as e:
            self.fail(label + ':completes', '%s raised %s: %s' % (label, type(e).__name__, e),
                      traceback=traceback.format_exc()[-1500:], **witness)
            raise Violation(label)


class CaseTimeout(BaseException):
    pass


class CpuTimeout(CaseTimeout):
    pass


CPU_LIMIT = 90


def in_library(e):
    return any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(e.__traceback__))


def _alarm(signum, frame):
    raise CaseTimeout()


def _cpu_alarm(signum, frame):
    raise CpuTimeout()


def case_seed(seed, prop, name, idx):
    h = hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, name, idx)).encode()).digest()
    return int.from_bytes(h[:4], 'little')


# properties whose workloads call functions of their arguments alone, without callbacks
ECHO = set('S01 S02 G03 D02 R01 R02 R03 R04 Q01 Q02 Q05 Q06'.split())


def watched(fam, mon, rng, s):
    """The case, with calls repeated after their results were overwritten or their arguments changed in place."""
    from . import interpose
    log = interpose.Log()
    log.echo = np.random.RandomState(s)
    with interpose.watching(log):
        fam.fn(mon, rng)
    mon.event('calls repeated', log.echoes)
    mon.counts['answers depend on the arguments alone'] += log.echoes
    for name in log.shared[:3]:
        mon.fail('answers depend on the arguments alone', 'a repeated call of %s gives another answer' % name)


def run_case(fam, idx, seed, timeout):
    """Run one case in the current process and scratch directory."""
    s = case_seed(seed, fam.prop, fam.name, idx)
    rng = np.random.RandomState(s)
    np.random.seed((s * 7919 + 13) % (2 ** 32))
    mon = Monitor()
    status = 'ok'
    detail = None
    old = signal.signal(signal.SIGALRM, _alarm)
    oldp = signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.alarm(timeout)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                if fam.prop in ECHO and s % 8 == 0:
                    watched(fam, mon, rng, s)
                else:
                    fam.fn(mon, rng)
        mon.still_held()
    except Skip as e:
        status = 'skip'
        detail = str(e)
    except Violation:
        pass
    except CpuTimeout:
        # no case needs more than a few seconds: the call in progress does not return
        mon.fail('terminates', 'still running after %d s of processor time' % CPU_LIMIT,
                 traceback=traceback.format_exc()[-1500:])
    except CaseTimeout:
        status, detail = 'timeout', 'case exceeded %d s' % timeout
    except Inconclusive as e:
        status, detail = 'error', str(e)
    except (MemoryError, OSError, ArithmeticError):
        status, detail = 'error', traceback.format_exc()
    except np.linalg.LinAlgError as e:
        if in_library(e):
            mon.fail('usable result', '%s: %s' % (type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
        else:
            status, detail = 'error', traceback.format_exc()
    except Exception as e:
        # the code under test raised on a valid request, or returned something no oracle can make sense of
        mon.fail('usable result', '%s: %s' % (type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, oldp)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if mon.failures:
        status = 'violation'
    return status, detail, mon


def _worker(fams, jobs, seed, deadline, case_timeout, scratch, out, silence):
    os.makedirs(scratch)
    os.chdir(scratch)
    if silence:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    res = []
    nviol = 0
    for fi, idx in jobs:
        if time.time() > deadline:
            res.append(dict(fi=fi, idx=idx, status='unrun'))
            continue
        t0 = time.process_time()
        status, detail, mon = run_case(fams[fi], idx, seed, case_timeout)
        r = dict(cpu=time.process_time() - t0, fi=fi, idx=idx, status=status, detail=detail, counts=dict(mon.counts), events=dict(mon.events),
                 inputs=mon.inputs, nontrivial=mon.nontrivial, failures=mon.failures[:5], known=mon.known)
        if idx < 3:
            r['sample'] = mon.sample
        res.append(r)
        if status == 'violation':
            nviol += 1
            if nviol >= 3:
                break
        if len(os.listdir('.')):
            for f in os.listdir('.'):
                p = os.path.join(scratch, f)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    with open(out, 'w') as fh:
        json.dump(res, fh)


def run_property(prop, tier, seed, jobs_n=None, budget=None, case_timeout=None, only=None):
    """Run all case families of a property.  Returns (exit code, evidence)."""
    t0 = time.time()
    fams = FAMILIES[prop]
    if only:
        fams = [f for f in fams if f.name == only]
    if budget is None:
        budget = 500 if tier == 'quick' else 2400
    if case_timeout is None:
        case_timeout = 300
    jobs_n = jobs_n or min(8, os.cpu_count() or 1)
    work = []
    for fi, f in enumerate(fams):
        n = f.quick if tier == 'quick' else f.thorough
        work += [(fi, i) for i in range(n)]
    # spread families evenly over the workers and over time
    order = sorted(work, key=lambda w: ((w[1] + 0.5) / (fams[w[0]].quick if tier == 'quick' else fams[w[0]].thorough),
                                        w[0]))
    scratch = tempfile.mkdtemp(prefix='asmon_')
    pids = []
    results = []
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for k in range(jobs_n):
            mine = order[k::jobs_n]
            if not mine:
                continue
            out = os.path.join(scratch, 'r%d.json' % k)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(fams, mine, seed, t0 + budget, case_timeout, os.path.join(scratch, 'w%d' % k), out, True)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, out))
        died = []
        for pid, out in pids:
            st = os.waitpid(pid, 0)[1]
            if st != 0 or not os.path.exists(out):
                died.append((pid, st))
            else:
                results += json.load(open(out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    results.sort(key=lambda r: (r['fi'], r['idx']))
    counts, events = collections.Counter(), collections.Counter()
    per_family = collections.OrderedDict()
    distinct = set()
    samples = []
    problems = []
    violations = []
    known = collections.OrderedDict()
    for r in results:
        f = fams[r['fi']]
        pf = per_family.setdefault(f.name, dict(cases=0, judged=0, skipped=0, checks=0))
        if r['status'] == 'unrun':
            pf['not_run_for_time'] = pf.get('not_run_for_time', 0) + 1
            continue
        pf['cases'] += 1
        c = sum(r['counts'].values())
        pf['checks'] += c
        pf['slowest_case_cpu_s'] = round(max(pf.get('slowest_case_cpu_s', 0), r['cpu']), 2)
        if r['status'] == 'skip':
            pf['skipped'] += 1
        elif c:
            pf['judged'] += 1
        counts.update(r['counts'])
        events.update(r['events'])
        if r['nontrivial'] and c:
            distinct.add(hashlib.sha1(''.join(r['inputs']).encode()).hexdigest())
        for k, msg in r['known']:
            known.setdefault(k, msg)
        if r['status'] in ('error', 'timeout'):
            problems.append('%s[%d]: %s' % (f.name, r['idx'], r['detail']))
        if r['status'] == 'violation':
            violations.append((f, r))
        if r.get('sample') and len(samples) < 24:
            samples.append(dict(family=f.name, index=r['idx'], input=r['sample']))
    if died:
        problems.append('worker died: %r' % died)
    for f in fams:
        pf = per_family.get(f.name)
        if not pf or pf['judged'] == 0:
            problems.append('family %s: nothing was judged' % f.name)
        elif pf['judged'] * 4 < pf['cases']:
            problems.append('family %s: only %d of %d cases were judged' % (f.name, pf['judged'], pf['cases']))

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(p['cases'] for p in per_family.values()),
            distinct_nontrivial=len(distinct),
            rule='cases are generated from (seed, property, family, index); a case counts as non-trivial when its '
                 'family marked the workload so (more than one sample or dimension, or a stateful sequence) and at '
                 'least one oracle check was evaluated on it; distinct by a digest of all inputs driven. Oracle: '
                 + ABOUT.get(prop, ''),
            samples=samples[:12],
            oracle_checks=sum(counts.values()),
            checks_by_label=dict(sorted(counts.items())),
            events=dict(sorted(events.items())),
            families=per_family,
        ),
        assumptions=['numpy/scipy as installed (LAPACK, HiGHS, SLSQP, Qhull) are trusted as oracles and substrates'],
        wall_s=round(time.time() - t0, 3),
        violations=len(violations))
    if problems:
        evidence['coverage']['inconclusive'] = problems[:10]
    return violations, problems, known, evidence


def write_replay(prop, fam, r, seed, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s_%d_%d.json' % (prop, fam.name, r['idx'], seed))
    with open(p, 'w') as fh:
        json.dump(dict(property=prop, family=fam.name, index=r['idx'], seed=seed, tier=tier, failures=r['failures']),
                  fh, indent=1)
    return p
