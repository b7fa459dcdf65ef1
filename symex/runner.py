"""Runs the cases of a property, replays what the solver finds, writes the evidence."""
import contextlib
import gc
import importlib
import json
import logging
import multiprocessing
import os
import pkgutil
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .api import plain

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIOTLS_REPO', '/repo')
VENV_PYTHON = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'
PREFIXES = ('siotls',)

BUDGET = {'quick': 70, 'thorough': 500}       # seconds per job
PATH_CPU = {'quick': 45, 'thorough': 120}         # seconds of processor time for one path
TOTAL = {'quick': 600, 'thorough': 840}        # seconds per check


def _paths():
    sys.dont_write_bytecode = True
    for p in (ROOT, REPO + '/src', SITE):
        if p not in sys.path:
            sys.path.append(p)


def load_symbolic(modules):
    _paths()
    from . import instrument
    instrument.install({'siotls': REPO + '/src', 'harness': ROOT})
    from . import crypto  # noqa: F401
    return _load(modules)

def load_concrete(modules):
    _paths()
    sys.path.insert(0, REPO + '/src')
    return _load(modules)

def _load(modules):
    logging.getLogger('siotls').setLevel(logging.CRITICAL + 1)
    import siotls  # noqa: F401
    for m in pkgutil.walk_packages([REPO + '/src/siotls'], 'siotls.'):
        if '.examples' in m.name or m.name.endswith('__main__'):
            continue
        with contextlib.suppress(ImportError):
            importlib.import_module(m.name)
    for m in modules:
        importlib.import_module('harness.' + m)
    from . import api
    return api.CASES


def modules_for(prop):
    """Harness modules that mention the property."""
    out = []
    for f in sorted(os.listdir(ROOT + '/harness')):
        if f.endswith('.py') and f not in ('__init__.py',):
            text = open(f'{ROOT}/harness/{f}').read()
            if re.search(rf"@case\([^)]*['\"]{prop}['\"]", text):
                out.append(f[:-3])
    return out


# ------------------------------------------------------------------------------ concrete replays

def run_concrete(case, params, inputs, state):
    from . import api
    from .state import Patches
    state.restore()
    sx = api.ConcreteSx(case, params, inputs)
    sx.patches = Patches(PREFIXES + ('harness',))
    logging.getLogger('siotls').setLevel(logging.CRITICAL + 1)
    res = {'status': 'ok'}
    try:
        case.fn(sx)
    except api.CheckFailed as exc:
        res = {'status': 'fail', 'label': exc.label, 'detail': str(exc.detail)[:500]}
    except api.AssumeFailed as exc:
        res = {'status': 'assume', 'detail': str(exc)}
    except api.Inconclusive as exc:
        res = {'status': 'inconclusive', 'detail': str(exc)}
    except _Timeout:
        res = {'status': 'fail', 'label': 'does not terminate', 'detail': ''}
    except Exception as exc:  # noqa: BLE001
        res = exception_result(exc)
    finally:
        sx.close()
        sx.patches.restore()
    res['reached'] = sorted(sx.reached)
    res['observed'] = sx.observed
    return res

class _Timeout(BaseException):
    pass

def exception_result(exc):
    from . import api
    tb = traceback.extract_tb(exc.__traceback__)
    inner = tb[-1].filename if tb else ''
    where = api.origin(exc)
    text = ''.join(traceback.format_exception(exc))[-2500:]
    if '/harness/' in inner and isinstance(
            exc, AttributeError | NameError | ImportError | KeyError | TypeError | IndexError):
        return {'status': 'inconclusive', 'detail': text}
    return {'status': 'fail', 'label': f'unexpected {type(exc).__name__}',
            'detail': f'{exc} in {where[0]}:{where[1]}', 'traceback': text}

def replay_main(path):
    """Run in a fresh process of the project's own interpreter, on the code as it is."""
    with open(path) as f:
        doc = json.load(f)
    cases = load_concrete(doc['modules'])
    from .state import State
    state = State(PREFIXES + ('harness',))
    table = {c.name: c for c in cases[doc['property']]}
    def alarm(*a):
        raise _Timeout
    signal.signal(signal.SIGALRM, alarm)
    out = []
    for run in doc['runs']:
        case = table[run['case']]
        signal.alarm(30)
        try:
            out.append(run_concrete(case, run['params'], run['inputs'], state))
        except _Timeout:
            out.append({'status': 'fail', 'label': 'does not terminate', 'detail': '',
                        'reached': [], 'observed': []})
        signal.alarm(0)
    return out

def replay(prop, modules, runs):
    doc = {'property': prop, 'modules': modules, 'runs': runs}
    fd, path = tempfile.mkstemp(suffix='.json', prefix='sxreplay')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(doc, f)
        p = subprocess.run(
            [VENV_PYTHON, '-B', ROOT + '/check.py', '--replay-batch', path],
            capture_output=True, text=True, timeout=60 + 31 * len(runs),
            env={**os.environ, 'PYTHONPATH': REPO + '/src', 'PYTHONHASHSEED': '0'})
        line = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
        if not line:
            return None, p.stdout[-2000:] + p.stderr[-2000:]
        return json.loads(line[-1][7:]), ''
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    finally:
        os.unlink(path)


# --------------------------------------------------------------------------------------- one job

class Job:
    def __init__(self, prop, modules, case, index, params, tier, seed, known):
        self.prop, self.modules, self.case, self.index = prop, modules, case, index
        self.params = {k: v for k, v in params.items()}
        self.tier, self.seed, self.known = tier, seed, known

    @property
    def name(self):
        ps = ','.join(f'{k}={v}' for k, v in self.params.items())
        return f'{self.case.name}({ps})' if ps else self.case.name


def is_known(known, prop, case, label, detail):
    for k in known:
        if k['property'] == prop and re.fullmatch(k['case'], case) and re.fullmatch(
                k['label'], label) and re.search(k['detail'], detail or ''):
            return k
    return None


def explore(job, deadline):
    from . import core, symapi
    from .core import (EngineError, EngineStop, PathAbort, PathLimit, Unsupported)
    from .state import Patches, State
    from .instrument import SEEN
    SEEN.clear()
    t0 = time.monotonic()
    case, params = job.case, job.params
    gc.disable()
    state = State(PREFIXES + ('harness',))
    budget = (case.budget or {}).get(job.tier, BUDGET[job.tier])
    eng = core.Engine()
    eng.deadline = min(time.monotonic() + budget, deadline)
    core.set_engine(eng)
    res = {'job': job.name, 'case': case.name, 'params': params, 'paths': 0, 'completed': 0,
           'infeasible': 0, 'undecided': {}, 'violations': [], 'known': [], 'unconfirmed': [],
           'inconclusive': [], 'reached': {}, 'exhaustive': True, 'validated': 0, 'diverged': [],
           'checks': 0, 'max_events': 0, 'samples': []}
    tried = {}
    stop = []

    def handle(sx, label, detail, model, extra=None):
        """A counterexample: replay it on the real code."""
        sig = (label,)
        n = tried.get(sig, [0, 0])
        tried[sig] = n
        if n[1] >= 1 or n[0] >= 6:
            return
        n[0] += 1
        candidates = [m for m in (symapi.refine(eng, model), model) if m is not None]
        for m in candidates[:1] if len(candidates) > 1 and candidates[0] is model else candidates:
            inputs = symapi.extract(eng, m)
            run = {'case': case.name, 'params': params, 'inputs': inputs}
            out, err = replay(job.prop, job.modules, [run])
            if out is None:
                res['unconfirmed'].append({'label': label, 'inputs': inputs, 'error': err[-800:]})
                continue
            r = out[0]
            if r['status'] == 'fail':
                n[1] += 1
                item = {'label': r['label'], 'detail': r.get('detail', ''), 'found_as': label,
                        'run': run, 'traceback': r.get('traceback', '')}
                k = is_known(job.known, job.prop, case.name, r['label'], r.get('detail', ''))
                if k:
                    res['known'].append({'text': k['text'], 'item': item})
                else:
                    res['violations'].append(item)
                    stop.append(1)
                return
        res['unconfirmed'].append({'label': label, 'detail': str(detail)[:300], 'inputs': inputs,
                                   'replay': {k: v for k, v in r.items() if k != 'observed'}
                                   if out else err})

    hung = []

    def hang(*a):
        hung.append(1)
        raise PathLimit(f'more than {PATH_CPU[job.tier]} s of processor time on one path')
    signal.signal(signal.SIGVTALRM, hang)
    cap_validate = 12 if job.tier == 'quick' else 40
    pending = []
    while True:
        eng.begin_path()
        state.restore()
        sx = symapi.SymSx(eng, case, params, handle)
        sx.patches = Patches(PREFIXES + ('harness',))
        res['paths'] += 1
        want_concrete = False
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, PATH_CPU[job.tier])
            try:
                case.fn(sx)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            res['completed'] += 1
            for label in sx.reached:
                res['reached'][label] = res['reached'].get(label, 0) + 1
            want_concrete = 'ok'
        except PathAbort:
            res['infeasible'] += 1
        except (PathLimit, Unsupported) as exc:
            if not hung and eng.deadline and time.monotonic() > eng.deadline:
                res['exhaustive'] = False
            else:
                k = f'{type(exc).__name__}: {exc}'
                res['undecided'][k] = res['undecided'].get(k, 0) + 1
                want_concrete = 'undecided'
        except EngineError as exc:
            k = f'EngineError: {str(exc)[:300]}'
            res['undecided'][k] = res['undecided'].get(k, 0) + 1
            res['exhaustive'] = False
            sx.close(); sx.patches.restore()
            break
        except EngineStop:
            raise
        except Exception as exc:  # noqa: BLE001
            r = exception_result(exc)
            if os.environ.get('SX_DEBUG'):
                print(job.name, r.get('traceback', r.get('detail')), file=sys.stderr)
            if r['status'] == 'inconclusive':
                res['inconclusive'].append(r['detail'][-1500:])
                stop.append(1)
            else:
                try:
                    handle(sx, r['label'], r['detail'], eng.get_model())
                except EngineStop:
                    pass
        finally:
            try:
                sx.close()
            finally:
                sx.patches.restore()
        res['checks'] += 0
        res['max_events'] = max(res['max_events'], eng.pos)
        if want_concrete and not stop:
            n = res['paths']
            take = len(pending) < cap_validate or (
                n & (n - 1) == 0 and len(pending) < cap_validate + 12) or (
                want_concrete == 'undecided' and len(pending) < 3 * cap_validate) or hung
            if take:
                try:
                    if hung:
                        eng.deadline += 60
                    m = symapi.refine(eng, eng.get_model())
                    if m is not None:
                        obs = [(l, symapi.ev_plain(m, v)) for l, v in sx.observed]
                        pending.append((symapi.extract(eng, m), obs, want_concrete,
                                        sorted(sx.reached)))
                except EngineStop:
                    pass
        if stop or hung:
            res['exhaustive'] = False
            break
        if time.monotonic() > eng.deadline:
            res['exhaustive'] = False
            break
        if res['paths'] % 200 == 0:
            gc.collect()
        if not eng.backtrack():
            break
    # replay the solver's models of explored paths on the real code
    if pending and not res['violations']:
        runs = [{'case': case.name, 'params': params, 'inputs': i} for i, *_ in pending]
        out, err = replay(job.prop, job.modules, runs)
        if out is None:
            res['diverged'].append(err[-1500:])
        else:
            for (inputs, obs, kind, reached), r, run in zip(pending, out, runs):
                if r['status'] == 'fail':
                    k = is_known(job.known, job.prop, case.name, r['label'], r.get('detail', ''))
                    item = {'label': r['label'], 'detail': r.get('detail', ''), 'run': run,
                            'found_as': f'model of an explored path ({kind})',
                            'traceback': r.get('traceback', '')}
                    if k:
                        res['known'].append({'text': k['text'], 'item': item})
                    else:
                        res['violations'].append(item)
                        break
                elif kind == 'ok':
                    same = [[l, v] for l, v in obs] == [[l, v] for l, v in r['observed']]
                    if r['status'] == 'ok' and same and reached == r['reached']:
                        res['validated'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append({'case': job.name, 'inputs': {
                                k: (v if not isinstance(v, str) or len(v) < 160 else v[:160] + '...')
                                for k, v in inputs.items()}, 'observed': json.loads(
                                    json.dumps(obs))[:6]})
                    else:
                        res['diverged'].append({'inputs': inputs, 'symbolic': obs[:20],
                                                'real': r['observed'][:20], 'status': r['status'],
                                                'detail': r.get('detail', '')[-600:],
                                                'reached': [reached, r['reached']]})
    res['diverged'] = res['diverged'][:4]
    res['functions'] = sorted(SEEN)
    res['checks'] = eng.stats.checks
    res['check_queries'] = eng.stats.check_queries
    res['queries'] = eng.stats.queries
    res['solver_s'] = round(eng.stats.solver_time, 3)
    res['decisions'] = eng.stats.decisions
    res['forks'] = eng.stats.forks
    res['wall_s'] = round(time.monotonic() - t0, 2)
    return res


_JOBS = []
def _work(i):
    job, deadline = _JOBS[i]
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        return i, json.loads(json.dumps(explore(job, deadline), default=plain))
    except BaseException as exc:  # noqa: BLE001
        return i, {'job': job.name, 'case': job.case.name, 'crash': ''.join(
            traceback.format_exception(exc))[-3000:]}


# ------------------------------------------------------------------------------------ the command

def load_known():
    out = []
    path = ROOT + '/known_findings.txt'
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) case=(\S+) label=/(.*?)/ detail=/(.*?)/ (.*)', line)
            if m:
                out.append({'property': m[1], 'case': m[2], 'label': m[3], 'detail': m[4],
                            'text': m[5].strip()})
    return out


def run_property(prop, tier, seed, only=None, workers=8, verbose=False):
    global _JOBS
    t0 = time.monotonic()
    modules = modules_for(prop)
    cases = load_symbolic(modules)
    known = load_known()
    jobs = []
    for c in cases.get(prop, []):
        if tier in c.tiers and (not only or re.search(only, c.name)):
            for i, params in enumerate(c.params[tier]):
                jobs.append(Job(prop, modules, c, i, params, tier, seed, known))
    if not jobs:
        print(f'no case for {prop}')
        return 2
    deadline = time.monotonic() + TOTAL[tier]
    _JOBS = [(j, deadline) for j in jobs]
    results = []
    ctx = multiprocessing.get_context('fork')
    early = False
    gc.collect()
    gc.freeze()
    with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
        for i, r in pool.imap_unordered(_work, range(len(jobs)), chunksize=1):
            results.append(r)
            if verbose:
                print(json.dumps({k: v for k, v in r.items() if k not in ('samples',)},
                                 default=str)[:3000], flush=True)
            if r.get('violations'):
                early = True
                break
        pool.terminate()
    return report(prop, tier, seed, jobs, results, early, time.monotonic() - t0)


def report(prop, tier, seed, jobs, results, early, wall):
    violations = [v for r in results for v in r.get('violations', [])]
    known = {}
    for r in results:
        for k in r.get('known', []):
            known.setdefault(k['text'], k['item'])
    crashes = [r['crash'] for r in results if 'crash' in r]
    inconclusive = [d for r in results for d in r.get('inconclusive', [])]
    os.makedirs(f'{ROOT}/replay', exist_ok=True)
    lines = []
    for n, v in enumerate(violations[:3]):
        path = f'{ROOT}/replay/{prop}-{n}.json'
        with open(path, 'w') as f:
            json.dump({'property': prop, 'modules': modules_for(prop), 'runs': [v['run']],
                       'label': v['label'], 'detail': v['detail'], 'found_as': v['found_as']},
                      f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"{prop}: {v['label']}: {v['detail']} [{v['run']['case']}"
              f" {json.dumps(v['run']['params'])}]")
        print(f"  inputs: {json.dumps(v['run']['inputs'])[:400]}")
    # vacuity: every label announced by a case must have been reached by some job of it
    missing = []
    byname = {}
    for r in results:
        byname.setdefault(r['case'], []).append(r)
    if not early:
        for c in {j.case.name: j.case for j in jobs}.values():
            rs = byname.get(c.name, [])
            got = set()
            for r in rs:
                got |= set(r.get('reached', {}))
            for label in sorted(c.reach - got):
                missing.append(f'{c.name}: {label}')
    def tot(k):
        return sum(r.get(k, 0) for r in results)
    undecided = {}
    for r in results:
        for k, n in r.get('undecided', {}).items():
            undecided[k] = undecided.get(k, 0) + n
    exhaustive = bool(results) and not early and not crashes and all(
        r.get('exhaustive') for r in results) and not undecided
    unconfirmed = [u for r in results for u in r.get('unconfirmed', [])]
    diverged = [d for r in results for d in r.get('diverged', [])]
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    aims = sorted({f for j in jobs for f in j.case.functions})
    bounds = {}
    for j in jobs:
        if j.case.bounds:
            bounds[j.case.name] = j.case.bounds
    samples = [s for r in results for s in r.get('samples', [])][:8]
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('completed'), 'transitions': tot('decisions'),
            'traces_validated_against_impl': tot('validated'), 'samples': samples,
            'jobs': len(jobs), 'jobs_finished': len(results),
            'paths': tot('paths'), 'paths_completed': tot('completed'),
            'paths_infeasible': tot('infeasible'), 'paths_undecided': undecided,
            'all_paths_within_bounds_explored': exhaustive,
            'assertions_discharged': tot('checks'), 'assertion_queries': tot('check_queries'),
            'queries': tot('queries'), 'solver_s': round(tot('solver_s'), 2), 'forks': tot('forks'),
            'functions_encoded': funcs, 'functions_aimed_at': aims, 'bounds': bounds,
            'reached': {c: sorted({l for r in rs for l in r.get('reached', {})})
                        for c, rs in byname.items()},
            'model_replays_diverging': len(diverged),
            'candidates_not_confirmed_on_the_real_code': [
                {'label': u['label'], 'detail': u.get('detail', '')} for u in unconfirmed][:10],
            'per_job': [{k: r.get(k) for k in ('job', 'paths', 'completed', 'exhaustive', 'queries',
                                               'solver_s', 'wall_s')} for r in results][:60],
        },
        'wall_s': round(wall, 2),
        'assumptions': ASSUMPTIONS,
        'violations': [f"{v['label']}: {v['detail']}" for v in violations],
        'known_findings': sorted(known),
    }
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    with open(f'{ROOT}/evidence/{prop}.json', 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    for text in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {text}')
    print(f"{prop} {tier}: {tot('completed')} paths, {tot('checks')} assertions, "
          f"{tot('queries')} queries, {tot('solver_s'):.1f}s solver, "
          f"{tot('validated')} models replayed, exhaustive={exhaustive}, {wall:.1f}s")
    for u in unconfirmed[:5]:
        print('  unconfirmed candidate:', json.dumps(u, default=str)[:1200])
    for d in diverged[:3]:
        print('  model replay diverged:', json.dumps(d, default=str)[:1500])
    for k, n in undecided.items():
        print(f'  undecided x{n}: {k}')
    if lines:
        for l in lines:
            print(l)
        return 1
    for c in crashes[:2]:
        print('  engine crash:', c)
    for d in inconclusive[:2]:
        print('  inconclusive:', d)
    for m in missing:
        print('  not reached:', m)
    if crashes or inconclusive or missing:
        return 2
    return 0


ASSUMPTIONS = [
    'Python semantics of the rewritten operations are those of symex/models.py (validated by '
    'replaying solver models of explored paths on the unmodified code)',
    'hash functions and HMAC are collision free on symbolic data; they are the real ones on '
    'concrete data',
    'AEADs are ideal on symbolic data: a ciphertext is accepted only if it was produced under the '
    'same key, nonce and associated data',
    'signatures are ideal on symbolic data: accepted only if made by that key over that message',
    'bounds as stated per case; nothing is claimed beyond them',
]
