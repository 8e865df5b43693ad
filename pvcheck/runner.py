"""Runs the facets of one property, sharded over processes; evidence and replay files."""
import concurrent.futures
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import time
import traceback

from pvcheck import boot
from pvcheck.core import Rec, Violation

LEVEL = 'exploration'
SHRINK_BUDGET_S = 40.0
SOFT_BUDGET_S = {'quick': 420.0, 'thorough': 6 * 3600.0}
HARNESS_ERRORS = (MemoryError, OSError, ImportError, SyntaxError)


class _StopSearch(BaseException):
    pass


def _canon(case):
    return json.dumps(case, sort_keys=True)


def load(prop):
    return importlib.import_module('pvcheck.props.%s' % prop.lower())


def evaluate(facet, case):
    """Returns (rec, violation message or None); harness errors propagate."""
    rec = Rec()
    try:
        facet.check(case, rec)
        return rec, None
    except Violation as e:
        return rec, str(e)
    except HARNESS_ERRORS:
        raise
    except Exception as e:  # noqa: the code under test crashed, or returned rubbish
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(boot.REPO + os.sep)]
        last = (where or tb)[-1]
        return rec, 'raised %s: %s (at %s:%s in %s)' % (
            type(e).__name__, e, last.filename, last.lineno, last.name)


@contextlib.contextmanager
def independent_draws(on):
    """Hypothesis follows every new case by up to five variations of it (parts of the case
    copied over others). They are kept in one shard out of four, where they make for equal
    values in several places; elsewhere every case is drawn anew, so that rare branches of
    a generator come up several times as often."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner as R
    kept = R.__dict__.get('generate_mutations_from')
    if not on or kept is None:
        yield
        return
    R.generate_mutations_from = lambda self, data: None
    try:
        yield
    finally:
        R.generate_mutations_from = kept


def run_shard(prop, facet_name, shard, n, seed, tier):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    module = load(prop)
    facet = [f for f in module.FACETS if f.name == facet_name][0]
    h = hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, facet_name, shard)).encode())
    hseed = int.from_bytes(h.digest()[:8], 'big')
    out = {'facet': facet_name, 'shard': shard, 'evaluations': 0, 'hashes': set(),
           'tags': {}, 'samples': [], 'violation': None, 'error': None,
           'not_run_budget': 0, 'shrink_evals': 0}
    t0 = time.time()
    state = {'best': None, 'first_fail': None}

    def body(case):
        if state['first_fail'] is not None:
            out['shrink_evals'] += 1
            if time.time() - state['first_fail'] > SHRINK_BUDGET_S:
                raise _StopSearch()
        elif time.time() - t0 > SOFT_BUDGET_S[tier]:
            out['not_run_budget'] += 1
            return
        rec, msg = evaluate(facet, case)
        if state['first_fail'] is None:
            out['evaluations'] += 1
            for tag in rec.tags:
                out['tags'][tag] = out['tags'].get(tag, 0) + 1
            if rec.is_nontrivial:
                c = _canon(case)
                hh = hashlib.sha1(c.encode()).hexdigest()[:16]
                if hh not in out['hashes']:
                    out['hashes'].add(hh)
                    if len(out['samples']) < 2 and len(c) < 3000:
                        out['samples'].append(case)
        if msg is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            c = _canon(case)
            if state['best'] is None or len(c) <= len(_canon(state['best'][0])):
                state['best'] = (json.loads(c), msg)
            raise Violation(msg)

    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(given(facet.strategy())(body))
    test = hypothesis.seed(hseed)(test)
    try:
        with independent_draws(shard % 4 != 3):
            test()
    except (_StopSearch, Violation, hypothesis.errors.Flaky):
        pass
    except BaseException as e:
        if state['best'] is None:
            out['error'] = ''.join(traceback.format_exception(e))
    if state['best'] is not None:
        out['violation'] = state['best']
    return out


def known_findings():
    path = os.path.join(boot.VERIF, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def is_known(module, prop, facet_name, case, findings):
    for f in findings.get('known', []):
        if f['property'] == prop and f['facet'] == facet_name:
            pred = getattr(module, f['predicate'])
            if pred(case):
                return f
    return None


def _compact(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + '...'


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    only = None
    rest = list(argv[1:])
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = rest.pop(0)
        elif a == '--facet':
            only = rest.pop(0)
        else:
            raise SystemExit('unknown argument %r' % a)
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    module = load(prop)
    findings = known_findings()
    if replay:
        with open(replay) as f:
            data = json.load(f)
        facet = [f for f in module.FACETS if f.name == data['facet']][0]
        _, msg = evaluate(facet, data['case'])
        if msg is None:
            print('replay: property %s facet %s holds on this case'
                  % (prop, facet.name))
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1

    t0 = time.time()
    tasks = []
    ncpu = min(8, os.cpu_count() or 1)
    for facet in module.FACETS:
        if only and facet.name != only:
            continue
        total = facet.quick if tier == 'quick' else facet.thorough
        k = max(1, min(facet.shards, total))
        for s in range(k):
            n = total // k + (1 if s < total % k else 0)
            tasks.append((prop, facet.name, s, n, seed, tier))
    results, errors = [], []
    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(ncpu, mp_context=ctx) as ex:
        futs = [ex.submit(run_shard, *t) for t in tasks]
        for t, fu in zip(tasks, futs):
            try:
                results.append(fu.result())
            except BaseException as e:
                errors.append('%s: %r' % (t, e))
    wall = time.time() - t0

    hashes, facets, samples, violations, budget = set(), {}, [], [], 0
    for r in results:
        d = facets.setdefault(r['facet'], {'evaluations': 0, 'distinct_nontrivial': 0,
                                           'classes': {}, '_h': set()})
        d['evaluations'] += r['evaluations']
        d['_h'] |= r['hashes']
        for t, c in r['tags'].items():
            d['classes'][t] = d['classes'].get(t, 0) + c
        hashes |= {r['facet'] + ':' + h for h in r['hashes']}
        budget += r['not_run_budget']
        if len([s for s in samples if s['facet'] == r['facet']]) < 2:
            samples += [{'facet': r['facet'], 'case': _compact(c)}
                        for c in r['samples'][:1]]
        if r['violation']:
            violations.append((r['facet'],) + tuple(r['violation']))
        if r['error']:
            errors.append(r['error'])
    for d in facets.values():
        d['distinct_nontrivial'] = len(d.pop('_h'))

    real, seen_known = [], {}
    for fname, case, msg in violations:
        f = is_known(module, prop, fname, case, findings)
        if f:
            seen_known[f['id']] = f
        else:
            real.append((fname, case, msg))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in facets.values()),
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE, 'samples': samples, 'facets': facets,
            'skipped_on_time_budget': budget,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(real)}
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for f in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if real:
        outdir = os.path.join(boot.VERIF, 'out', 'replay')
        os.makedirs(outdir, exist_ok=True)
        done = set()
        for fname, case, msg in sorted(real, key=lambda t: len(_canon(t[1]))):
            if fname in done:
                continue
            done.add(fname)
            path = os.path.join(outdir, '%s-%s.json' % (prop, fname))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'facet': fname, 'seed': seed,
                           'message': msg, 'case': case}, f, indent=1)
            print('%s/%s: %s' % (prop, fname, msg))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR:', e, file=sys.stderr)
        return 2
    print('%s ok: %d cases, %d distinct non-trivial, %.1fs' % (
        prop, evidence['coverage']['evaluations'], len(hashes), wall))
    return 0


def entry():
    code = 2
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
    finally:
        if boot.OWN_SCRATCH:
            shutil.rmtree(boot.SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)
