"""C10 the run functions (serial, parallel) equal using the engine classes directly."""
import multiprocessing

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen
from pvcheck.core import Facet, close, ensure
from pvcheck.reports import Builder, FlatBuilder, build_everything

RULE = ('Generated runs given to run_timeseries_engine / run_parallel_engine and to the '
        'engine classes; every argument (ghi, albedo, model and view-factor parameters, '
        'fast mode) is generated. Non-trivial when 2+ steps; for parallel when the steps '
        'are split in 2+ folds.')


@st.composite
def cases(draw, max_steps=4, min_steps=1, max_rows=4):
    c = draw(gen.runs(max_steps=max_steps, min_steps=min_steps, ghi=True,
                      array=gen.arrays(max_rows=max_rows, max_cut=2)))
    c['scalar_albedo'] = draw(st.booleans())
    if c['scalar_albedo']:
        for t in c['times']:
            t['albedo'] = c['times'][0]['albedo']
    blank = draw(st.sampled_from(['', '', '', '', '', 'dni', 'dhi', 'albedo']))
    if blank:
        for t in c['times']:
            t[blank] = 0.0
    c['fast'] = draw(st.sampled_from(['no', 'row', 'segment']))
    c['row'] = draw(st.integers(0, c['array']['n_pvrows'] - 1))
    nb = gen.n_cut(c['array'], c['row'], 'back')
    c['seg'] = draw(st.integers(0, nb - 1)) if c['fast'] == 'segment' else None
    c['aoi'] = draw(st.booleans())
    c['sections'] = draw(st.sampled_from([31, 307]))
    c['defaults'] = draw(st.booleans())     # the Perez model is the default
    return c


def _kwargs(case):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvcheck.reports import faoi
    m = {k: v for k, v in case['model'].items() if k != 'kind'}
    kw = {'cls_irradiance': (HybridPerezOrdered if case['model']['kind'] == 'perez'
                             else IsotropicOrdered),
          'irradiance_model_params': m}
    if case['model']['kind'] == 'perez' and case['defaults']:
        del kw['cls_irradiance']
        if not m and not case['aoi']:
            del kw['irradiance_model_params']
    if case['aoi']:
        kw['vf_calculator_params'] = {'faoi_fn_front': faoi, 'faoi_fn_back': faoi,
                                      'n_aoi_integral_sections': case['sections']}
        m.update(faoi_fn_front=faoi, faoi_fn_back=faoi)
    if case['fast'] != 'no':
        kw['fast_mode_pvrow_index'] = case['row']
        kw['fast_mode_segment_index'] = case['seg']
    return kw


def _args(case):
    args, kw = gen.fit_args(case['times'])
    args = list(args)
    if case['scalar_albedo']:
        args[7] = case['times'][0]['albedo']
    return args, kw


def _direct(case):
    from pvfactors.viewfactors import VFCalculator
    kw = _kwargs(case)
    vfc = VFCalculator(**kw.get('vf_calculator_params', {}))
    m = kw['irradiance_model_params']
    extra = {k: v for k, v in m.items() if k.startswith('faoi')}
    eng = gen.make_engine(case, vf_calculator=vfc, model_extra=extra)
    args, k = gen.fit_args(case['times'])
    eng.fit(*args, **k)
    if case['fast'] == 'no':
        return eng.run_full_mode(build_everything)
    return eng.run_fast_mode(build_everything, pvrow_index=case['row'],
                             segment_index=case['seg'])


def compare(got, want, what):
    ensure(isinstance(got, dict) and sorted(got) == sorted(want),
           '%s: report keys differ: %s', what,
           sorted(set(want) ^ set(got)) if isinstance(got, dict) else type(got))
    for k in sorted(want):
        close(np.array(got[k], float), np.array(want[k], float),
              '%s: %s' % (what, k), rtol=1e-7, atol=1e-6)


def serial(case, rec):
    from pvfactors.run import run_timeseries_engine
    args, kw = _args(case)
    rep = run_timeseries_engine(build_everything, gen.pv_params(case['array']), *args,
                                **kw, **_kwargs(case))
    compare(rep, _direct(case), 'run_timeseries_engine')
    rec.nontrivial(len(case['times']) > 1)
    rec.tag('fast', case['fast'] != 'no')
    rec.tag('aoi', case['aoi'])
    rec.tag('ghi', 'ghi' in case['times'][0])


@st.composite
def par_cases(draw):
    many = draw(st.integers(0, 4)) == 4     # more than ten parts to put together
    c = draw(cases(max_steps=13, min_steps=11, max_rows=2) if many
             else cases(max_steps=7))
    c['n_processes'] = (draw(st.integers(10, 14)) if many else
                        draw(st.sampled_from([2, 1, 3, 4, 2, 3, -1])))
    c['series'] = draw(st.sampled_from(['no', 'no', 'time', 'range']))
    c['builder'] = draw(st.sampled_from(['dict', 'list']))
    c['stamps'] = draw(st.sampled_from(['list', 'index', 'array', 'tz']))
    return c


def parallel(case, rec):
    import pandas as pd
    from pvfactors.run import run_parallel_engine
    args, kw = _args(case)
    if case['stamps'] == 'index':
        args[0] = pd.DatetimeIndex(args[0])
    elif case['stamps'] == 'array':
        args[0] = np.array(args[0])
    elif case['stamps'] == 'tz':
        args[0] = pd.DatetimeIndex(args[0], tz='Etc/GMT+7')
    if case['series'] != 'no':
        ix = pd.DatetimeIndex(args[0]) if case['series'] == 'time' else None
        args[1:] = [pd.Series(a, index=ix) if np.ndim(a) else a for a in args[1:]]
        kw = {k: pd.Series(v, index=ix) for k, v in kw.items()}
    procs = case['n_processes'] if case['n_processes'] > 0 else multiprocessing.cpu_count()
    want = _direct(case)
    n = len(case['times'])
    if case['builder'] == 'dict':
        rep = run_parallel_engine(Builder, gen.pv_params(case['array']), *args,
                                  n_processes=case['n_processes'], **kw, **_kwargs(case))
        compare(rep, want, 'run_parallel_engine')
    else:
        # a merge that exposes how many reports there are, in which order
        rep = run_parallel_engine(FlatBuilder, gen.pv_params(case['array']), *args,
                                  n_processes=case['n_processes'], **kw, **_kwargs(case))
        ensure(len(rep) <= procs, '%d reports to merge for %d processes',
               len(rep), procs)
        flat = {k: sum((list(r[k]) for r in rep), []) for k in want}
        compare(flat, want, 'run_parallel_engine, reports in order')
    rec.nontrivial(procs > 1 and n > 1)
    rec.tag('more_processes_than_steps', procs > n)
    rec.tag('uneven', n % procs != 0)
    rec.tag('over_ten_parts', min(n, procs) > 10)


class Report(object):
    """A report that is not a dictionary, compares to nothing and counts as false."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        raise AssertionError('reports are the user\'s: nothing to compare')
    __hash__ = None


@st.composite
def report_cases(draw):
    c = draw(cases(max_steps=2, max_rows=3))
    c['via'] = draw(st.sampled_from(['engine', 'engine', 'function', 'function', 'none']))
    return c


def reports(case, rec):
    """The report function is called once, with the calculated array; what it returns is
    returned. The classes given by the user are the ones that do the work."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.run import run_timeseries_engine
    from pvfactors.viewfactors import VFCalculator
    used = {'engine': 0, 'array': 0, 'model': 0, 'vf': 0}
    seen, rep = [], Report()
    fast = case['fast'] != 'no'

    def build(pvarray):
        live = [s for s in (pvarray.ts_pvrows[case['row']].back.list_segments[
            case['seg'] or 0].all_ts_surfaces) if not s.is_empty]
        seen.append((pvarray, [np.array(s.get_param('qinc'), float) for s in live]))
        return rep

    class Array(OrderedPVArray):
        def fit(self, *a, **k):
            used['array'] += 1
            return super(Array, self).fit(*a, **k)

    class Engine(PVEngine):
        def fit(self, *a, **k):
            used['engine'] += 1
            return super(Engine, self).fit(*a, **k)

    base = HybridPerezOrdered if case['model']['kind'] == 'perez' else IsotropicOrdered

    class Model(base):
        def transform(self, pvarray):
            used['model'] += 1
            return super(Model, self).transform(pvarray)

    class VF(VFCalculator):
        def fit(self, n):
            used['vf'] += 1
            return super(VF, self).fit(n)

    if case['via'] == 'function':
        args, kw = _args(case)
        k = _kwargs(case)
        k.update(cls_irradiance=Model, cls_pvarray=Array, cls_engine=Engine, cls_vf=VF)
        got = run_timeseries_engine(build, gen.pv_params(case['array']), *args, **kw, **k)
        ensure(all(v >= 1 for v in used.values()), 'classes given but not used: %s', used)
        ensure(seen and type(seen[0][0]) is Array, 'report built from a %s', seen and
               type(seen[0][0]).__name__)
    else:
        eng = gen.fit_engine(case)
        fn = build if case['via'] == 'engine' else None
        got = (eng.run_fast_mode(fn, pvrow_index=case['row'], segment_index=case['seg'])
               if fast else eng.run_full_mode(fn))
        if fn is None:
            ensure(got is None, 'a run without report function returns %r', got)
            return
        ensure(len(seen) >= 1 and seen[0][0] is eng.pvarray,
               'report function called with another array')
    ensure(len(seen) == 1, 'report function called %d times', len(seen))
    ensure(got is rep, 'the run returns %r instead of what the report function '
           'returned', type(got).__name__)
    for v in seen[0][1]:
        ensure(v.size == len(case['times']) and np.isfinite(v).all(),
               'the array given to the report function has no results yet: %s', v)
    rec.nontrivial()
    rec.tag(case['via'])


@st.composite
def own_cases(draw):
    c = draw(cases(max_steps=4, max_rows=2))
    c['n_processes'] = draw(st.sampled_from([2, 1, 3]))
    c['own'] = draw(st.lists(st.sampled_from(['array', 'engine', 'model', 'vf']),
                             unique=True, min_size=1))
    c['label'] = draw(st.integers(0, 99))
    return c


def own_classes(case, rec):
    """Every class given to the parallel run is the one that works in every process, and
    the report builder given is the one that builds and merges."""
    from pvcheck import own
    from pvfactors.run import run_parallel_engine
    args, kw = _args(case)
    k = _kwargs(case)
    perez = case['model']['kind'] == 'perez'
    classes = {'array': ('cls_pvarray', own.OwnArray), 'engine': ('cls_engine',
               own.OwnEngine), 'vf': ('cls_vf', own.OwnVF),
               'model': ('cls_irradiance', own.OwnPerez if perez else own.OwnIso)}
    k.update(dict(classes[w] for w in case['own']))
    rep = run_parallel_engine(own.NotesBuilder(case['label']),
                              gen.pv_params(case['array']), *args,
                              n_processes=case['n_processes'], **kw, **k)
    ensure(isinstance(rep, list) and len(rep) > 1 and rep[0] == case['label'],
           'the merged report is %r', rep)
    want = sorted(w for w in case['own'] if w != 'vf' or case['fast'] == 'no')
    for r in rep[1:]:
        ensure(r['label'] == case['label'], 'built by another builder: %s', r)
        ensure(r['class'] == ('OwnArray' if 'array' in case['own'] else 'OrderedPVArray'),
               'array class %s', r['class'])
        ensure(r['steps'] == 0 or r['notes'] == want, 'classes %s were given, %s were '
               'used for a part of the steps', want, r['notes'])
    ensure(sum(r['steps'] for r in rep[1:]) == len(case['times']), 'steps per part %s',
           [r['steps'] for r in rep[1:]])
    rec.nontrivial(case['n_processes'] > 1)
    rec.tag('fast', case['fast'] != 'no')


FACETS = [
    Facet('own_classes', own_cases, own_classes, 48, thorough=600),
    Facet('reports', report_cases, reports, 240),
    Facet('serial', lambda: cases(), serial, 320),
    Facet('parallel', par_cases, parallel, 96, thorough=2000),
]
