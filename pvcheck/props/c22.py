"""C22 inputs are left as given, and separate instances share nothing."""
import copy

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure
from pvcheck.props.c04 import built_cases
from pvcheck.reports import build_everything

RULE = ('A generated run whose inputs are compared before and after byte by byte, or two '
        'instances of which one is worked on while the other is watched; non-trivial when '
        'there are two or more rows, or both instances really differ.')


def _snap(x):
    import pandas as pd
    if isinstance(x, dict):
        return {k: _snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_snap(v) for v in x]
    if isinstance(x, (pd.Series, pd.DatetimeIndex)):
        return (x.copy(deep=True),)
    if isinstance(x, np.ndarray):
        return x.copy()
    return copy.deepcopy(x)


def _eq(a, b):
    import pandas as pd
    if isinstance(a, dict):
        return set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], (pd.Series,
                                                                  pd.DatetimeIndex)):
        return a[0].equals(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return type(a) is type(b) and (a == b or (a != a and b != b))


HOW = ['engine_full', 'engine_fast', 'run_full', 'run_fast', 'scalars', 'series']


@st.composite
def input_cases(draw):
    c = draw(gen.runs(max_steps=4, array=gen.arrays(max_rows=4, max_cut=2), ghi=True))
    c['how'] = draw(st.sampled_from(HOW))
    c['row'] = draw(st.integers(0, c['array']['n_pvrows'] - 1))
    if draw(st.booleans()):
        c['special'] = draw(st.sampled_from(['night', 'dark', 'flat', 'bad']))
        k = draw(st.integers(0, len(c['times']) - 1))
        t = c['times'][k]
        if c['special'] == 'night':
            t.update(solar_zenith=draw(gen.q(90.5, 150.0, 0.1)))
        elif c['special'] == 'dark':
            t.update(dni=0.0, dhi=0.0)
        elif c['special'] == 'bad':
            # measured series hold such values; they must not be corrected in place
            t[draw(st.sampled_from(['dni', 'dhi']))] = draw(st.sampled_from(
                [-1.0, -50.0, float('nan')]))
        else:
            t['surface_tilt'] = 0.0
    return c


def inputs_kept(case, rec):
    import pandas as pd
    import warnings
    from pvfactors.run import run_timeseries_engine
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    args, kw = gen.fit_args(case['times'])
    args = list(args)
    n = len(args[0])
    params = gen.pv_params(case['array'])
    mp = {k: v for k, v in case['model'].items() if k != 'kind'}
    vp = {'n_aoi_integral_sections': 61}
    how = case['how']
    if how == 'series':
        ix = pd.DatetimeIndex(args[0])
        args = [ix] + [pd.Series(a, index=ix) for a in args[1:]]
        kw = {k: pd.Series(v, index=ix) for k, v in kw.items()}
    elif how == 'scalars':
        args = [args[0][0]] + [float(a[0]) for a in args[1:]]
        kw = {k: float(v[0]) for k, v in kw.items()}
    else:
        # work in the same memory a caller's other arrays may share
        for a in args[1:]:
            a.setflags(write=True)
    objs = [args, kw, params, mp, vp]
    before = [_snap(o) for o in objs]
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if how in ('run_full', 'run_fast'):
            cls = (HybridPerezOrdered if case['model']['kind'] == 'perez'
                   else IsotropicOrdered)
            run_timeseries_engine(
                build_everything, params, *args, cls_irradiance=cls,
                fast_mode_pvrow_index=case['row'] if how == 'run_fast' else None,
                irradiance_model_params=mp, vf_calculator_params=vp, **kw)
        else:
            from pvfactors.engine import PVEngine
            from pvfactors.geometry import OrderedPVArray
            pv = OrderedPVArray.init_from_dict(params)
            eng = PVEngine(pv, irradiance_model=gen.make_model(case['model']))
            eng.fit(*args, **kw)
            if how == 'engine_fast':
                eng.run_fast_mode(pvrow_index=case['row'])
            else:
                eng.run_full_mode()
    names = ['weather / angles', 'ghi', 'array parameters', 'model parameters',
             'calculator parameters']
    labels = ['timestamps', 'DNI', 'DHI', 'solar zenith', 'solar azimuth',
              'surface tilt', 'surface azimuth', 'albedo']
    for k, (b, a) in enumerate(zip(before[0], args)):
        ensure(_eq(b, a), '%s changed by the run (%s): was %s, is %s', labels[k], how, b, a)
    for nm, b, a in zip(names[1:], before[1:], objs[1:]):
        ensure(_eq(b, a), '%s changed by the run (%s): was %s, is %s', nm, how, b, a)
    rec.nontrivial(n > 1)
    rec.tag(how)
    rec.tag(case.get('special', 'plain'))


def _f_front(angles):
    return 0.95 * np.clip(np.sin(np.deg2rad(angles)), 0.0, 1.0)


def _f_back(angles):
    return 0.9 * np.sqrt(np.clip(np.sin(np.deg2rad(angles)), 0.0, 1.0))


def _calculator(case):
    """A calculator of its own, from functions that all of them use."""
    from pvfactors.viewfactors import VFCalculator
    return VFCalculator(_f_front, _f_back, 40) if case.get('aoi') else None


@st.composite
def pair_cases(draw):
    out = {'runs': [draw(gen.runs(low=0, max_steps=3, min_steps=1, model=gen.models(),
                                  array=gen.arrays(max_rows=3, max_cut=2)))
                    for _ in range(2)]}
    out['same_params'] = draw(st.sampled_from([False, False, True]))
    if out['same_params']:
        a = out['runs'][0]['array']
        out['runs'][1]['array'] = a
        ts = out['runs'][1]['times']
        n = len(ts)
        out['runs'][1]['times'] = [draw(gen.steps(a['axis_azimuth'])) for _ in range(n)]
    out['fast'] = draw(st.booleans())
    out['aoi'] = draw(st.booleans())
    out['extra'] = draw(st.booleans())
    return out


def _raw(pvarray):
    """All numbers held by an array, as bytes."""
    out = []
    for x in obs.surfaces(pvarray):
        out.append(np.asarray(x.s.coords.as_array, float).tobytes())
        out.append(np.asarray(x.s.n_vector, float).tobytes())
        for k in sorted(x.s.params):
            v = x.s.params[k]
            if v is None:
                out.append((k, None))
            elif isinstance(v, dict):
                out.append((k, tuple((j, np.asarray(w, float).tobytes())
                                     for j, w in sorted(v.items()))))
            else:
                out.append((k, np.asarray(v, float).tobytes()))
    for k in ('ts_vf_matrix', 'ts_vf_aoi_matrix', 'rotation_vec', 'solar_2d_vectors'):
        v = getattr(pvarray, k, None)
        out.append((k, None if v is None else np.asarray(v, float).tobytes()))
    return out


def two_engines(case, rec):
    """Working with one engine leaves every number of another as it was."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    a, b = case['runs']
    pa = gen.pv_params(a['array'])
    pb = pa if case['same_params'] else gen.pv_params(b['array'])
    before_p = _snap(pa)

    def run(eng, times, n):
        args, kw = gen.fit_args(times)
        eng.fit(*args, **kw)
        if case['fast']:
            for r in range(n):
                eng.run_fast_mode(pvrow_index=r)
        else:
            eng.run_full_mode()
    arr_a = OrderedPVArray.init_from_dict(pa)
    e1 = PVEngine(arr_a, irradiance_model=gen.make_model(a['model']),
                  vf_calculator=_calculator(case))
    run(e1, a['times'], a['array']['n_pvrows'])
    raw = _raw(e1.pvarray)
    rep = build_everything(e1.pvarray)
    # engine objects made from defaults
    arr_b = OrderedPVArray.init_from_dict(pb)
    e2 = PVEngine(arr_b, irradiance_model=gen.make_model(b['model']),
                  vf_calculator=_calculator(case))
    run(e2, b['times'], b['array']['n_pvrows'])
    for x in obs.surfaces(arr_b):
        x.s.update_params({'qinc': np.full(arr_b.n_states, -7.0), 'other': 3.0})
    if case['extra']:
        d1, d2 = (PVEngine(OrderedPVArray.init_from_dict(p)) for p in (pa, pb))
        run(d1, a['times'], a['array']['n_pvrows'])
        raw_d = _raw(d1.pvarray)
        run(d2, b['times'], b['array']['n_pvrows'])
        ensure(_raw(d1.pvarray) == raw_d,
               'an engine made with defaults changed when another was used')
    ensure(_raw(e1.pvarray) == raw, 'numbers of one engine changed when another was used')
    ensure(_eq(before_p, pa), 'array parameters changed: %s to %s', before_p, pa)
    for k, v in build_everything(e1.pvarray).items():
        close(v, rep[k], 'reported %s after another engine was used' % k, atol=0, rtol=0)
    # what the first engine and its parts still know is what they were fitted to
    n_a = a['array']['n_pvrows']
    arr_c = OrderedPVArray.init_from_dict(gen.pv_params(a['array']))
    arr_c.fit(*gen.geometry_inputs(a['times']))
    e1.irradiance.transform(arr_c)
    for x, y in zip(obs.surfaces(arr_a), obs.surfaces(arr_c)):
        for k, v in y.s.params.items():
            close(np.asarray(v, float), np.asarray(x.s.params[k], float),
                  '%s of %s from a model after another was used' % (k, x.label),
                  atol=0, rtol=0)
    if case['fast']:
        for r in range(n_a):
            e1.run_fast_mode(pvrow_index=r)
    else:
        e1.run_full_mode()
    for k, v in build_everything(e1.pvarray).items():
        close(v, rep[k], 'reported %s, run again after another engine was used' % k,
              atol=0, rtol=0)
    # and a fresh one still gives the same
    e3 = PVEngine(OrderedPVArray.init_from_dict(pa),
                  irradiance_model=gen.make_model(a['model']),
                  vf_calculator=_calculator(case))
    run(e3, a['times'], a['array']['n_pvrows'])
    for k, v in build_everything(e3.pvarray).items():
        close(v, rep[k], 'fresh engine after another was used: %s' % k, atol=1e-12,
              rtol=1e-12)
    rec.nontrivial(a != b)
    rec.tag('same_params', case['same_params'])
    rec.tag('fast' if case['fast'] else 'full')


@st.composite
def report_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(min_rows=2, max_rows=3, max_cut=2)))
    c['poke'] = draw(st.sampled_from(['avg', 'vf', 'plotgeom', 'geom', 'param']))
    c['step'] = draw(st.integers(0, len(c['times']) - 1))
    return c


def reading_is_pure(case, rec):
    """Looking at results (averages, snapshots, plots, lists) changes none of them."""
    eng = gen.run_full(case)
    pv = eng.pvarray
    t = case['step']
    raw = _raw(pv)
    rep = build_everything(pv)
    how = case['poke']
    for _ in range(2):
        if how == 'avg':
            for r in pv.ts_pvrows:
                for side in (r.front, r.back):
                    side.get_param_weighted('qinc')
                    side.get_param_ww('qinc')
                    for seg in side.list_segments:
                        seg.get_param_weighted('q0')
                        seg.illum.get_param_weighted('q0')
                        seg.shaded.get_param_ww('q0')
            pv.ts_ground.get_param_weighted('qinc')
        elif how == 'vf':
            eng.vf_calculator.build_ts_vf_matrix(pv)
            for i, r in enumerate(pv.ts_pvrows):
                for s in r.back.all_ts_surfaces:
                    eng.vf_calculator.get_vf_ts_pvrow_element(
                        i, s, pv.ts_pvrows, pv.ts_ground, pv.rotation_vec, pv.width)
        elif how == 'plotgeom':
            import matplotlib
            matplotlib.use('Agg')
            import matplotlib.pyplot as plt
            f, ax = plt.subplots()
            pv.plot_at_idx(t, ax)
            pv.plot_at_idx(t, ax, with_surface_index=True)
            plt.close(f)
        elif how == 'geom':
            for cuts in (True, False):
                g = pv.ts_ground.at(t, x_min_max=(-30.0, 30.0), with_cut_points=cuts)
                g.update_params({'qinc': -1.0})
            for r in pv.ts_pvrows:
                row = r.at(t)
                row.update_params({'qinc': -1.0})
                row.front.list_segments[0].index = 1234
        else:
            for s in pv.all_ts_surfaces:
                s.get_param('qinc')
                s.is_empty
                s.length
                s.centroid
    ensure(_raw(pv) == raw, 'reading (%s) changed the held numbers', how)
    for k, v in build_everything(pv).items():
        close(v, rep[k], 'reported %s after reading (%s)' % (k, how), atol=0, rtol=0)
    rec.nontrivial()
    rec.tag(how)


@st.composite
def turn_cases(draw):
    """Arrays taking turns with one calculator and one model."""
    runs = [draw(gen.runs(low=0, max_steps=2, array=gen.arrays(max_rows=3, max_cut=2)))]
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.booleans()):
            # same sizes: nothing has to be allocated anew
            c = copy.deepcopy(runs[0])
            c['times'] = [draw(gen.steps(c['array']['axis_azimuth']))
                          for _ in c['times']]
        else:
            c = draw(gen.runs(low=0, max_steps=2, array=gen.arrays(max_rows=3, max_cut=2)))
        runs.append(c)
    return {'runs': runs, 'aoi': draw(st.booleans()),
            'model': draw(st.sampled_from([True, True, False])),
            'how': draw(st.sampled_from(['full', 'full', 'fast', 'matrix']))}


def results_stay(case, rec):
    """What an array holds stays while its calculator and model serve other arrays."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    vfc = VFCalculator(_f_front, _f_back, 40) if case['aoi'] else VFCalculator()
    model = gen.make_model(case['runs'][0]['model'])
    held = []
    for i, c in enumerate(case['runs']):
        pv = OrderedPVArray.init_from_dict(gen.pv_params(c['array']))
        mats = []
        if case['how'] == 'matrix':
            pv.fit(*gen.geometry_inputs(c['times']))
            vfc.fit(len(c['times']))
            mats.append(vfc.build_ts_vf_matrix(pv))
            if case['aoi']:
                first = np.array(mats[0])
                mats.append(vfc.build_ts_vf_aoi_matrix(pv, None))
                close(mats[0], first, 'view factors once the absorbed ones are asked for',
                      atol=0, rtol=0)
        else:
            eng = PVEngine(pv, vf_calculator=vfc, irradiance_model=(
                model if case['model'] else gen.make_model(c['model'])))
            args, kw = gen.fit_args(c['times'])
            eng.fit(*args, **kw)
            if case['how'] == 'full':
                eng.run_full_mode()
            else:
                for r in range(c['array']['n_pvrows']):
                    eng.run_fast_mode(pvrow_index=r)
        for k, (old, raw, ms) in enumerate(held):
            ensure(_raw(old) == raw, 'numbers held by array %d changed when array %d was '
                   'simulated with the same calculator', k, i)
            for m, copy_ in ms:
                close(m, copy_, 'matrix of array %d after that of array %d' % (k, i),
                      atol=0, rtol=0)
        held.append((pv, _raw(pv), [(m, np.array(m)) for m in mats]))
    rec.nontrivial()
    rec.tag(case['how'])
    rec.tag('same_sizes', any(c['array'] == case['runs'][0]['array']
                              for c in case['runs'][1:]))


def ground_inputs_kept(case, rec):
    """Building a ground leaves the given shadows, cut points and flags alone."""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    steps, y = case['steps'], case['y']
    yy = y * np.ones(len(steps))
    given = {'shadows': np.array(
        [[[[s['b1'][k] for s in steps], yy], [[s['b2'][k] for s in steps], yy]]
         for k in range(case['n'])], dtype=float)}
    cuts = [np.array([[s['cuts'][k] for s in steps], yy], float) for k in range(case['m'])]
    flags = None if case['flags'] is None else np.array(case['flags'])
    before = _snap([given, cuts, flags])
    g = TsGround.from_ordered_shadows_coords(
        given['shadows'], y_ground=y, flag_overlap=flags,
        cut_point_coords=[TsPointCoords(c[0], c[1]) for c in cuts])
    g.update_params({'qinc': yy.copy()})
    g.at(0)
    g.at(len(steps) - 1, with_cut_points=False)
    ensure(_eq(before, [given, cuts, flags]), 'building a ground changed what it was built '
           'from: %s to %s', before, [given, cuts, flags])
    rec.nontrivial(case['n'] > 1)


FACETS = [
    Facet('ground_inputs_kept', built_cases, ground_inputs_kept, 240),
    Facet('results_stay', turn_cases, results_stay, 240),
    Facet('inputs_kept', input_cases, inputs_kept, 640),
    Facet('two_engines', pair_cases, two_engines, 320),
    Facet('reading_is_pure', report_cases, reading_is_pure, 320),
]
