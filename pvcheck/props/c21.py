"""C21 the same inputs in another accepted form give the same results."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure
from pvcheck.reports import build_everything

RULE = ('A generated run and the same run with its inputs in another form (scalars, '
        'integers, series, other timestamp types, defaults left out); non-trivial when '
        'the form really differs and 1+ row surface is lit.')


def _dump(eng):
    return build_everything(eng.pvarray)


def _same(a, b, what):
    ensure(set(a) == set(b), '%s: reported values %s', what, sorted(set(a) ^ set(b))[:4])
    for k in a:
        close(b[k], a[k], '%s: %s' % (what, k), rtol=1e-9, atol=1e-7)


def _run(eng, case):
    if case['fast']:
        for r in range(case['array']['n_pvrows']):
            eng.run_fast_mode(pvrow_index=r)
    else:
        eng.run_full_mode()
    return eng


FORMS = ['series', 'series_dt', 'index_tz', 'stamps', 'stamps64', 'ints', 'albedo_scalar', 'ghi',
         'kwargs']


@st.composite
def cases(draw):
    c = draw(gen.runs(low=0, max_steps=3, array=gen.arrays(max_rows=3, max_cut=2), ghi=True))
    c['form'] = draw(st.sampled_from(FORMS))
    c['fast'] = draw(st.booleans())
    if c['form'] == 'albedo_scalar':
        c['type'] = draw(st.sampled_from(['float', 'int', 'float64', 'int64']))
        if c['type'].startswith('int'):
            c['times'][0]['albedo'] = draw(st.sampled_from([0.0, 1.0]))
        for t in c['times']:
            t['albedo'] = c['times'][0]['albedo']
    if c['form'] == 'ghi':
        for t in c['times']:
            t.pop('ghi', None)
    if c['form'] == 'ints':
        for t in c['times']:
            for k in list(t):
                if k not in ('albedo', 'doy', 'year', 'hour'):
                    t[k] = float(round(t[k]))
            t['surface_azimuth'] = float(round(t['surface_azimuth']))
        a = c['array']
        ax = float(round(a['axis_azimuth']))
        for t in c['times']:
            side = 1 if draw(st.booleans()) else -1
            t['surface_azimuth'] = (ax + 90.0 * side) % 360.0
            t['dhi'] = max(t['dhi'], 1.0)
            t['solar_zenith'] = min(t['solar_zenith'], 89.0)
        a['axis_azimuth'] = ax
    return c


TYPES = {'float': float, 'int': int, 'float64': np.float64, 'int64': np.int64}
NAMES = ['timestamps', 'DNI', 'DHI', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
         'surface_azimuth', 'albedo']


def forms(case, rec):
    import pandas as pd
    form = case['form']
    args, kw = gen.fit_args(case['times'])
    e1 = gen.make_engine(case)
    e1.fit(*args, **kw)
    ref = _dump(_run(e1, case))
    n = len(args[0])
    args2, kw2 = list(args), dict(kw)
    case2 = dict(case, array=dict(case['array']))
    if form in ('series', 'series_dt', 'index_tz'):
        ix = (pd.RangeIndex(n) if form == 'series' else
              pd.DatetimeIndex(args[0], tz='Etc/GMT+7' if form == 'index_tz' else None))
        args2 = [ix if form != 'series' else args[0]]
        args2 += [pd.Series(a, index=ix) for a in args[1:]]
        kw2 = {k: pd.Series(v, index=ix) for k, v in kw.items()}
    elif form == 'stamps':
        args2[0] = pd.DatetimeIndex(args[0])
    elif form == 'stamps64':
        args2[0] = np.array(args[0], dtype='datetime64[ns]')
    elif form == 'ints':
        a = case2['array']
        for k, v in list(a.items()):
            if isinstance(v, float) and v.is_integer():
                a[k] = int(v)
        args2[1:7] = [np.round(a).astype(int) for a in args[1:7]]
        for a, b in zip(args[1:7], args2[1:7]):
            assert np.array_equal(a, b)
    elif form == 'albedo_scalar':
        args2[7] = TYPES[case['type']](args[7][0])
    elif form == 'ghi':
        kw2['ghi'] = args[1] * np.cos(np.deg2rad(args[3])) + args[2]
    elif form == 'kwargs':
        kw2.update(dict(zip(NAMES, args)))
        args2 = []
    e2 = gen.make_engine(case2)
    e2.fit(*args2, **kw2)
    _same(ref, _dump(_run(e2, case)), 'inputs as %s' % form)
    if form.startswith('series'):
        # passing the same to a bare array
        p = gen.fit_pvarray(case)
        from pvfactors.geometry import OrderedPVArray
        p2 = OrderedPVArray.init_from_dict(gen.pv_params(case['array']))
        p2.fit(*[x.values for x in args2[3:7]])
        for x, y in zip(obs.surfaces(p), obs.surfaces(p2)):
            close(y.length, x.length, 'length of %s' % x.label)
    rec.nontrivial()
    rec.tag(form)
    rec.tag('fast' if case['fast'] else 'full')


@st.composite
def scalar_cases(draw):
    c = draw(gen.runs(low=0, max_steps=1, array=gen.arrays(max_rows=4, max_cut=2), ghi=True))
    c['ints'] = draw(st.booleans())
    c['numpy'] = draw(st.booleans())
    c['stamp'] = draw(st.booleans())
    c['fast'] = draw(st.booleans())
    return c


def scalars(case, rec):
    """A single step given as plain numbers."""
    from pvfactors.geometry import OrderedPVArray
    args, kw = gen.fit_args(case['times'])
    e1 = gen.make_engine(case)
    e1.fit(*args, **kw)
    ref = _dump(_run(e1, case))
    import pandas as pd
    num = lambda v: TYPES[('int' if case['ints'] and float(v).is_integer() else 'float')
                          + ('64' if case['numpy'] else '')](v)
    sc = [pd.Timestamp(args[0][0]) if case['stamp'] else args[0][0]] + [num(a[0]) for a in args[1:]]
    e2 = gen.make_engine(case)
    e2.fit(*sc, **{k: num(v[0]) for k, v in kw.items()})
    _same(ref, _dump(_run(e2, case)), 'inputs as plain numbers')
    # irradiance model alone
    m = gen.make_model(case['model'])
    m.fit(*sc, **{k: num(v[0]) for k, v in kw.items()})
    p = gen.fit_pvarray(case)
    m.transform(p)
    for x, y in zip(obs.surfaces(e1.pvarray), obs.surfaces(p)):
        for k in ('direct', 'rho', 'total_perez'):
            close(np.asarray(y.s.params[k], float) * np.ones(1),
                  np.asarray(x.s.params[k], float) * np.ones(1),
                  'model fitted with plain numbers: %s of %s' % (k, x.label), atol=1e-7)
    # geometry from one dictionary of plain numbers
    d = gen.pv_params(case['array'])
    d.update({k: num(case['times'][0][k]) for k in ('solar_zenith', 'solar_azimuth',
                                                'surface_tilt', 'surface_azimuth')})
    p2 = OrderedPVArray.fit_from_dict_of_scalars(d, param_names=['zz'])
    ensure(p2.n_states == 1, 'n_states %s', p2.n_states)
    for x, y in zip(obs.surfaces(p), obs.surfaces(p2)):
        close(y.ends(0), x.ends(0), 'ends of %s from a dictionary of numbers' % x.label)
        ensure('zz' in y.s.params, 'requested parameter missing')
    rec.nontrivial(case['array']['n_pvrows'] > 1)
    rec.tag('fast' if case['fast'] else 'full')


@st.composite
def default_cases(draw):
    c = draw(gen.runs(low=0, max_steps=2, array=gen.arrays(max_rows=3, max_cut=2)))
    c['fast'] = draw(st.booleans())
    return c


def defaults(case, rec):
    """Arguments left out mean their documented defaults."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.viewfactors import VFCalculator
    args, kw = gen.fit_args(case['times'])
    par = gen.pv_params(case['array'])

    def run(eng):
        eng.fit(*args, **kw)
        return _dump(_run(eng, case))
    perez = case['model']['kind'] == 'perez'
    cls = HybridPerezOrdered if perez else IsotropicOrdered
    full = dict(rho_front=0.01, rho_back=0.03, module_transparency=0.0,
                module_spacing_ratio=0.0)
    if perez:
        full.update(horizon_band_angle=6.5)
    a = run(PVEngine(OrderedPVArray.init_from_dict(par), irradiance_model=cls(**full),
                     vf_calculator=VFCalculator()))
    e = (PVEngine(OrderedPVArray.init_from_dict(par)) if perez else
         PVEngine(OrderedPVArray.init_from_dict(par), irradiance_model=cls()))
    _same(a, run(e), 'defaults left out')
    # segments of one piece, and rows not listed, are the same as no cut
    cut = {i: dict({'front': 1, 'back': 1}, **par.get('cut', {}).get(i, {}))
           for i in range(case['array']['n_pvrows'])}
    full_par = dict(par, cut=cut)
    b = run(PVEngine(OrderedPVArray.init_from_dict(full_par),
                     irradiance_model=cls(**full)))
    _same(a, b, 'cut written out in full')
    direct = OrderedPVArray(axis_azimuth=par['axis_azimuth'], gcr=par['gcr'],
                            pvrow_height=par['pvrow_height'], n_pvrows=par['n_pvrows'],
                            pvrow_width=par['pvrow_width'], cut=par.get('cut'))
    c = run(PVEngine(direct, irradiance_model=cls(**full)))
    _same(a, c, 'array built from keyword arguments')
    rec.nontrivial(case['array']['n_pvrows'] > 1)


FACETS = [
    Facet('forms', cases, forms, 640),
    Facet('scalars', scalar_cases, scalars, 320),
    Facet('defaults', default_cases, defaults, 240),
]
