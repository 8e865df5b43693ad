"""C07 timesteps are independent of each other."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Multi-step runs (including night or invalid steps), re-run on a generated '
        'selection of the steps (subset, permutation, repetition); non-trivial when the '
        'selection is not the identity and 2+ different steps are involved.')

KEYS = ['q0', 'qinc', 'isotropic', 'reflection', 'qabs', 'direct', 'direct_absorbed',
        'rho', 'total_perez']
PEREZ = ['circumsolar', 'horizon', 'circumsolar_absorbed', 'horizon_absorbed']


@st.composite
def cases(draw):
    c = draw(gen.runs(max_steps=5, min_steps=2, array=gen.arrays(max_rows=4)))
    for t in c['times']:
        odd = draw(st.sampled_from(['', '', '', '', '', '', '', '', '', 'night', 'dark', 'neg',
                                         'nan_dni', 'nan_dhi', 'nan_tilt', 'nan_sun',
                                         'nan_albedo']))
        if odd == 'night':
            t['solar_zenith'] = draw(gen.q(90.5, 120.0, 0.1))
            t['dni'] = 0.0
        elif odd == 'dark':
            t['dni'] = t['dhi'] = 0.0
        elif odd == 'neg':
            t['dni'] = -5.0
        elif odd == 'nan_tilt':             # trackers are stowed or unknown at night
            t['surface_tilt'] = t['surface_azimuth'] = None
        elif odd == 'nan_sun':
            t['solar_zenith'] = t['solar_azimuth'] = None
        elif odd:
            t[odd[4:]] = None
    n = len(c['times'])
    c['select'] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1))
    if draw(st.integers(0, 15)) == 15:          # a long series
        c['select'] = c['select'] * draw(st.integers(5, 30))
    if draw(st.booleans()):                     # repeated steps keep their timestamp
        for i, t in enumerate(c['times']):
            t['minute'] = i
    if draw(st.integers(0, 5)) == 5:            # several scenarios of one moment
        if draw(st.booleans()):                 # most of them lit from behind
            kinds = draw(st.sampled_from([('behind',), ('behind', 'cross')]))
            c['times'] = [draw(gen.steps(c['array']['axis_azimuth'], kinds=kinds,
                                         over=False)) for _ in c['times']]
        for t in c['times']:
            t.update({k: c['times'][0].get(k, v) for k, v in (
                ('doy', 1), ('year', 2019), ('hour', 12), ('minute', 0))})
    elif draw(st.integers(0, 7)) == 7:          # minutes apart, around midnight
        m = sorted(draw(st.lists(st.integers(0, 120), min_size=n, max_size=n)))
        for i, t in enumerate(c['times']):
            t.update({k: c['times'][0].get(k, v) for k, v in (
                ('doy', 1), ('year', 2019))}, hour=23, minute=m[i])
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fast', 'aoi']))
    c['row'] = draw(st.integers(0, c['array']['n_pvrows'] - 1))
    return c


def _run(case):
    from pvfactors.viewfactors import VFCalculator
    vfc = None
    extra = {}
    if case['mode'] == 'aoi':
        f = lambda x: np.clip(np.sin(np.deg2rad(x)), 0, 1)  # noqa
        vfc = VFCalculator(f, f, 307)
        extra = dict(faoi_fn_front=f, faoi_fn_back=f)
    eng = gen.fit_engine(case, vf_calculator=vfc, model_extra=extra)
    if case['mode'] == 'fast':
        eng.run_fast_mode(pvrow_index=case['row'])
    else:
        eng.run_full_mode()
    return eng


def independent(case, rec):
    sel = case['select']
    sub = dict(case, times=[case['times'][i] for i in sel])
    # keep the day of year of each step; minutes differ, which must not matter
    a, b = _run(case), _run(sub)
    # what comes out of a step with missing inputs is not specified, only that it
    # leaves the other steps alone
    known = [k for k, i in enumerate(sel)
             if all(v is not None for v in case['times'][i].values())]
    ksel = [sel[k] for k in known]
    keys = KEYS + (PEREZ if case['model']['kind'] == 'perez' else [])
    for x, y in zip(obs.surfaces(a.pvarray), obs.surfaces(b.pvarray)):
        la = x.length
        close(y.length[known], la[ksel], 'length of ' + x.label, atol=1e-10)
        # a (numerically) empty surface carries no energy; its params are not compared
        live = np.zeros(len(sel), bool)
        live[known] = la[ksel] > 1e-6
        ca, cb = np.asarray(x.s.coords.as_array), np.asarray(y.s.coords.as_array)
        close(cb[:, :, live], ca[:, :, sel][:, :, live], 'coordinates of ' + x.label,
              atol=1e-9)
        for k in keys:
            va, vb = x.s.params.get(k), y.s.params.get(k)
            ensure((va is None) == (vb is None), '%s of %s only in one run', k, x.label)
            if va is None:
                continue
            va = np.asarray(va, float) * np.ones(len(case['times']))
            vb = np.asarray(vb, float) * np.ones(len(sel))
            close(vb[live], va[sel][live],
                  '%s of %s when only steps %s are simulated' % (k, x.label, sel),
                  rtol=1e-7, atol=1e-6)
    for ra, rb in zip(a.pvarray.ts_pvrows, b.pvarray.ts_pvrows):
        if case['mode'] == 'fast' and ra.index != case['row']:
            continue
        close(np.asarray(rb.back.get_param_weighted('qinc'))[known],
              np.asarray(ra.back.get_param_weighted('qinc'))[ksel],
              'row back qinc when only steps %s are simulated' % sel, rtol=1e-7,
              atol=1e-7)
    close(np.asarray(b.skip_step, float)[known], np.asarray(a.skip_step, float)[ksel],
          'skip flags')
    rec.nontrivial(sel != list(range(len(case['times']))) and len(set(sel)) > 0)
    rec.tag(case['mode'])
    rec.tag('has_missing', any(v is None for t in case['times'] for v in t.values()))
    night = [(t['solar_zenith'] or 0) > 90 for t in case['times']]
    rec.tag('has_night', any(night))
    rec.tag('night_dropped', any(night) and not any(night[i] for i in sel))
    rec.tag('repeats', len(set(sel)) < len(sel))


FACETS = [Facet('independent', cases, independent, 900)]
