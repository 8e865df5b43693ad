"""C01 full mode: radiosity equilibrium, decomposition, agreement with a reference solve."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs
from pvcheck.core import Facet, close, ensure, finite

RULE = ('Arrays (1-5 rows, cuts), weather/tracker timesteps and irradiance models are '
        'generated; a case is non-trivial when at least one row surface is lit by '
        'reflections (more than 1e-3 W/m2) and, for `equilibrium`, there are 2+ rows or '
        'direct shading.')


def equilibrium(case, rec):
    eng = gen.run_full(case)
    pv = eng.pvarray
    F = np.asarray(pv.ts_vf_matrix)
    surfs = obs.surfaces(pv)
    n, T = len(surfs), len(case['times'])
    ensure(F.shape == (n + 1, n + 1, T), 'view factor matrix shape %s for %d surfaces '
           'and %d steps', F.shape, n, T)
    L_sky = np.asarray(eng.irradiance.sky_luminance, float) * np.ones(T)
    comps = (['direct', 'circumsolar', 'horizon'] if case['model']['kind'] == 'perez'
             else ['direct'])
    q0 = np.zeros((n + 1, T))
    q0[n] = L_sky
    get = {}
    for x in surfs:
        d = obs.params_of(x, ['q0', 'qinc', 'isotropic', 'reflection', 'rho', 'inv_rho']
                          + comps)
        for k, v in d.items():
            d[k] = v * np.ones(T)
        get[x.s.index] = d
        q0[x.s.index] = d['q0']
    alb = gen.col(case['times'], 'albedo')
    for x in surfs:
        d = get[x.s.index]
        i = x.s.index
        live = x.length > obs.TINY
        if not live.any():
            continue
        rho = (alb if x.kind == 'ground' else
               case['model']['rho_' + x.kind] * np.ones(T))
        m = lambda v: np.where(live, v, 0.0)  # noqa
        for k in ('q0', 'qinc', 'isotropic', 'reflection'):
            finite(m(d[k]), '%s of %s' % (k, x.label))
        close(m(d['q0']), m(rho * d['qinc']), 'q0 = reflectivity * qinc on ' + x.label,
              rtol=1e-8, atol=1e-7)
        bounce = (F[i, :n] * q0[:n]).sum(axis=0)
        sky = sum(d[c] for c in comps)
        close(m(d['isotropic']), m(F[i, n] * L_sky), 'isotropic part of ' + x.label,
              rtol=1e-8, atol=1e-7)
        close(m(d['reflection']), m(bounce), 'reflected part of ' + x.label,
              rtol=1e-8, atol=1e-6)
        close(m(d['qinc']), m(sky + d['isotropic'] + d['reflection']),
              'qinc = sky components + isotropic + reflection on ' + x.label,
              rtol=1e-8, atol=1e-6)
        if x.kind != 'ground':
            rec.nontrivial(bool((m(bounce) > 1e-3).any()) and
                           case['array']['n_pvrows'] > 1)
            rec.tag('shaded_row', x.shaded)
    rec.tag('multi_step', T > 1)


def reference_solution(case, rec):
    """End to end against an independently assembled and solved radiosity system."""
    eng = gen.run_full(case)
    pv = eng.pvarray
    skies = irr.skies(case)
    a = case['array']
    for t, sky in enumerate(skies):
        z = case['times'][t]['solar_zenith']
        if sky.zeroed or sky.grazing:
            rec.tag('skipped_corner')
            continue
        F, surfs, L, scene = obs.ref_vf_matrix(case, pv, t)
        n = len(surfs)
        E = np.zeros(n + 1)
        rho = np.ones(n + 1)
        band = case['model'].get('horizon_band_angle', 6.5)
        for i, x in enumerate(surfs):
            d, c = sky.components(x.kind, x.shaded)
            h = 0.0
            if sky.perez and x.kind != 'ground':
                h = sky.horizon
                if x.kind == 'back':
                    p = 0.5 * x.ends(t).sum(axis=0)
                    h *= 1 - irr.horizon_shading_pct(scene, x.row, p, band,
                                                     a['n_pvrows']) / 100.0
            E[i] = d + c + h
            rho[i] = (sky.albedo if x.kind == 'ground'
                      else case['model']['rho_' + x.kind])
        E[n] = sky.iso
        qinc = np.linalg.solve(np.eye(n + 1) - F * rho, E)
        for i, x in enumerate(surfs):
            if L[i] < 1e-6:
                continue
            got = float(x.s.get_param('qinc')[t])
            ensure(abs(got - qinc[i]) <= 1e-6 + 1e-7 * abs(qinc[i]),
                   'incident irradiance of %s at step %d: %r, reference %r',
                   x.label, t, got, float(qinc[i]))
            rec.nontrivial(qinc[i] - E[i] > 1e-3 and n > 10)
    rec.tag('rows>1', a['n_pvrows'] > 1)


@st.composite
def days(draw):
    """Runs, some with steps before sunrise: no beam, but light from the sky."""
    c = draw(gen.runs(max_steps=4))
    if draw(st.integers(0, 5)) == 5:
        for t in c['times'][::draw(st.sampled_from([1, 2]))]:
            t['solar_zenith'] = draw(gen.q(90.1, 110.0, 0.1))
            t['dni'] = 0.0
    return c


FACETS = [
    Facet('equilibrium', days, equilibrium, 800),
    Facet('reference_solution',
          lambda: gen.runs(max_steps=2, array=gen.arrays(max_rows=4, max_cut=2)),
          reference_solution, 480),
]
