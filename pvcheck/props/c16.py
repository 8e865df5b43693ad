"""C16 energy: linearity, no light from nothing, conservation, monotonicity."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Generated runs and a related run (mixed weather, dark sky, higher albedo, '
        'reflectivity or transparency); non-trivial when the weather or parameter really '
        'differs and some surface receives reflected light.')

KEYS = ('qinc', 'q0', 'isotropic', 'reflection', 'qabs', 'direct')


def _get(pv, keys=KEYS, kinds=('ground', 'front', 'back')):
    T = pv.n_states
    out = []
    for x in obs.surfaces(pv):
        if x.kind in kinds:
            out.append((x, {k: np.asarray(x.s.params[k], float) * np.ones(T)
                            for k in keys}))
    return out


def _run(case, fast):
    if not fast:
        return gen.run_full(case)
    eng = gen.fit_engine(case)
    for r in range(case['array']['n_pvrows']):
        eng.run_fast_mode(pvrow_index=r)
    return eng


@st.composite
def lin_cases(draw):
    c = draw(gen.runs(max_steps=2, array=gen.arrays(max_rows=4, max_cut=2),
                      model=gen.models(kinds=('iso',))))
    c['other'] = [{'dni': draw(gen.q(0.0, 1100.0, 0.1)),
                   'dhi': draw(gen.q(1.0, 500.0, 0.1))} for _ in c['times']]
    c['a'] = draw(gen.q(0.1, 3.0, 0.01))
    c['b'] = draw(gen.q(0.1, 3.0, 0.01))
    c['fast'] = draw(st.booleans())
    return c


def linear(case, rec):
    """Isotropic sky: the response to mixed weather is the mix of the responses."""
    a, b, fast = case['a'], case['b'], case['fast']
    mix, oth = [], []
    for t, o in zip(case['times'], case['other']):
        oth.append(dict(t, **o))
        mix.append(dict(t, dni=a * t['dni'] + b * o['dni'],
                        dhi=a * t['dhi'] + b * o['dhi']))
    kinds = ('back',) if fast else ('ground', 'front', 'back')
    keys = ('qinc', 'isotropic', 'reflection', 'direct') if fast else KEYS
    r = [_get(_run(dict(case, times=t), fast).pvarray, keys, kinds)
         for t in (case['times'], oth, mix)]
    for (x, d1), (_, d2), (_, d3) in zip(*r):
        ok = x.length > obs.TINY
        for k in keys:
            close(d3[k][ok], (a * d1[k] + b * d2[k])[ok], '%s of %s under %g x first '
                  'weather + %g x second' % (k, x.label, a, b), atol=1e-6, rtol=1e-8)
    rec.nontrivial(case['array']['n_pvrows'] > 1)
    rec.tag('fast' if fast else 'full')


def _sensible(case):
    """Weather for which the published sky model itself stays non negative."""
    return all(s.iso >= 0 and not s.zeroed for s in irr.skies(case))


def _cases(**kw):
    return gen.runs(max_steps=2, array=gen.arrays(max_rows=4, max_cut=2), **kw)


@st.composite
def dark_cases(draw):
    c = draw(_cases())
    c['night'] = [draw(st.one_of(st.just(0), gen.q(90.5, 170.0, 0.1)))
                  for _ in c['times']]
    return c


def dark(case, rec):
    """No light in, no light anywhere, day or night."""
    c = dict(case, times=[dict(t, dni=0.0, dhi=0.0) for t in case['times']])
    for t, z in zip(c['times'], case['night']):
        if z:
            t['solar_zenith'] = z
    for fast in (False, True):
        keys = ('qinc', 'isotropic', 'reflection', 'direct') + (
            () if fast else ('q0', 'qabs'))
        for x, d in _get(_run(c, fast).pvarray, keys,
                         ('back',) if fast else ('ground', 'front', 'back')):
            for k in keys:
                ensure(np.all(np.abs(d[k]) < 1e-9), '%s of %s without any light: %s', k,
                       x.label, d[k])
    rec.nontrivial(any(t['dni'] > 0 for t in case['times']))
    rec.tag('night', any(case['night']))
    rec.tag(case['model']['kind'])


def positive(case, rec):
    if not _sensible(case):
        rec.tag('skipped_unphysical_weather')
        return
    for fast in (False, True):
        keys = ('qinc', 'isotropic', 'reflection', 'direct') + (
            () if fast else ('q0', 'qabs'))
        for x, d in _get(_run(case, fast).pvarray, keys,
                         ('back',) if fast else ('ground', 'front', 'back')):
            ok = x.length > 1e-6
            for k in keys:
                ensure(np.all(d[k][ok] >= -1e-4), '%s of %s is negative: %s', k, x.label,
                       d[k])
            if not fast:
                ensure(np.all((d['qabs'] <= d['qinc'] + 1e-6)[ok]),
                       '%s absorbs more than it receives: %s of %s', x.label, d['qabs'],
                       d['qinc'])
                ensure(np.all((d['q0'] <= d['qinc'] + 1e-6)[ok]),
                       '%s sends out more than it receives: %s of %s', x.label, d['q0'],
                       d['qinc'])
    rec.nontrivial(case['array']['n_pvrows'] > 1)


def conservation(case, rec):
    """What comes in from the sky is absorbed or goes back to the sky."""
    eng = gen.run_full(case)
    pv = eng.pvarray
    F = np.asarray(pv.ts_vf_matrix)
    T = pv.n_states
    sky = np.asarray(eng.irradiance.sky_luminance, float) * np.ones(T)
    comps = ['direct'] + (['circumsolar', 'horizon']
                          if case['model']['kind'] == 'perez' else [])
    came = np.zeros(T)
    stayed = np.zeros(T)
    back = np.zeros(T)
    size = np.zeros(T)
    for x in obs.surfaces(pv):
        d = obs.params_of(x, ['q0', 'qinc'] + comps)
        L, Fs = x.length, F[x.s.index, -1]
        came += L * (sum(d[c] * np.ones(T) for c in comps) + Fs * sky)
        stayed += L * (d['qinc'] - d['q0'])
        back += L * Fs * d['q0']
        size += L * np.abs(d['qinc'])
    ensure(np.all(np.abs(came - stayed - back) <= 1e-9 * size + 1e-5),
           'energy from the sky %s, absorbed %s + returned to the sky %s', came, stayed,
           back)
    rec.nontrivial(case['array']['n_pvrows'] > 1)
    rec.tag(case['model']['kind'])


@st.composite
def mono_cases(draw):
    c = draw(_cases())
    c['what'] = draw(st.sampled_from(['albedo', 'rho_front', 'rho_back',
                                      'module_transparency', 'module_spacing_ratio',
                                      'dni']))
    c['up'] = draw(gen.q(0.02, 1.0, 0.01))
    if c['what'] in ('module_transparency', 'module_spacing_ratio', 'dni'):
        c['model'] = dict(c['model'], kind='iso')
        c['model'].pop('horizon_band_angle', None)
    return c


def monotone(case, rec):
    """More reflective ground or modules, more leak or sun never darken a surface."""
    if not _sensible(case):
        rec.tag('skipped_unphysical_weather')
        return
    what, up = case['what'], case['up']
    times, model = [dict(t) for t in case['times']], dict(case['model'])
    if what == 'albedo':
        for t in times:
            t['albedo'] = t['albedo'] + up * (1.0 - t['albedo'])
    elif what == 'dni':
        for t in times:
            t['dni'] = t['dni'] + up * 300.0
    else:
        v = model.get(what, 0.0)
        model[what] = v + up * (1.0 - v)
    e1, e2 = gen.run_full(case), gen.run_full(dict(case, times=times, model=model))
    keys = ('qinc', 'reflection', 'direct', 'isotropic')
    more = False
    for (x, d1), (_, d2) in zip(_get(e1.pvarray, keys), _get(e2.pvarray, keys)):
        ok = x.length > 1e-6
        for k in keys:
            tol = 1e-4 + 1e-9 * np.abs(d1[k])
            ensure(np.all((d2[k] >= d1[k] - tol)[ok]),
                   '%s of %s falls from %s to %s when %s is raised', k, x.label, d1[k],
                   d2[k], what)
            if k in ('isotropic',) or (k == 'direct' and what in (
                    'albedo', 'rho_front', 'rho_back')):
                ensure(np.all((np.abs(d2[k] - d1[k]) <= tol)[ok]),
                       '%s of %s moves from %s to %s when %s is raised', k, x.label,
                       d1[k], d2[k], what)
        more = more or bool(np.any((d2['qinc'] > d1['qinc'] + 1e-3)[ok]))
    rec.nontrivial(more)
    rec.tag(what)


FACETS = [
    Facet('linear', lin_cases, linear, 320),
    Facet('dark', dark_cases, dark, 160),
    Facet('positive', _cases, positive, 320),
    Facet('conservation', _cases, conservation, 480),
    Facet('monotone', mono_cases, monotone, 480),
]
