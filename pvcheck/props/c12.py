"""C12 shading laws of the sky patches, and light leaking through the modules."""
import math

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Generated obstruction angles / covered fractions for the shading laws, and full '
        'runs for the leak; non-trivial when the obstruction is partial, or (runs) when '
        'some surface is in direct shade and the leak is between 0 and 1.')


@st.composite
def band_cases(draw):
    band = draw(st.one_of(st.sampled_from([6.5, 15.0]), gen.q(0.5, 40.0, 0.01)))
    return {'band': band, 'angles': draw(st.lists(gen.q(0.0, 89.9, 0.01), min_size=1,
                                                  max_size=6)),
            'frac': draw(gen.q(0.0, 1.0, 0.001))}


def horizon_law(case, rec):
    """Hidden share of the horizon band grows linearly from 0 to 100 %."""
    from pvfactors.irradiance.utils import calculate_horizon_band_shading as f
    band = case['band']
    ang = np.array(case['angles'] + [0.0, band, band * case['frac'], band + 1e-3])
    got = np.asarray(f(ang, band), float)
    want = np.minimum(ang / band, 1.0) * 100.0
    close(got, want, 'hidden share of a %s degree band at %s' % (band, ang), atol=1e-9)
    s = np.sort(ang)
    g = np.asarray(f(s, band), float)
    ensure(np.all(np.diff(g) >= -1e-9), 'hidden share decreases with the angle: %s -> %s',
           s, g)
    rec.nontrivial(bool(((got > 0) & (got < 100)).any()))


@st.composite
def disk_cases(draw):
    return {'model': draw(st.sampled_from(['uniform_disk', 'gaussian'])),
            'pcts': draw(st.lists(st.one_of(gen.q(-50.0, 150.0, 0.01),
                                            st.sampled_from([0.0, 50.0, 100.0])),
                                  min_size=2, max_size=6))}


def _disk(p):
    """Share of a unit disk covered up to p % of its diameter, by integration."""
    x = min(max(p / 100.0, 0.0), 1.0) * 2 - 1
    return 100.0 * (x * math.sqrt(max(0.0, 1 - x * x)) + math.asin(x) + math.pi / 2) \
        / math.pi


def _gauss(p):
    """Share of a normal distribution cut at 3 sigma, covered up to p % of its width."""
    x = (min(max(p / 100.0, 0.0), 1.0) * 6 - 3) / math.sqrt(2.0)
    e = math.erf(3 / math.sqrt(2.0))
    return 100.0 * (math.erf(x) + e) / (2 * e)


def circumsolar_law(case, rec):
    from pvfactors import PVFactorsError
    from pvfactors.irradiance.utils import calculate_circumsolar_shading as f
    ref = _disk if case['model'] == 'uniform_disk' else _gauss
    pct = sorted(case['pcts'])
    got = [float(f(p, model=case['model'])) for p in pct]
    for p, g in zip(pct, got):
        if p in (0.0, 100.0):
            ensure(abs(g - p) < 1e-6, '%s: %r %% covered hides %r %%', case['model'], p, g)
        ensure(abs(g - ref(p)) < 1e-6, '%s: %r %% covered hides %r %%, integration gives %r %%',
               case['model'], p, g, ref(p))
        h = float(f(100.0 - p, model=case['model']))
        ensure(abs(g + h - 100.0) < 1e-6, '%s: covering %r %% from one side hides %r %%, '
               'from the other %r %%', case['model'], p, g, h)
        rec.nontrivial(0 < p < 100)
    ensure(all(b >= a - 1e-9 for a, b in zip(got[:-1], got[1:])), '%s: hidden share not '
           'monotone: %s -> %s', case['model'], pct, got)
    try:
        f(50.0, model='no such model')
    except PVFactorsError:
        pass
    else:
        ensure(False, 'an unknown circumsolar model is accepted')
    rec.tag(case['model'])


@st.composite
def leak_cases(draw):
    c = draw(gen.runs(max_steps=2, model=gen.models(), kinds=('cross', 'low', 'behind',
                                                              'any'),
                      array=gen.arrays(max_rows=3, max_cut=2)))
    c['model'].pop('module_transparency', None)
    c['model'].pop('module_spacing_ratio', None)
    c['s'] = draw(gen.q(0.0, 1.0, 0.01))
    c['t'] = draw(gen.q(0.0, 1.0, 0.01))
    c['how'] = draw(st.sampled_from(['full', 'full', 'fast']))
    return c


def _leak_run(case, s, t):
    c = dict(case, model=dict(case['model'], module_spacing_ratio=s,
                              module_transparency=t))
    eng = gen.fit_engine(c)
    if case['how'] == 'full':
        eng.run_full_mode()
    else:
        for r in range(case['array']['n_pvrows']):
            eng.run_fast_mode(pvrow_index=r)
    return eng


def leak(case, rec):
    """Only the leaking share spacing + (1 - spacing) * transparency matters."""
    s, tr = case['s'], case['t']
    k = s + (1 - s) * tr
    a = _leak_run(case, s, tr)
    for what, b in (('spacing %r' % k, _leak_run(case, k, 0.0)),
                    ('transparency %r' % k, _leak_run(case, 0.0, k))):
        for x, y in zip(obs.surfaces(a.pvarray), obs.surfaces(b.pvarray)):
            ok = x.length > obs.TINY
            for key in ('qinc', 'direct', 'circumsolar', 'total_perez', 'qabs'):
                u, v = x.s.params.get(key), y.s.params.get(key)
                if u is None or v is None:
                    continue
                one = np.ones(len(ok))
                close((u * one)[ok], (v * one)[ok], '%s of %s: spacing %r and '
                      'transparency %r against %s' % (key, x.label, s, tr, what),
                      rtol=1e-7, atol=1e-7)
    # what reaches the shade is the leaking share of what reaches the sun side
    groups = {}
    for x in obs.surfaces(a.pvarray):
        groups.setdefault(x.kind, {}).setdefault(x.shaded, x)
        rec.nontrivial(bool((x.length > obs.TINY).any()) and x.shaded and 0 < k < 1)
    comps = ('direct', 'circumsolar') if case['model']['kind'] == 'perez' else ('direct',)
    for kind, g in groups.items():
        if len(g) == 2:
            for key in comps:
                close(g[True].s.params[key], k * np.asarray(g[False].s.params[key]),
                      '%s in the shade of the %s, leaking share %r' % (key, kind, k),
                      rtol=1e-9, atol=1e-9)
            if kind != 'back':                  # what the fast mode has them reflect
                sun = sum(np.asarray(g[False].s.params[key]) for key in comps)
                rest = np.asarray(g[False].s.params['total_perez']) - sun
                close(g[True].s.params['total_perez'],
                      (np.maximum(rest, 0.0) if kind == 'front' else rest) + k * sun,
                      'total light in the shade of the %s, leaking share %r' % (kind, k),
                      rtol=1e-9, atol=1e-8)
    rec.tag(case['how'])


@st.composite
def open_cases(draw):
    c = draw(leak_cases())
    c['times'] = c['times'][:1]
    return c


def transparent_limit(case, rec):
    """Fully transparent modules: lit and shaded parts of a face receive the same light
    from the sky, and shades of the neighbours change nothing."""
    a = _leak_run(case, 1.0, 0.0)
    b = _leak_run(case, case['s'], 1.0)
    for x, y in zip(obs.surfaces(a.pvarray), obs.surfaces(b.pvarray)):
        if case['how'] == 'fast' and x.kind != 'back':
            continue
        ok = x.length > obs.TINY
        close(x.s.params['qinc'][ok], y.s.params['qinc'][ok], 'qinc of ' + x.label,
              rtol=1e-7, atol=1e-7)
        rec.nontrivial(bool(ok.any()) and x.shaded)
    opaque = _leak_run(case, 0.0, 0.0)
    for x, y in zip(obs.surfaces(a.pvarray), obs.surfaces(opaque.pvarray)):
        if case['how'] == 'fast' and x.kind != 'back':
            continue
        ok = x.length > 1e-5
        d = x.s.params['qinc'][ok] - y.s.params['qinc'][ok]
        ensure(np.all(d > -1e-6), 'light lost by making the modules transparent on %s: %s',
               x.label, d)


FACETS = [
    Facet('horizon_law', band_cases, horizon_law, 1600),
    Facet('circumsolar_law', disk_cases, circumsolar_law, 1600),
    Facet('leak', leak_cases, leak, 480),
    Facet('transparent_limit', open_cases, transparent_limit, 320),
]
