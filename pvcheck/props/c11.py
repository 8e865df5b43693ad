"""C11 irradiance components received from the sky by every surface."""
import math

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs, ref
from pvcheck.core import Facet, close, ensure

RULE = ('Generated array, weather and model; every component of every surface is compared '
        'with the published Perez / isotropic equations. Non-trivial when the sun is up '
        'with direct light and some row surface is tilted.')


def _one(case, t, v):
    return float((np.asarray(v, float) * np.ones(len(case['times'])))[t])


def check_components(case, rec, pv, model):
    skies = irr.skies(case)
    m = case['model']
    perez = m['kind'] == 'perez'
    band = m.get('horizon_band_angle', 6.5)
    surfs = obs.surfaces(pv)
    for t, sky in enumerate(skies):
        z = case['times'][t]['solar_zenith']
        if sky.zeroed or (perez and sky.near_bin):
            rec.tag('skipped_corner')
            continue
        scene = ref.Scene(case['array'], case['times'][t])
        fast = sky.fast_terms()
        emit = {'gnd_illum': model.gnd_illum, 'gnd_shaded': model.gnd_shaded,
                'pvrow_illum': model.pvrow_illum, 'pvrow_shaded': model.pvrow_shaded,
                'sky': model.sky_luminance}
        for k, e in fast.items():
            g = _one(case, t, emit[k])
            ensure(abs(g - e) < 1e-7 + 1e-9 * abs(e), 'step %d: %s irradiance is %r, '
                   'reference %r', t, k, g, e)
        for x in surfs:
            if x.length[t] < 1e-6:
                continue
            where = 'step %d %s' % (t, x.label)
            p = x.s.params
            d, c = sky.components(x.kind, x.shaded)
            want = {'direct': d}
            want['rho'] = sky.albedo if x.kind == 'ground' else m['rho_' + x.kind]
            want['inv_rho'] = 1.0 / want['rho'] if want['rho'] else float('inf')
            want['total_perez'] = 0.0 if x.kind == 'back' else fast[
                ('gnd_' if x.kind == 'ground' else 'pvrow_')
                + ('shaded' if x.shaded else 'illum')]
            if perez:
                want['circumsolar'] = c
                h = 0.0
                if x.kind != 'ground':
                    h = sky.horizon
                    if x.kind == 'back':
                        q = 0.5 * x.ends(t).sum(axis=0)
                        pct = irr.horizon_shading_pct(scene, x.row, q, band,
                                                      case['array']['n_pvrows'])
                        want['horizon_unshaded'] = h
                        if abs(pct - 100.0) > 1e-6 or pct == 100.0:
                            want['horizon_shd_pct'] = pct
                        h *= 1 - pct / 100.0
                        rec.tag('horizon_partly_hidden', 0 < pct < 100)
                want['horizon'] = h
            for k, e in want.items():
                g = _one(case, t, p[k])
                ensure(g == e or abs(g - e) < 1e-7 + 1e-9 * abs(e), '%s: %s is %r, reference %r',
                       where, k, g, e)
            rec.nontrivial(x.kind != 'ground' and sky.dni > 0
                           and case['times'][t]['surface_tilt'] > 0)
        rec.tag('sun_on_back', not sky.sun_front and sky.dni > 0)
        rec.tag('low_sun', z > 85)
        rec.tag('transparent', sky.leak > 0)


def components(case, rec):
    eng = gen.fit_engine(case)
    check_components(case, rec, eng.pvarray, eng.irradiance)
    rec.tag(case['model']['kind'])
    rec.tag('ghi', 'ghi' in case['times'][0])


@st.composite
def grazing(draw):
    """The sun exactly in the plane of the modules (whole degrees)."""
    c = draw(gen.runs(max_steps=3, low=0, array=gen.arrays(max_rows=3, max_cut=2)))
    ax = draw(st.sampled_from([0.0, 90.0, 180.0, 270.0]))
    c['array']['axis_azimuth'] = ax
    c['model']['kind'] = draw(st.sampled_from(['perez', 'perez', 'iso']))
    if c['model']['kind'] == 'iso':
        c['model'].pop('horizon_band_angle', None)
    for t in c['times']:
        tilt = draw(st.integers(6, 89))
        side = draw(st.sampled_from([1, -1]))
        t['surface_tilt'] = float(tilt)
        t['surface_azimuth'] = (ax + 90.0 * side) % 360.0
        t['solar_zenith'] = 90.0 - tilt
        t['solar_azimuth'] = (ax - 90.0 * side) % 360.0
    return c


def in_plane(case, rec):
    """No direct or circumsolar light on either face, everything finite and continuous."""
    eng = gen.fit_engine(case)
    pv = eng.pvarray
    skies = irr.skies(case)
    perez = case['model']['kind'] == 'perez'
    T = len(case['times'])
    for t, sky in enumerate(skies):
        if perez and (sky.near_bin or min(sky.totals) <= 1e-6):
            rec.tag('skipped_corner')
            continue
        for x in obs.surfaces(pv):
            for k in (('direct', 'circumsolar', 'horizon', 'total_perez') if perez
                      else ('direct', 'total_perez')):
                v = _one(case, t, x.s.params[k])
                ensure(math.isfinite(v), 'step %d %s: %s is %r with the sun in the '
                       'module plane', t, x.label, k, v)
                if x.kind != 'ground' and k in ('direct', 'circumsolar'):
                    ensure(abs(v) < 1e-6, 'step %d %s: %s is %r with the sun in the '
                           'module plane', t, x.label, k, v)
        # the ground still receives the circumsolar light in full
        if perez:
            g = [x for x in obs.surfaces(pv) if x.kind == 'ground' and not x.shaded][0]
            v = _one(case, t, g.s.params['circumsolar'])
            ensure(abs(v - sky.circ) < 1e-6, 'step %d: circumsolar light on the ground is '
                   '%r, reference %r', t, v, sky.circ)
            rec.tag('exact', sky.cf == 0)
    eng.run_full_mode()
    for x in obs.surfaces(pv):
        for t in range(T):
            if x.length[t] > 1e-6:
                for k in ('qinc', 'q0', 'qabs'):
                    ensure(math.isfinite(_one(case, t, x.s.params[k])), 'step %d %s: %s '
                           'is not finite with the sun in the module plane', t, x.label,
                           k)
    rec.nontrivial(perez)


@st.composite
def sky_cases(draw):
    n = draw(st.integers(1, 5))
    times = []
    for _ in range(n):
        t = draw(gen.steps(draw(st.sampled_from([0.0, 30.0, 180.0]))))
        # any orientation here: the luminances do not need a tracker axis
        t['surface_azimuth'] = draw(gen.q(0.0, 359.9, 0.1))
        times.append(t)
    return {'times': times, 'model': {'kind': 'perez', 'rho_front': .01, 'rho_back': .03}}


def luminances(case, rec):
    """The sky-patch luminances themselves, sun in front of or behind the surface."""
    from pvfactors.irradiance.utils import perez_diffuse_luminance
    z, az, tilt, saz = gen.geometry_inputs(case['times'])
    df = perez_diffuse_luminance(gen.timestamps(case['times']), tilt, saz, z, az,
                                 gen.col(case['times'], 'dni'),
                                 gen.col(case['times'], 'dhi'))
    ensure(len(df) == len(case['times']), '%d rows for %d steps', len(df),
           len(case['times']))
    skies = irr.skies(case)
    for t, sky in enumerate(skies):
        if sky.zeroed or sky.near_bin or sky.grazing:
            continue
        tl = math.radians(tilt[t])
        want = {'luminance_isotropic': sky.iso, 'poa_isotropic': sky.iso
                * (1 + math.cos(tl)) / 2, 'poa_circumsolar': sky.circ_front,
                'poa_horizon': sky.f2 * math.sin(tl), 'luminance_circumsolar': sky.circ,
                'poa_total_diffuse': max(0.0, sky.iso * (1 + math.cos(tl)) / 2
                                         + sky.circ_front + sky.f2 * math.sin(tl))}
        for k, e in want.items():
            g = float(df[k].values[t])
            ensure(abs(g - e) < 1e-7 + 1e-9 * abs(e), 'step %d: %s is %r, reference %r',
                   t, k, g, e)
        # no light is created: the two patches share the diffuse light
        s = float(df.luminance_isotropic.values[t] + df.luminance_circumsolar.values[t])
        ensure(abs(s - sky.dhi) < 1e-7, 'step %d: isotropic and circumsolar light add to '
               '%r, diffuse horizontal is %r', t, s, sky.dhi)
        rec.nontrivial(sky.circ > 1)
        rec.tag('behind', not sky.sun_front)
    rec.tag('mixed_sides', len({s.sun_front for s in skies}) > 1)


FACETS = [
    Facet('components', lambda: gen.runs(max_steps=4, ghi=True), components, 1600),
    Facet('in_plane', grazing, in_plane, 400),
    Facet('luminances', sky_cases, luminances, 800),
]
