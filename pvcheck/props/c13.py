"""C13 absorbed irradiance and angle-of-incidence losses."""
import math

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs, ref
from pvcheck.core import Facet, close, ensure

RULE = ('Generated runs with and without incidence-angle functions (constant, power of '
        'the sine, table); non-trivial when 2+ rows or direct light is on a row.')


# ----------------------------------------------------- generated incidence functions

@st.composite
def faois(draw):
    kind = draw(st.sampled_from(['const', 'power', 'table', 'skew']))
    d = {'kind': kind, 'c': draw(gen.q(0.3, 1.0, 0.01))}
    if kind == 'power':
        d['p'] = draw(gen.q(0.2, 2.0, 0.1))
    if kind == 'table':
        d['v'] = [draw(gen.q(0.0, 1.0, 0.05)) for _ in range(5)]
    return d


def make_faoi(d):
    """Angle from the surface plane (0..180 degrees) -> share of the light absorbed."""
    c = d['c']
    if d['kind'] == 'const':
        return lambda a: c * np.ones_like(np.asarray(a, float))
    if d['kind'] == 'power':
        return lambda a: c * np.clip(np.sin(np.deg2rad(a)), 0, 1) ** d['p']
    if d['kind'] == 'skew':         # not symmetric around the normal
        return lambda a: c * (0.2 + 0.8 * np.asarray(a, float) / 180.0)
    x = np.linspace(0, 180, len(d['v']))
    return lambda a: np.interp(a, x, d['v'])


def integral(f, lo, hi, n=600):
    """Integral of f(angle) * sin(angle) / 2 between two angles in degrees."""
    e = np.linspace(lo, hi, n + 1)
    m = 0.5 * (e[1:] + e[:-1])
    w = 0.5 * (np.cos(np.deg2rad(e[:-1])) - np.cos(np.deg2rad(e[1:])))
    return float((f(m) * w).sum())


# ------------------------------------------------------------------ facets

def diffuse_losses(case, rec):
    """Without incidence functions the absorbed share is one minus the reflectivity."""
    eng = gen.run_full(case)
    T = len(case['times'])
    alb = gen.col(case['times'], 'albedo')
    comps = (['direct', 'circumsolar', 'horizon'] if case['model']['kind'] == 'perez'
             else ['direct'])
    for x in obs.surfaces(eng.pvarray):
        ok = x.length > obs.TINY
        rho = alb if x.kind == 'ground' else case['model']['rho_' + x.kind] * np.ones(T)
        p = x.s.params
        close(p['qabs'][ok], ((1 - rho) * p['qinc'])[ok], 'absorbed light of %s' % x.label,
              rtol=1e-8, atol=1e-6)
        for k in comps:
            close((np.asarray(p[k + '_absorbed']) * np.ones(T))[ok],
                  ((1 - rho) * p[k])[ok], 'absorbed %s light of %s' % (k, x.label),
                  rtol=1e-9, atol=1e-9)
        rec.nontrivial(x.kind != 'ground' and case['array']['n_pvrows'] > 1)
    F, G = eng.pvarray.ts_vf_matrix, eng.pvarray.ts_vf_aoi_matrix
    for x in obs.surfaces(eng.pvarray):
        rho = alb if x.kind == 'ground' else case['model']['rho_' + x.kind] * np.ones(T)
        close(G[x.s.index], F[x.s.index] * (1 - rho), 'absorbing views of ' + x.label,
              atol=1e-12, rtol=1e-9)


@st.composite
def aoi_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(max_rows=3, max_cut=2)))
    c['front'] = draw(faois())
    c['back'] = draw(faois())
    c['object'] = draw(st.booleans())
    c['n'] = draw(st.sampled_from([30, 300]))
    # which faces the irradiance model and the calculator have a function for
    if draw(st.booleans()):
        c['model_fns'], c['calc_fns'] = [True, True], [True, True]
    else:
        c['model_fns'] = [draw(st.booleans()), draw(st.booleans())]
        c['calc_fns'] = draw(st.sampled_from([[True, True], [True, False], [False, True],
                                              [False, False]]))
        if draw(st.booleans()):         # the calculator has functions of its own
            c['calc_front'], c['calc_back'] = draw(faois()), draw(faois())
    return c


class _Holder(object):
    """An incidence model given as an object with a faoi method."""

    def __init__(self, f):
        self.faoi = f


def _engine(case):
    from pvfactors.viewfactors import VFCalculator
    fns = [make_faoi(case['front']), make_faoi(case['back'])]
    own = [make_faoi(case.get('calc_' + k, case[k])) for k in ('front', 'back')]
    wrap = _Holder if case['object'] else (lambda f: f)

    def given(fs, flags):
        return [wrap(f) if on else None for f, on in zip(fs, flags)]

    def calculator():
        return VFCalculator(*given(own, case['calc_fns']),
                            n_aoi_integral_sections=case['n'])
    mf, mb = given(fns, case['model_fns'])
    eng = gen.fit_engine(case, vf_calculator=calculator(),
                         model_extra={'faoi_fn_front': mf, 'faoi_fn_back': mb})
    shares = [f if on else (lambda a, r=case['model'][rho]: (1 - r) * np.ones_like(a))
              for f, on, rho in zip(fns, case['model_fns'], ('rho_front', 'rho_back'))]
    return eng, shares[0], shares[1], calculator()


def absorbed_balance(case, rec):
    """Absorbed = absorbed sky components + absorbing views x outgoing light."""
    eng, ff, fb, vfc = _engine(case)
    eng.run_full_mode()
    pv = eng.pvarray
    T = len(case['times'])
    surfs = obs.surfaces(pv)
    G = np.asarray(pv.ts_vf_aoi_matrix)
    n = len(surfs)
    ensure(G.shape == (n + 1, n + 1, T), 'absorbing views have shape %s', G.shape)
    # the absorbing views come from the functions of the calculator alone
    F = np.asarray(pv.ts_vf_matrix)
    if all(case['calc_fns']):
        vfc.fit(T)
        vfc.build_ts_vf_matrix(pv)
        close(G, np.asarray(vfc.build_ts_vf_aoi_matrix(pv, None)), 'absorbing views',
              rtol=1e-9, atol=1e-12)
    else:
        for x in surfs:
            r = (gen.col(case['times'], 'albedo') if x.kind == 'ground'
                 else case['model']['rho_' + x.kind])
            close(G[x.s.index], F[x.s.index] * (1 - r), 'absorbing views of ' + x.label,
                  rtol=1e-9, atol=1e-12)
    rec.tag('calculator %s' % sum(case['calc_fns']))
    rec.tag('model %s' % sum(case['model_fns']))
    q0 = np.zeros((n + 1, T))
    for x in surfs:
        q0[x.s.index] = x.s.params['q0']
    q0[n] = np.asarray(eng.irradiance.sky_luminance) * np.ones(T)
    skies = irr.skies(case)
    perez = case['model']['kind'] == 'perez'
    comps = ['direct', 'circumsolar', 'horizon'] if perez else ['direct']
    tilt = gen.col(case['times'], 'surface_tilt')
    alb = gen.col(case['times'], 'albedo')
    aoi = np.array([math.degrees(math.acos(max(-1.0, min(1.0, s.cf)))) for s in skies])
    for x in surfs:
        p = x.s.params
        ok = x.length > obs.TINY
        f = {'front': ff, 'back': fb}.get(x.kind)
        absorbed = np.zeros(T)
        for k in comps:
            got = np.asarray(p[k + '_absorbed'], float) * np.ones(T)
            if x.kind == 'ground':
                share = 1 - alb
            elif k == 'horizon':
                share = f(tilt)
            else:
                share = f(np.abs(90.0 - aoi))
            lit = np.asarray(p[k], float) * np.ones(T)
            near = np.array([abs(s.cf) < 1e-6 for s in skies])
            m = ok & ~near
            close(got[m], (share * lit)[m], 'absorbed %s light of %s' % (k, x.label),
                  rtol=1e-6, atol=1e-5)
            absorbed += got
            rec.nontrivial(x.kind != 'ground' and bool((lit > 1).any()))
        want = absorbed + (G[x.s.index] * q0).sum(axis=0)
        close(p['qabs'][ok], want[ok], 'absorbed light of ' + x.label, rtol=1e-8,
              atol=1e-6)
        if x.kind != 'ground':
            # never more than what arrives, up to the angular resolution
            close(G[x.s.index][G[x.s.index] < 0], 0.0, 'absorbing views')
    rec.tag('object', case['object'])
    rec.tag(case['model']['kind'])


@st.composite
def view_cases(draw):
    c = draw(gen.scenes(max_steps=2, irr=False, array=gen.arrays(max_rows=4, max_cut=2)))
    if draw(st.integers(0, 3)) == 0:
        c['times'][-1] = draw(gen.near_threshold(c['array'], c['times'][-1], 89.99))
    c['front'] = draw(faois())
    c['back'] = draw(faois())
    c['object'] = False
    c['n'] = draw(st.sampled_from([500, 1800, 6000]))
    return c


def aoi_views(case, rec):
    """Absorbing view factors = integral over the view from the surface's centre."""
    from pvfactors.viewfactors import VFCalculator
    ff, fb = make_faoi(case['front']), make_faoi(case['back'])
    pv = gen.fit_pvarray(case)
    vfc = VFCalculator(ff, fb, n_aoi_integral_sections=case['n'])
    vfc.fit(len(case['times']))
    vfc.build_ts_vf_matrix(pv)
    G = vfc.build_ts_vf_aoi_matrix(pv, None)
    surfs = obs.surfaces(pv)
    n = len(surfs)
    w = math.pi / case['n']
    idx = [x.s.index for x in surfs]
    nr = case['array']['n_pvrows']
    for t in range(len(case['times'])):
        scene = ref.Scene(case['array'], case['times'][t])
        tg = obs.targets(surfs, scene, t)
        L = np.array([x.length for x in tg])
        for i, x in enumerate(surfs):
            if x.kind == 'ground' or L[i] < 1e-6:
                continue
            f = ff if x.kind == 'front' else fb
            iv = ref.aoi_view(scene, tg[i], tg, f)
            # orientation of the angle: from the surface's u vector, 0..180
            nn = np.asarray(tg[i].n)
            u = np.array([nn[1], -nn[0]])
            for j in range(n + 1):
                if j < n and L[j] < 1e-6:
                    continue
                spans = iv[j]
                if j == n:
                    spans = _sky_only(scene, tg[i], spans, x.row, nr, u, nn)
                    if spans is None:
                        continue
                want, edges = 0.0, 0.0
                for a, b in spans:
                    if j == n:
                        edges += _below_horizon(f, a, b, u, nn, case_dir(pv, x, t, u))
                    # a, b measured from the normal towards u; from the plane: +90
                    lo, hi = math.degrees(a) + 90.0, math.degrees(b) + 90.0
                    if case_dir(pv, x, t, u) > 0:
                        lo, hi = 180.0 - hi, 180.0 - lo
                    want += integral(f, lo, hi)
                got = float(G[idx[i], idx[j] if j < n else n, t])
                tolv = 2 * w * 0.5 * 1.01 + 1e-6 + edges
                ensure(abs(got - want) < tolv, 'step %d: %s absorbs %r of the light from '
                       '%s, integration gives %r (bins of %.3f degrees)', t, x.label, got,
                       surfs[j].label if j < n else 'the sky', want, 180.0 / case['n'])
                if not spans:
                    # hidden or behind: at most one touched bin
                    ensure(got < tolv, 'step %d: %s absorbs %r from invisible %s', t,
                           x.label, got, surfs[j].label if j < n else 'sky')
                rec.nontrivial(want > 0.01 and j < n)
                rec.tag('row_to_row', j < n and surfs[j].kind != 'ground' and want > 1e-3)
    rec.tag('rows>1', nr > 1)


def case_dir(pv, x, t, u):
    """+1 when the surface measures its angles from the side of u."""
    v = np.asarray(x.s.u_vector)[:, t]
    return 1.0 if float(v @ u) > 0 else -1.0


def _below_horizon(f, a, b, u, nn, sense):
    """Integral over the part of the free view that points below the horizon: the strip
    past the end of the finite ground, which belongs to nobody."""
    m0 = math.atan2(-nn[1], u[1])
    cuts = [a] + [m for m in (m0 - math.pi, m0, m0 + math.pi) if a < m < b] + [b]
    out = 0.0
    for c, d in zip(cuts[:-1], cuts[1:]):
        m = 0.5 * (c + d)
        if math.cos(m) * nn[1] + math.sin(m) * u[1] >= 0:
            continue
        lo, hi = math.degrees(c) + 90.0, math.degrees(d) + 90.0
        if sense > 0:
            lo, hi = 180.0 - hi, 180.0 - lo
        out += integral(f, lo, hi)
    return out


def _sky_only(scene, src, spans, row, nr, u, nn):
    """Keep the part of the free view that is above the neighbouring row."""
    pm = 0.5 * (src.p + src.q)
    out = []
    for a, b in spans:
        m = 0.5 * (a + b)
        d = math.cos(m) * nn + math.sin(m) * u
        k = row + (1 if d[0] > 0 else -1)
        if 0 <= k < nr and d[1] <= 0.3:
            # below a neighbour that exists: beyond the ground extent, not sky
            low = scene.rows[k].low - pm
            cross = low[0] * d[1] - low[1] * d[0]
            above = cross > 0 if d[0] > 0 else cross < 0
            if not above:
                continue
        out.append((a, b))
    return out


@st.composite
def rho_cases(draw):
    return {'front': draw(faois()), 'back': draw(faois()),
            'n': draw(st.sampled_from([300, 1000])),
            'rho_front': draw(st.one_of(st.none(), gen.q(0.01, 0.5, 0.01))),
            'rho_back': draw(st.one_of(st.none(), gen.q(0.01, 0.5, 0.01))),
            'kind': draw(st.sampled_from(['perez', 'iso'])),
            'array': draw(gen.arrays(max_rows=2, cuts=False))}


def reflectivities(case, rec):
    """Diffuse reflectivity deduced from the incidence functions, unless one is given."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    ff, fb = make_faoi(case['front']), make_faoi(case['back'])
    vfc = VFCalculator(ff, fb, n_aoi_integral_sections=case['n'])
    want = {'front': 1 - integral(ff, 0, 180, 20000), 'back': 1 - integral(fb, 0, 180,
                                                                           20000)}
    for side, is_back in (('front', False), ('back', True)):
        got = float(vfc.vf_aoi_methods.rho_from_faoi_fn(is_back))
        ensure(abs(got - want[side]) < 2e-3, 'reflectivity deduced for the %s: %r, '
               'integration %r', side, got, want[side])
        ensure(-1e-9 <= got <= 1 + 1e-9, 'reflectivity %r', got)
    model = gen.make_model({'kind': case['kind'], 'rho_front': case['rho_front'],
                            'rho_back': case['rho_back']})
    eng = PVEngine.with_rho_initialization(
        OrderedPVArray.init_from_dict(gen.pv_params(case['array'])), vfc, model)
    for side in ('front', 'back'):
        got = getattr(eng.irradiance, 'rho_' + side)
        given = case['rho_' + side]
        exp = want[side] if given is None else given
        ensure(abs(float(got) - exp) < (2e-3 if given is None else 1e-12),
               '%s reflectivity used: %r, given %r, deduced %r', side, got, given,
               want[side])
    rec.nontrivial(case['rho_front'] is None or case['rho_back'] is None)


@st.composite
def start_cases(draw):
    c = draw(gen.runs(max_steps=2, array=gen.arrays(max_rows=3, max_cut=3)))
    c['front'], c['back'] = draw(faois()), draw(faois())
    n = c['array']['n_pvrows']
    c['given'] = [draw(st.booleans()), draw(st.booleans())]
    c['row'] = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    c['seg'] = None
    if c['row'] is not None and draw(st.booleans()):
        c['seg'] = draw(st.integers(0, gen.n_cut(c['array'], c['row'], 'back') - 1))
    c['wrap'] = draw(st.sampled_from(['function', 'object']))
    return c


class _WithFaoi(object):
    """A module object offering its incidence modifier as a method."""
    def __init__(self, f):
        self.faoi = f


def start(case, rec):
    """An engine started with deduced reflectivities equals one given the same numbers."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    ff, fb = make_faoi(case['front']), make_faoi(case['back'])
    w = _WithFaoi if case['wrap'] == 'object' else (lambda f: f)
    fast = dict(fast_mode_pvrow_index=case['row'], fast_mode_segment_index=case['seg'])

    def build(rho, first, wrap):
        m = dict(case['model'])
        m.update(rho)
        model = gen.make_model(m, faoi_fn_front=wrap(ff), faoi_fn_back=wrap(fb))
        vfc = VFCalculator(wrap(ff), wrap(fb), n_aoi_integral_sections=60)
        pv = OrderedPVArray.init_from_dict(gen.pv_params(case['array']))
        if first:
            eng = PVEngine.with_rho_initialization(pv, vfc, model, **fast)
        else:
            eng = PVEngine(pv, vf_calculator=vfc, irradiance_model=model, **fast)
        ensure(eng.pvarray is pv and eng.vf_calculator is vfc
               and eng.irradiance is model, 'the engine does not use what it is given')
        args, kw = gen.fit_args(case['times'])
        eng.fit(*args, **kw)
        if case['row'] is None:
            eng.run_full_mode()
        else:
            eng.run_fast_mode()
        return eng
    rho = {}
    for side, given in zip(('rho_front', 'rho_back'), case['given']):
        rho[side] = case['model'][side] if given else None
    a = build(rho, True, w)
    b = build({k: float(getattr(a.irradiance, k)) for k in rho}, False, lambda f: f)
    for side, given in zip(('rho_front', 'rho_back'), case['given']):
        if given:
            ensure(getattr(a.irradiance, side) == case['model'][side], '%s %r, given %r',
                   side, getattr(a.irradiance, side), case['model'][side])
    keys = obs.RESULT_KEYS + ('direct_absorbed', 'circumsolar_absorbed',
                              'horizon_absorbed')
    da, db = obs.dump_results(a.pvarray, keys), obs.dump_results(b.pvarray, keys)
    n = 0
    for x, p, q in zip(obs.surfaces(a.pvarray), da, db):
        ensure(sorted(p) == sorted(q), '%s has the results %s, expected %s', x.label,
               sorted(p), sorted(q))
        n += 'qinc' in p
        for k in p:
            close(p[k], q[k], '%s of %s' % (k, x.label), rtol=1e-9, atol=1e-9)
    if case['row'] is not None:
        want = 2 if case['seg'] is not None else 2 * gen.n_cut(case['array'],
                                                               case['row'], 'back')
        ensure(n == want, 'fast mode for row %s segment %s gave results on %d surfaces, '
               'expected %d', case['row'], case['seg'], n, want)
    rec.tag('fast', case['row'] is not None)
    rec.nontrivial(not all(case['given']))


@st.composite
def sandia_cases(draw):
    return {'module': draw(st.integers(0, 500)),
            'angles': draw(st.lists(gen.q(0.0, 180.0, 0.1), min_size=1, max_size=8)),
            'as_list': draw(st.booleans())}


def sandia(case, rec):
    """Incidence functions of library modules: symmetric, bounded, as the SAPM says."""
    import pvlib
    from pvfactors.viewfactors.aoimethods import faoi_fn_from_pvlib_sandia
    db = _sam()
    name = db.columns[case['module'] % len(db.columns)]
    fn = faoi_fn_from_pvlib_sandia(name)
    a = list(case['angles'])
    got = np.asarray(fn(a if case['as_list'] else np.array(a)), float)
    mirror = np.asarray(fn(np.array([180.0 - x for x in a])), float)
    close(got, mirror, '%s: angle and its mirror image' % name, atol=1e-9)
    m = db[name]
    inc = np.abs(90.0 - np.array(a))
    poly = sum(float(m['B%d' % i]) * inc ** i for i in range(6))
    want = np.clip(poly, 0.0, 1.0)
    close(got, want, '%s at %s degrees from its plane' % (name, a), atol=1e-9)
    ensure(abs(float(fn(90.0)) - min(1.0, max(0.0, float(m['B0'])))) < 1e-9,
           '%s: at normal incidence', name)
    rec.nontrivial(len(set(a)) > 1)


_DB = []


def _sam():
    import pvlib
    if not _DB:
        _DB.append(pvlib.pvsystem.retrieve_sam('SandiaMod'))
    return _DB[0]


FACETS = [
    Facet('diffuse_losses', lambda: gen.runs(max_steps=3), diffuse_losses, 480),
    Facet('absorbed_balance', aoi_cases, absorbed_balance, 320),
    Facet('aoi_views', view_cases, aoi_views, 240),
    Facet('reflectivities', rho_cases, reflectivities, 160),
    Facet('start', start_cases, start, 160),
    Facet('sandia', sandia_cases, sandia, 80),
]
