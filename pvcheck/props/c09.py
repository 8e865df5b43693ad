"""C09 fast mode: one-bounce balance on the selected back surfaces."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs, ref
from pvcheck.core import Facet, close, ensure

RULE = ('Full inputs plus a generated selection (row, segment or all, given at '
        'construction or at the call); non-trivial when the selected row has a neighbour '
        'and tilt > 0.')


@st.composite
def cases(draw):
    c = draw(gen.runs(max_steps=3, ghi=True))
    n = c['array']['n_pvrows']
    c['row'] = draw(st.integers(0, n - 1))
    nb = gen.n_cut(c['array'], c['row'], 'back')
    c['seg'] = draw(st.one_of(st.none(), st.integers(0, nb - 1)))
    c['how'] = draw(st.sampled_from(['init', 'call', 'both']))
    if c['how'] == 'init':
        c['how'] = [c['row'], c['seg'], False, False]
    elif c['how'] == 'call':
        c['how'] = [None, None, True, True]
    else:
        r0 = draw(st.one_of(st.none(), st.integers(0, n - 1)))
        # (a segment given at construction cannot be taken back at the call)
        s0 = None if c['seg'] is None else draw(st.one_of(st.none(),
                                                          st.integers(0, nb - 1)))
        c['how'] = [r0, s0, r0 != c['row'] or draw(st.booleans()),
                    s0 != c['seg'] or draw(st.booleans())]
    return c


def _run(case):
    r, s, how = case['row'], case['seg'], case['how']
    got = {}

    def report(pvarray):
        got['pvarray'] = pvarray
        return 'the report'
    # what is given at construction, and what at the call (which takes precedence)
    row0, seg0, row_at_call, seg_at_call = how
    eng = gen.fit_engine(case, fast_mode_pvrow_index=row0, fast_mode_segment_index=seg0)
    call = {}
    if row_at_call:
        call['pvrow_index'] = r
    if seg_at_call:
        call['segment_index'] = s
    out = eng.run_fast_mode(fn_build_report=report, **call)
    ensure(out == 'the report' and got['pvarray'] is eng.pvarray,
           'the report builder is not given the array / its report is not returned')
    return eng


def selected(case):
    def f(x):
        return (x.kind == 'back' and x.row == case['row']
                and (case['seg'] is None or x.seg == case['seg']))
    return f


def balance(case, rec):
    eng = _run(case)
    pv = eng.pvarray
    T = len(case['times'])
    skies = irr.skies(case)
    perez = case['model']['kind'] == 'perez'
    comps = ['direct', 'circumsolar', 'horizon'] if perez else ['direct']
    sel = selected(case)
    surfs = obs.surfaces(pv)
    for x in surfs:
        if not sel(x):
            for k in ('qinc', 'reflection', 'isotropic'):
                ensure(x.s.params.get(k) is None, '%s computed on %s, selection is row '
                       '%s segment %s', k, x.label, case['row'], case['seg'])
            continue
        p = x.s.params
        vf = p['view_factors']
        for t in range(T):
            if x.length[t] < 1e-6:
                continue
            sky = skies[t]
            ok = not (sky.zeroed or sky.grazing)
            v = {k: float(vf[k][t]) for k in vf if k != 'to_each_gnd_shadow'}
            each = np.asarray(vf['to_each_gnd_shadow'])[:, t]
            where = 'step %d %s' % (t, x.label)
            ensure(abs(each.sum() - v['to_gnd_shaded']) < 1e-9, '%s: view of the shadows '
                   'one by one %s, together %r', where, each, v['to_gnd_shaded'])
            ensure(abs(v['to_gnd_shaded'] + v['to_gnd_illum'] - v['to_gnd_total']) < 1e-9,
                   '%s: ground views do not add up: %s', where, v)
            ensure(abs(v['to_pvrow_shaded'] + v['to_pvrow_illum'] - v['to_pvrow_total'])
                   < 1e-9, '%s: row views do not add up: %s', where, v)
            ensure(abs(v['to_gnd_total'] + v['to_pvrow_total'] + v['to_sky'] - 1) < 1e-9,
                   '%s: views do not add up to 1: %s', where, v)
            for k, y in v.items():
                ensure(-1e-7 <= y <= 1 + 1e-7, '%s: %s = %r', where, k, y)
            # one-bounce balance, with the emitters of the model itself
            al = case['times'][t]['albedo']
            rf = case['model']['rho_front']
            m = eng.irradiance
            parts = {
                'reflection_gnd_shaded': v['to_gnd_shaded'] * al * m.gnd_shaded[t],
                'reflection_gnd_illum': v['to_gnd_illum'] * al * m.gnd_illum[t],
                'reflection_pvrow_shaded': v['to_pvrow_shaded'] * rf * m.pvrow_shaded[t],
                'reflection_pvrow_illum': v['to_pvrow_illum'] * rf * m.pvrow_illum[t],
                'isotropic': v['to_sky'] * m.sky_luminance[t]}
            for k, e in parts.items():
                ensure(abs(float(p[k][t]) - e) < 1e-7 + 1e-9 * abs(e), '%s: %s = %r, '
                       'expected %r', where, k, float(p[k][t]), e)
            refl = sum(parts[k] for k in parts if k != 'isotropic')
            ensure(abs(float(p['reflection'][t]) - refl) < 1e-6, '%s: reflection %r, '
                   'parts add to %r', where, float(p['reflection'][t]), refl)
            skyterm = sum(float((np.asarray(p[c], float) * np.ones(T))[t])
                          for c in comps)
            got = float((np.asarray(p['sky_term'], float) * np.ones(T))[t])
            ensure(abs(got - skyterm) < 1e-6, '%s: sky term %r, components add to %r',
                   where, got, skyterm)
            q = refl + parts['isotropic'] + skyterm
            ensure(abs(float(p['qinc'][t]) - q) < 1e-6, '%s: qinc %r, balance gives %r',
                   where, float(p['qinc'][t]), q)
            # emitters against the reference sky
            if ok:
                for k, e in sky.fast_terms().items():
                    g = {'gnd_illum': m.gnd_illum, 'gnd_shaded': m.gnd_shaded,
                         'pvrow_illum': m.pvrow_illum, 'pvrow_shaded': m.pvrow_shaded,
                         'sky': m.sky_luminance}[k][t]
                    ensure(abs(float(g) - e) < 1e-7 + 1e-9 * abs(e), 'step %d: emitter '
                           '%s is %r, reference %r', t, k, float(g), e)
    rec.nontrivial(case['array']['n_pvrows'] > 1
                   and any(t['surface_tilt'] > 0 for t in case['times']))
    rec.tag('one_segment', case['seg'] is not None)
    rec.tag('row %s, segment %s' % tuple('at call' if v else 'at start'
                                         for v in case['how'][2:]))
    rec.tag('edge_row', case['row'] in (0, case['array']['n_pvrows'] - 1))


def exact_views(case, rec):
    """Fast-mode view factors equal exact visibility (ground unbounded between rows)."""
    eng = _run(case)
    pv = eng.pvarray
    n = case['array']['n_pvrows']
    sel = selected(case)
    surfs = obs.surfaces(pv)
    for t in range(len(case['times'])):
        scene = ref.Scene(case['array'], case['times'][t])
        # shadows, as laid on the ground by the array itself (checked by C04)
        shadows = []
        for el in pv.ts_ground.shadow_elements:
            e = np.asarray(el.coords.at(t))
            shadows.append(ref.Target(e[0], e[1], np.array([0.0, 1.0])))
        fronts = []
        for y in surfs:
            if y.kind == 'front':
                e = y.ends(t)
                fronts.append((y, ref.Target(e[0], e[1], scene.n, row=y.row,
                                             front=True)))
        edge = ref.Target([ref.XMIN, 0.0], [ref.XMAX, 0.0], np.array([0.0, 1.0]))
        for x in surfs:
            if not sel(x) or x.length[t] < 1e-6:
                continue
            e = x.ends(t)
            src = ref.Target(e[0], e[1], -scene.n, row=x.row, front=False)
            vf = x.s.params['view_factors']
            where = 'step %d %s' % (t, x.label)
            tg = shadows + [f for _, f in fronts]
            r = ref.exact_view_factors(scene, src, tg)
            g = ref.exact_view_factors(scene, src, [edge])
            got = np.asarray(vf['to_each_gnd_shadow'])[:, t]
            want = r[:len(shadows)]
            live = np.array([s.length for s in shadows]) > 1e-8
            d = np.abs(np.where(live, got - want, got))
            ensure(d.max() < 1e-6, '%s: views of each shadow %s, exact %s', where, got,
                   want)
            rows_vis = r[len(shadows):-1]
            tot = rows_vis.sum()
            shd = sum(v for v, (y, f) in zip(rows_vis, fronts)
                      if y.shaded and f.length > 1e-8)
            a = float(vf['to_pvrow_total'][t])
            b = float(vf['to_pvrow_shaded'][t])
            ensure(abs(a - tot) < 1e-6, '%s: view of rows %r, exact %r', where, a, tot)
            ensure(abs(b - shd) < 1e-6, '%s: view of shaded row parts %r, exact %r',
                   where, b, shd)
            # ground: the whole plane when a neighbour bounds the view, else to 100 m
            back_right = (scene.faces < 0 and 1e-10 < case['times'][t]['surface_tilt']
                          < 180 - 1e-10)
            open_side = (x.row == n - 1) if back_right else (x.row == 0)
            got_g = float(vf['to_gnd_total'][t])
            if open_side:
                ensure(abs(got_g - g[0]) < 1e-6, '%s: view of ground %r, exact %r', where,
                       got_g, float(g[0]))
            else:
                # the part of the plane beyond the extent can only add
                d = case['array']['pvrow_width'] / case['array']['gcr']
                big = _unbounded(scene, src)
                ensure(abs(got_g - big) < 1e-6, '%s: view of ground %r, exact (unbounded '
                       'plane) %r', where, got_g, big)
            rec.nontrivial(tot > 1e-6 and want.sum() > 1e-6)
            rec.tag('sees_shaded_row', shd > 1e-6)
            rec.tag('open_side', open_side)


def _unbounded(scene, src):
    """View of the infinite ground plane."""
    a, b = ref.XMIN, ref.XMAX
    try:
        ref.XMIN, ref.XMAX = -1e7, 1e7
        t = ref.Target([ref.XMIN, 0.0], [ref.XMAX, 0.0], np.array([0.0, 1.0]))
        return float(ref.exact_view_factors(scene, src, [t])[0])
    finally:
        ref.XMIN, ref.XMAX = a, b


@st.composite
def low_cases(draw):
    c = draw(gen.runs(max_steps=2, array=gen.arrays(min_rows=2, max_rows=4),
                      kinds=('cross', 'low', 'behind', 'any')))
    c['row'] = draw(st.integers(0, c['array']['n_pvrows'] - 1))
    c['seg'], c['how'] = None, [None, None, True, False]
    return c


FACETS = [
    Facet('balance', cases, balance, 800),
    Facet('exact_views', low_cases, exact_views, 800),
]
