"""C20 every surface is listed once, under one index used by all matrices and results."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, irr, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Generated arrays (rows, segments per side, parameter names), fitted one to three '
        'times; non-trivial when 2+ rows and some side is cut or the array is re-fitted.')

MAX = 99.0        # the ground is modelled within 100 m


@st.composite
def cases(draw):
    c = draw(gen.runs(max_steps=2, low=0))
    c['names'] = draw(st.sampled_from([[], ['qinc'], ['a', 'b', 'qinc']]))
    c['refits'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['more'] = [draw(gen.steps(c['array']['axis_azimuth'], irr=False))
                 for _ in range(draw(st.integers(1, 3)))]
    return c


def check_listing(case, pv, names):
    a = case['array']
    n = a['n_pvrows']
    S = obs.surfaces(pv)
    alls = pv.all_ts_surfaces
    n_ground = (2 * n + 1) * (n + 1)
    cuts = [(gen.n_cut(a, k, 'front'), gen.n_cut(a, k, 'back')) for k in range(n)]
    total = n_ground + 2 * sum(f + b for f, b in cuts)
    ensure(len(alls) == total == pv.n_ts_surfaces == len(S), '%d surfaces listed, %d '
           'counted, %d found, expected %d', len(alls), pv.n_ts_surfaces, len(S), total)
    ensure([s.index for s in alls] == list(range(total)) == list(pv.ts_surface_indices),
           'surface indices %s', [s.index for s in alls])
    ensure(sorted(id(s) for s in alls) == sorted(id(x.s) for x in S)
           and len({id(s) for s in alls}) == total, 'the list of all surfaces is not the '
           'set of surfaces in the rows and the ground')
    g = pv.ts_ground
    ensure(g.n_ts_surfaces == n_ground == len(g.all_ts_surfaces), 'ground lists %d, '
           'counts %d, expected %d', len(g.all_ts_surfaces), g.n_ts_surfaces, n_ground)
    ensure(g.n_ts_shaded_surfaces == n * (n + 1)
           and g.n_ts_illum_surfaces == (n + 1) ** 2, 'ground counts %d shaded %d lit',
           g.n_ts_shaded_surfaces, g.n_ts_illum_surfaces)
    ensure(len(g.shadow_elements) == n and len(g.illum_elements) == n + 1,
           'ground elements')
    ensure(sorted(id(s) for s in g.shaded.list_ts_surfaces + g.illum.list_ts_surfaces)
           == sorted(id(s) for s in g.all_ts_surfaces)
           and g.shaded.n_ts_surfaces == n * (n + 1), 'ground collections')
    for k in range(n):
        sides = {sd: g.ts_surfaces_side_of_cut_point(sd, k) for sd in ('left', 'right')}
        ensure(sorted(id(s) for v in sides.values() for s in v)
               == sorted(id(s) for s in g.all_ts_surfaces), 'the ground surfaces left '
               '(%d) and right (%d) of the cut point of row %d are not the ground '
               'surfaces, once each', len(sides['left']), len(sides['right']), k)
        cp = np.asarray(g.cut_point_coords[k].x, float)
        for sd, f, inside in (
                ('left', g.shadow_coords_left_of_cut_point, np.minimum),
                ('right', g.shadow_coords_right_of_cut_point, np.maximum)):
            for el, part in zip(g.shadow_elements, f(k)):
                e = [inside(np.asarray(p.x, float), cp)
                     for p in (el.coords.b1, el.coords.b2)]
                length = np.abs(e[1] - e[0])
                got = np.abs(np.asarray(part.b2.x, float) - np.asarray(part.b1.x, float))
                ok = np.abs(cp) < MAX
                close(got[ok], length[ok], 'length of a shadow %s of the cut point of row '
                      '%d' % (sd, k), atol=1e-6)
        for sd, sign in (('left', -1), ('right', 1)):
            for s in sides[sd]:
                b1, b2 = np.asarray(s.b1.x, float), np.asarray(s.b2.x, float)
                # beyond the edge of the modelled ground everything is on one side
                over = np.maximum(sign * (cp - b1), sign * (cp - b2))
                bad = ((np.asarray(s.length) > 1e-6) & (np.abs(cp) < MAX)
                       & (over > 1e-6))
                ensure(not bad.any(), 'ground surface %s is listed %s of the cut point '
                       'of row %d but reaches %r m across it', s.index, sd, k,
                       float(over.max()))
    for k, row in enumerate(pv.ts_pvrows):
        f, b = cuts[k]
        ensure(row.n_ts_surfaces == 2 * (f + b) == len(row.all_ts_surfaces),
               'row %d lists %d surfaces, counts %d, expected %d', k,
               len(row.all_ts_surfaces), row.n_ts_surfaces, 2 * (f + b))
        for side, c in ((row.front, f), (row.back, b)):
            ensure(side.n_ts_surfaces == 2 * c == len(side.all_ts_surfaces),
                   'row %d: side lists %d surfaces, expected %d', k,
                   len(side.all_ts_surfaces), 2 * c)
            ensure([seg.index for seg in side.list_segments] == list(range(c)),
                   'row %d: segment indices', k)
            for seg in side.list_segments:
                ensure(seg.n_ts_surfaces == 2 == len(seg.all_ts_surfaces)
                       and seg.illum.n_ts_surfaces == seg.shaded.n_ts_surfaces == 1,
                       'row %d: segment surfaces', k)
    for x in S:
        ensure(bool(x.s.shaded) == x.shaded, '%s carries shaded=%s', x.label, x.s.shaded)
        ensure(x.length.shape == (pv.n_states,), '%s has %s lengths for %d steps',
               x.label, x.length.shape, pv.n_states)
        ensure(set(names) <= set(x.s.params), '%s lacks the requested parameters %s',
               x.label, names)
        ensure(bool(x.s.is_empty) == bool(np.nansum(x.length) < 1e-8), '%s emptiness',
               x.label)


def listing(case, rec):
    from pvfactors.geometry import OrderedPVArray
    pv = OrderedPVArray.init_from_dict(gen.pv_params(case['array']),
                                       param_names=list(case['names']))
    pv.fit(*gen.geometry_inputs(case['times']))
    check_listing(case, pv, case['names'])
    for i in range(case['refits']):
        times = case['more'] if i % 2 == 0 else case['times']
        pv.fit(*gen.geometry_inputs(times))
        ensure(pv.n_states == len(times), 'n_states %s after fitting %d steps',
               pv.n_states, len(times))
        check_listing(case, pv, case['names'])
    rec.nontrivial(case['array']['n_pvrows'] > 1
                   and (bool(case['array'].get('cut')) or case['refits'] > 0))


def vectors(case, rec):
    """Row i of every modelling matrix belongs to surface i, the sky comes last."""
    eng = gen.run_full(case)
    pv, mod = eng.pvarray, eng.irradiance
    check_listing(case, pv, [])
    perez = case['model']['kind'] == 'perez'
    comps = ['direct'] + (['circumsolar', 'horizon'] if perez else [])
    n, T = len(pv.all_ts_surfaces), pv.n_states
    mats = mod.get_full_ts_modeling_vectors(pv)
    for m in mats:
        ensure(np.asarray(m).shape == (n + 1, T), 'modelling matrix %s for %d surfaces, '
               '%d steps', np.asarray(m).shape, n, T)
    irr_m, rho, inv, tot = mats
    sky = np.asarray(mod.sky_luminance) * np.ones(T)
    for i in (0, 3):
        close(mats[i][n], sky, 'sky row of matrix %d' % i, rtol=1e-12)
    for i in (1, 2):
        close(mats[i][n], 1.0, 'sky row of matrix %d' % i, rtol=1e-12)
    plain = mod.get_summed_components(pv, absorbed=False)
    absb = mod.get_summed_components(pv, absorbed=True)
    m = case['model']
    skies = irr.skies(case)
    for x in obs.surfaces(pv):
        i = x.s.index
        s = sum(np.asarray(x.s.params[c], float) * np.ones(T) for c in comps)
        sa = sum(np.asarray(x.s.params[c + '_absorbed'], float) * np.ones(T)
                 for c in comps)
        close(irr_m[i], s, 'irradiance row of %s' % x.label, rtol=1e-12, atol=1e-9)
        close(plain[i], s, 'summed components of %s' % x.label, rtol=1e-12, atol=1e-9)
        close(absb[i], sa, 'summed absorbed components of %s' % x.label, rtol=1e-12,
              atol=1e-9)
        want = (gen.col(case['times'], 'albedo') if x.kind == 'ground'
                else m['rho_%s' % x.kind] * np.ones(T))
        close(rho[i], want, 'reflectivity row of %s' % x.label, rtol=1e-12)
        close(inv[i], 1.0 / want, 'inverse reflectivity row of %s' % x.label, rtol=1e-9)
        if x.kind == 'ground' and not x.shaded:
            close(tot[i], [k.ghi for k in skies], 'total irradiance row of %s' % x.label,
                  rtol=1e-9)
        if x.kind == 'back':
            close(tot[i], 0.0, 'total irradiance row of %s' % x.label)
    for name in ('ts_vf_matrix', 'ts_vf_aoi_matrix'):
        ensure(np.asarray(getattr(pv, name)).shape == (n + 1, n + 1, T), '%s shape %s',
               name, np.asarray(getattr(pv, name)).shape)
        close(getattr(eng.vf_calculator, name[3:]), getattr(pv, name), '%s kept by the '
              'calculator' % name, rtol=1e-12)
    rec.nontrivial(case['array']['n_pvrows'] > 1)


@st.composite
def setting_cases(draw):
    c = draw(gen.scenes(max_steps=2, irr=False, array=gen.arrays(max_rows=3)))
    c['names'] = draw(st.sampled_from([[], ['a'], ['a', 'b', 'qinc']]))
    c['sets'] = [{'at': draw(st.sampled_from(
        ['array', 'ground', 'ground_illum', 'ground_shaded', 'row', 'side', 'segment', 'part',
         'surface', 'illum_params', 'shaded_params'])),
        'pick': draw(st.integers(0, 500)), 'name': draw(st.sampled_from(['a', 'b', 'z'])),
        'array': draw(st.booleans())} for _ in range(draw(st.integers(2, 6)))]
    return c


def setting(case, rec):
    """Values set on a part of the array are set on its surfaces, and nowhere else."""
    from pvfactors.geometry import OrderedPVArray
    pv = OrderedPVArray.init_from_dict(gen.pv_params(case['array']),
                                       param_names=list(case['names']))
    pv.fit(*gen.geometry_inputs(case['times']))
    xs = obs.surfaces(pv)
    want = {id(x.s): {k: None for k in case['names']} for x in xs}
    sides = [s for r in pv.ts_pvrows for s in (r.front, r.back)]
    segs = [g for s in sides for g in s.list_segments]
    g = pv.ts_ground
    for k, op in enumerate(case['sets']):
        i, at = op['pick'], op['at']
        new = {op['name']: (np.full(len(case['times']), float(k)) if op['array']
                            else float(k))}
        if at in ('illum_params', 'shaded_params'):
            shaded = at == 'shaded_params'
            below = [x.s for x in xs if x.kind == 'ground' and x.shaded == shaded]
            (g.update_shaded_params if shaded else g.update_illum_params)(new)
        else:
            if at == 'array':
                o, below = pv, [x.s for x in xs]
            elif at == 'ground':
                o, below = g, [x.s for x in xs if x.kind == 'ground']
            elif at in ('ground_illum', 'ground_shaded'):
                o = getattr(g, at[7:])
                below = [x.s for x in xs
                         if x.kind == 'ground' and x.shaded == (at == 'ground_shaded')]
            elif at == 'row':
                o = pv.ts_pvrows[i % len(pv.ts_pvrows)]
                below = [s for d in (o.front, o.back) for t in d.list_segments
                         for p in (t.illum, t.shaded) for s in p.list_ts_surfaces]
            elif at == 'side':
                o = sides[i % len(sides)]
                below = [s for t in o.list_segments for p in (t.illum, t.shaded)
                         for s in p.list_ts_surfaces]
            elif at == 'segment':
                o = segs[i % len(segs)]
                below = list(o.illum.list_ts_surfaces) + list(o.shaded.list_ts_surfaces)
            elif at == 'part':
                t = segs[(i // 2) % len(segs)]
                o = t.illum if i % 2 else t.shaded
                below = list(o.list_ts_surfaces)
            else:
                o = xs[i % len(xs)].s
                below = [o]
            o.update_params(new)
        for s in below:
            want[id(s)].update(new)
        rec.tag(at)
        for x in xs:
            w, got = want[id(x.s)], x.s.params
            ensure(set(got) == set(w), 'values named %s on %s after setting %s on %s, '
                   'expected %s', sorted(got), x.label, op['name'], at, sorted(w))
            for nm, v in w.items():
                ensure((v is None) == (got[nm] is None), '%s of %s is %s after setting %s '
                       'on %s', nm, x.label, got[nm], op['name'], at)
                if v is not None:
                    close(np.asarray(got[nm], float), np.asarray(v, float), '%s of %s after '
                          'setting %s on %s' % (nm, x.label, op['name'], at), atol=0, rtol=0)
                    ensure(x.s.get_param(nm) is got[nm], 'get_param of %s', x.label)
    rec.nontrivial(len({o['at'] for o in case['sets']}) > 1)


FACETS = [
    Facet('setting', setting_cases, setting, 240),
    Facet('listing', cases, listing, 960),
    Facet('vectors', cases, vectors, 400),
]
