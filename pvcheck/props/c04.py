"""C04 ground: exact tiling, shadows by ray casting, cut points."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs, ref
from pvcheck.core import Facet, ensure

RULE = ('Array x sun geometries; non-trivial when a shadow lies inside the ground extent '
        'and (shadows overlap, or a shadow is clipped at the extent, or a row plane cuts '
        'a ground piece).')


def tiling(case, rec):
    pv = gen.fit_pvarray(case)
    g = pv.ts_ground
    surfs = [x for x in obs.surfaces(pv) if x.kind == 'ground']
    for t in range(len(case['times'])):
        scene = ref.Scene(case['array'], case['times'][t])
        sx, sy = scene.sun
        # row shade below 1e-8 m counts as none: shadows then overlap by that much
        tol = 2e-8 * (1 + abs(sx / sy))
        pieces = []
        for x in surfs:
            e = x.ends(t)
            ensure(np.all(np.isfinite(e)), 'step %d: %s has coordinates %s', t, x.label, e)
            ensure(np.all(np.abs(e[:, 1]) < 1e-12), 'step %d: %s off the ground: %s', t,
                   x.label, e)
            ensure(e[0, 0] <= e[1, 0] + tol, 'step %d: %s runs backwards: %s', t,
                   x.label, e)
            ln = e[1, 0] - e[0, 0]
            ensure(abs(abs(ln) - float(x.length[t])) < 1e-9, 'step %d: length of %s', t,
                   x.label)
            if ln > 1e-9:
                pieces.append((e[0, 0], e[1, 0], x.shaded, x))
        pieces.sort(key=lambda p: p[:2])
        ensure(pieces and abs(pieces[0][0] + 100) < 1e-9
               and abs(pieces[-1][1] - 100) < 1e-9, 'step %d: ground extent is %s', t,
               (pieces[0][0], pieces[-1][1]) if pieces else None)
        for p, r in zip(pieces[:-1], pieces[1:]):
            ensure(abs(p[1] - r[0]) < 1e-7 + tol, 'step %d: ground pieces %s %s and %s %s do '
                   'not join', t, p[3].label, p[:2], r[3].label, r[:2])
        # shadows of the rows, projected along the sun
        iv = []
        for r in scene.rows:
            xs = sorted([r.left[0] - r.left[1] * sx / sy,
                         r.right[0] - r.right[1] * sx / sy])
            iv.append([max(xs[0], -100.0), min(xs[1], 100.0)])
            rec.tag('clipped', xs[0] < -100 or xs[1] > 100)
        union = ref.intervals_union(iv)
        eps = 1e-6 * (1 + abs(sx / sy))
        for a, b, shaded, x in pieces:
            m = 0.5 * (a + b)
            if b - a < 4 * eps:
                continue
            inside = any(lo < m < hi for lo, hi in union)
            ensure(inside == shaded, 'step %d: %s covers [%r, %r] but the rows cast '
                   'their shadows on %s', t, x.label, a, b, union)
            k, _ = scene.first_row_hit(np.array([m, 0.0]), scene.sun)
            if scene.margin_row_hit(np.array([m, 0.0]), scene.sun) > 1e-6:
                ensure((k is not None) == shaded, 'step %d: middle of %s (x=%r): the ray '
                       'to the sun %s', t, x.label, m,
                       'hits row %s' % k if k is not None else 'is free')
        got = sum(b - a for a, b, s, _ in pieces if s)
        want = sum(b - a for a, b in union)
        ensure(abs(got - want) < eps * 2 * len(iv), 'step %d: shaded ground length %r, '
               'projected shadows cover %r', t, got, want)
        ensure(abs(float(np.asarray(g.shaded_length)[t]) - want) < eps * 2 * len(iv),
               'step %d: shaded_length %r', t, float(np.asarray(g.shaded_length)[t]))
        ensure(abs(float(np.asarray(g.length)[t]) - 200.0) < 1e-7 + 4 * tol * len(iv),
               'step %d: ground length %r', t, float(np.asarray(g.length)[t]))
        overlap = len(union) < len([i for i in iv if i[1] > i[0]])
        rec.tag('overlap', overlap)
        rec.tag('shadow_out', not union)
        # one element per row, in row order, where shadows are separate
        sep = all(a[1] < b[0] - 1e-6 for a, b in zip(iv[:-1], iv[1:])) or len(iv) == 1
        if sep:
            for k, el in enumerate(g.shadow_elements):
                e = el.coords.at(t)
                ensure(np.allclose([e[0][0], e[1][0]], np.clip(iv[k], -100, 100),
                                   atol=eps, rtol=0)
                       or iv[k][1] <= iv[k][0],
                       'step %d: shadow %d spans %s, row %d casts %s', t, k,
                       [float(e[0][0]), float(e[1][0])], k, iv[k])
        # the ground is cut where the plane of each row meets it
        if 0.01 < case['times'][t]['surface_tilt'] < 179.99:
            for k, r in enumerate(scene.rows):
                cut = r.c[0] - r.c[1] * scene.u[0] / scene.u[1]
                tolc = 1e-6 * (1 + abs(cut))
                cp = float(np.asarray(g.cut_point_coords[k].x)[t])
                ensure(abs(cp - cut) < tolc, 'step %d: cut point of row %d at %r, plane '
                       'meets the ground at %r', t, k, cp, cut)
                for a, b, s, x in pieces:
                    ensure(not (a + tolc < cut < b - tolc), 'step %d: %s [%r, %r] '
                           'straddles the plane of row %d at %r', t, x.label, a, b, k,
                           cut)
                for side in ('left', 'right'):
                    tot = 0.0
                    for s in g.ts_surfaces_side_of_cut_point(side, k):
                        e = s.coords.at(t)
                        if e[1][0] - e[0][0] < 1e-9:
                            continue
                        tot += e[1][0] - e[0][0]
                        ok = (e[1][0] <= cut + tolc if side == 'left'
                              else e[0][0] >= cut - tolc)
                        ensure(ok, 'step %d: surface %s listed %s of cut point %d at %r',
                               t, [float(e[0][0]), float(e[1][0])], side, k, cut)
                    c = min(max(cut, -100.0), 100.0)
                    w = c + 100.0 if side == 'left' else 100.0 - c
                    ensure(abs(tot - w) < 1e-6 + tolc, 'step %d: %r m of ground listed '
                           '%s of cut point %d, expected %r', t, tot, side, k, w)
                rec.nontrivial(bool(union) and abs(cut) < 100)


def low_sun_scenes():
    return gen.scenes(max_steps=3, irr=False, kinds=('cross', 'low', 'any', 'along'))


@st.composite
def built_cases(draw):
    """Grounds built directly from shadows and cut points on a coarse grid, so that shadows
    touch, vanish, leave the extent, and hold several cut points."""
    n, m, T = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    flags = draw(st.booleans())
    wide = draw(st.booleans())
    grid = st.integers(-120, 120) if wide else st.integers(-8, 8)
    out = {'n': n, 'm': m, 'y': draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])),
           'flags': [] if flags else None, 'steps': [],
           'extent': draw(st.sampled_from([None, None, [-50.0, 60.0]]))}
    for _ in range(T):
        over = flags and n > 1 and draw(st.booleans())
        if over:
            b1 = sorted(draw(grid) for _ in range(n))
            b2 = [b + draw(st.integers(0, 12)) for b in b1]
            b2 = [max(b, c) for b, c in zip(b2, b1[1:] + [max(b2)])]
        else:
            xs = sorted(draw(grid) for _ in range(2 * n))
            b1, b2 = xs[::2], xs[1::2]
        cuts = sorted(draw(grid) + draw(st.sampled_from([0.25, 0.25, 0.5]))
                      for _ in range(m))
        out['steps'].append({'b1': [float(v) for v in b1], 'b2': [float(v) for v in b2],
                             'cuts': cuts, 'over': bool(over)})
        if flags:
            out['flags'].append(bool(over))
    return out


def _split(a, b, cuts):
    xs = [a] + sorted(set(c for c in cuts if a < c < b)) + [b]
    return [(u, v) for u, v in zip(xs[:-1], xs[1:]) if v > u]


def built(case, rec):
    """A ground made from shadows and cut points is tiled by them."""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    steps, y, T = case['steps'], case['y'], len(case['steps'])
    yy = y * np.ones(T)
    shadows = np.array([[[[s['b1'][k] for s in steps], yy], [[s['b2'][k] for s in steps],
                                                            yy]]
                        for k in range(case['n'])], dtype=float)
    cps = [TsPointCoords(np.array([s['cuts'][k] for s in steps], float), yy)
           for k in range(case['m'])]
    kw = {} if case['flags'] is None else {'flag_overlap': np.array(case['flags'])}
    if cps:
        kw['cut_point_coords'] = cps
    g = TsGround.from_ordered_shadows_coords(shadows, y_ground=y, **kw)
    for t, s in enumerate(steps):
        sh = []
        for k in range(case['n']):
            end = (s['b1'][k + 1] if s['over'] and k + 1 < case['n'] else s['b2'][k])
            sh.append((float(np.clip(s['b1'][k], -100, 100)),
                       float(np.clip(end, -100, 100))))
        gaps = list(zip([-100.0] + [b for _, b in sh], [a for a, _ in sh] + [100.0]))
        want = {True: [], False: []}
        for shaded, els, model in ((True, g.shadow_elements, sh),
                                   (False, g.illum_elements, gaps)):
            ensure(len(els) == len(model), '%d elements for %d', len(els), len(model))
            for el, (a, b) in zip(els, model):
                e = np.asarray(el.coords.at(t), float)
                ensure(np.allclose(e, [[a, y], [b, y]], atol=1e-12), 'step %d: %s element '
                       'at %s, expected %s', t, 'shaded' if shaded else 'lit',
                       e.tolist(), [a, b])
                ensure(len(el.surface_list) == case['m'] + 1, 'step %d: %d pieces for %d '
                       'cut points', t, len(el.surface_list), case['m'])
                got = []
                for x in el.surface_list:
                    c = np.asarray(x.coords.at(t), float)
                    ensure(bool(x.shaded) == shaded, 'step %d: shaded flag', t)
                    ensure(np.all(c[:, 1] == y), 'step %d: piece at %s, ground at height '
                           '%r', t, c.tolist(), y)
                    if c[1, 0] != c[0, 0]:
                        got.append((c[0, 0], c[1, 0]))
                pieces = _split(a, b, s['cuts'])
                ensure(len(got) == len(pieces) and np.allclose(got, pieces), 'step %d: '
                       'pieces %s, expected %s', t, got, pieces)
                want[shaded] += pieces
        for k, c in enumerate(s['cuts']):
            for side in ('left', 'right'):
                got = [np.asarray(x.coords.at(t), float)[:, 0].tolist()
                       for x in g.ts_surfaces_side_of_cut_point(side, k)]
                got = sorted(tuple(v) for v in got if v[0] != v[1])
                exp = sorted(p for p in want[True] + want[False]
                             if (p[1] <= c if side == 'left' else p[0] >= c))
                ensure(len(got) == len(exp) and (not got or np.allclose(got, exp)),
                       'step %d: %s of the cut point %r: %s, expected %s', t, side, c, got,
                       exp)
        L = {k: sum(b - a for a, b in v) for k, v in want.items()}
        ensure(abs(float(np.asarray(g.length)[t]) - 200.0) < 1e-9
               and abs(float(np.asarray(g.shaded_length)[t]) - L[True]) < 1e-9,
               'step %d: ground length %r, shaded %r of %r', t,
               float(np.asarray(g.length)[t]), float(np.asarray(g.shaded_length)[t]),
               L[True])
        # the ground of this step as static geometry
        elements = {True: [p for p in sh if p[1] > p[0]],
                    False: [p for p in gaps if p[1] > p[0]]}
        ext = {} if case['extent'] is None else {'x_min_max': tuple(case['extent'])}
        for merge in (True, False):
            for cuts in (True, False):
                at = g.at(t, merge_if_flag_overlap=merge, with_cut_points=cuts, **ext)
                seg = at.list_segments[0]
                one = merge and s['over'] and len(elements[True]) > 1
                for shaded, col in ((True, seg.shaded_collection),
                                    (False, seg.illum_collection)):
                    exp = [(a, b) for a, b in (want if cuts else elements)[shaded]]
                    if one and shaded:
                        exp = [(elements[True][0][0], elements[True][-1][1])]
                        if cuts:
                            exp = _split(exp[0][0], exp[0][1], s['cuts'])
                            rec.tag('merged_and_cut', len(exp) > 1)
                    got = [(x.coords[0][0], x.coords[1][0]) for x in col.list_surfaces]
                    ensure(len(got) == len(exp) and (not got or np.allclose(got, exp)),
                           'step %d: %s ground %s, expected %s (merge=%s cuts=%s)', t,
                           'shaded' if shaded else 'lit', got, exp, merge, cuts)
                    for x in col.list_surfaces:
                        ensure(all(c[1] == y for c in x.coords) and x.shaded == shaded,
                               'step %d: piece %s of the ground at %r', t,
                               list(x.coords), y)
        rec.nontrivial(len(want[True]) > 0 and case['m'] > 0)
        rec.tag('overlap', s['over'])
        rec.tag('cut_in_shadow', any(a < c < b for a, b in sh for c in s['cuts']))


FACETS = [
    Facet('tiling', lambda: gen.scenes(max_steps=4, irr=False), tiling, 2400),
    Facet('tiling_low_sun', low_sun_scenes, tiling, 2400),
    Facet('built_ground', built_cases, built, 1200),
]
