"""C05 PV row geometry: where rows, sides and segments are."""
import numpy as np

from pvcheck import gen, ref
from pvcheck.core import Facet, ensure

RULE = ('Array x tracker positions; non-trivial when tilt > 0 and (2+ rows or a side is '
        'cut in segments).')


def rows(case, rec):
    pv = gen.fit_pvarray(case)
    a = case['array']
    w, T = a['pvrow_width'], len(case['times'])
    ensure(len(pv.ts_pvrows) == a['n_pvrows'], '%d rows built', len(pv.ts_pvrows))
    for t in range(T):
        tt = case['times'][t]
        scene = ref.Scene(a, tt)
        for k, (row, r) in enumerate(zip(pv.ts_pvrows, scene.rows)):
            where = 'step %d row %d' % (t, k)
            ensure(row.index == k, '%s: index %s', where, row.index)
            e = np.asarray(row.full_pvrow_coords.at(t))
            # left end first
            ensure(np.allclose(e[0], r.left, atol=1e-9), '%s: first end %s, expected %s',
                   where, e[0], r.left)
            ensure(np.allclose(e[1], r.right, atol=1e-9), '%s: second end %s, expected '
                   '%s', where, e[1], r.right)
            c = np.asarray(row.centroid.at(t))
            ensure(np.allclose(c, r.c, atol=1e-9), '%s: centroid %s', where, c)
            ensure(np.allclose(row.xy_center, r.c, atol=1e-9), '%s: xy_center', where)
            hi = np.asarray(row.highest_point.at(t))
            lo = np.asarray(row.full_pvrow_coords.lowest_point.at(t))
            ensure(abs(hi[1] - max(r.left[1], r.right[1])) < 1e-9
                   and abs(lo[1] - min(r.left[1], r.right[1])) < 1e-9
                   and np.hypot(*(hi - lo)) > w - 1e-9,
                   '%s: highest %s lowest %s', where, hi, lo)
            if 0.01 < tt['surface_tilt'] < 179.99:
                ensure(np.allclose(hi, r.high, atol=1e-9) and
                       np.allclose(lo, r.low, atol=1e-9), '%s: highest %s lowest %s',
                       where, hi, lo)
            for name, side, n in (('front', row.front, scene.n), ('back', row.back,
                                                                  -scene.n)):
                nc = gen.n_cut(a, k, name)
                ensure(len(side.list_segments) == nc, '%s: %s has %d segments, asked %d',
                       where, name, len(side.list_segments), nc)
                ensure(abs(float(np.asarray(side.length)[t]) - w) < 1e-9,
                       '%s: %s length %r', where, name, np.asarray(side.length)[t])
                nv = np.asarray(side.n_vector)[:, t]
                ensure(np.allclose(nv / np.hypot(*nv), n, atol=1e-9),
                       '%s: %s normal %s, expected direction %s', where, name, nv, n)
                for j, seg in enumerate(side.list_segments):
                    p = r.left + (w * j / nc) * scene.u
                    q = r.left + (w * (j + 1) / nc) * scene.u
                    s = np.asarray(seg.coords.at(t))
                    ensure(np.allclose(s, [p, q], atol=1e-9),
                           '%s: %s segment %d spans %s, expected %s', where, name, j,
                           s.tolist(), [p.tolist(), q.tolist()])
                    ensure(seg.index == j, '%s: %s segment %d has index %s', where, name,
                           j, seg.index)
                    # illuminated and shaded parts partition the segment
                    parts = []
                    for coll in (seg.illum, seg.shaded):
                        for su in coll.list_ts_surfaces:
                            ensure(bool(su.shaded) == bool(coll.shaded),
                                   '%s: shading flag', where)
                            x = (np.asarray(su.coords.at(t)) - p) @ scene.u
                            off = (np.asarray(su.coords.at(t)) - p) @ scene.n
                            ensure(np.all(np.abs(off) < 1e-9),
                                   '%s: %s surface off the row plane by %s', where, name,
                                   off)
                            ensure(np.all((x > -1e-9) & (x < w / nc + 1e-9)),
                                   '%s: %s surface outside its segment: %s', where, name,
                                   x)
                            if abs(x[1] - x[0]) > 1e-9:
                                parts.append(sorted(x))
                            ns = np.asarray(su.n_vector)[:, t]
                            ensure(np.allclose(ns / np.hypot(*ns), n, atol=1e-9),
                                   '%s: normal of a %s surface', where, name)
                    parts.sort()
                    ensure(parts and abs(parts[0][0]) < 1e-8
                           and abs(parts[-1][1] - w / nc) < 1e-8
                           and all(abs(u[1] - v[0]) < 1e-8
                                   for u, v in zip(parts[:-1], parts[1:])),
                           '%s: %s segment %d is not partitioned: %s', where, name, j,
                           parts)
                    ensure(abs(float(np.asarray(seg.length)[t]) - w / nc) < 1e-9,
                           '%s: %s segment %d length', where, name, j)
        rec.nontrivial(tt['surface_tilt'] > 0 and (a['n_pvrows'] > 1 or 'cut' in a))
        rec.tag('faces_left', scene.faces < 0)
        rec.tag('tilt0', tt['surface_tilt'] == 0)
    rec.tag('cut', 'cut' in a)


def points(case, rec):
    """Ends, centres, extreme points and directions of everything with coordinates."""
    from pvfactors.geometry.timeseries import TsLineCoords, TsPointCoords
    pv = gen.fit_pvarray(case)
    T = pv.n_states
    things = []
    g = pv.ts_ground
    for els, name in ((g.shadow_elements, 'shadow'), (g.illum_elements, 'lit ground')):
        for i, el in enumerate(els):
            things.append(('%s %d' % (name, i), el))
    things += [('ground surface %d' % s.index, s) for s in g.all_ts_surfaces]
    for k, row in enumerate(pv.ts_pvrows):
        for name, side in (('front', row.front), ('back', row.back)):
            for j, seg in enumerate(side.list_segments):
                things.append(('row %d %s segment %d' % (k, name, j), seg))
            things += [('row %d %s surface %d' % (k, name, s.index), s)
                       for s in side.all_ts_surfaces]
    for what, x in things:
        arr = np.asarray(x.coords.as_array, float) * np.ones(T)
        ensure(arr.shape == (2, 2, T), '%s: coordinates of shape %s', what, arr.shape)
        for t in range(T):
            p, q = arr[0, :, t], arr[1, :, t]
            w = '%s step %d from %s to %s' % (what, t, p.tolist(), q.tolist())

            def at(v, k, where=w):
                got = np.asarray(v.at(t), float)
                ensure(np.allclose(got, k, atol=1e-9, rtol=0), '%s: %s, expected %s',
                       where, got.tolist(), np.asarray(k).tolist())
            at(x.coords, arr[:, :, t], w + ': at()')
            at(x.coords.centroid, (p + q) / 2, w + ': centre of the line')
            ln = float(np.hypot(*(q - p)))
            ensure(abs(float((np.asarray(x.length) * np.ones(T))[t]) - ln) < 1e-9,
                   '%s: length %s', w, x.length)
            hi, lo = (p, q) if p[1] >= q[1] else (q, p)
            flat = abs(p[1] - q[1]) < 1e-9
            if hasattr(x, 'centroid'):
                at(x.centroid, (p + q) / 2, w + ': centroid')
            if hasattr(x, 'b1'):
                at(x.b1, p, w + ': first end')
                at(x.b2, q, w + ': second end')
            for src in (x, x.coords):
                if not hasattr(src, 'highest_point'):
                    continue
                h = np.asarray(src.highest_point.at(t), float)
                o = np.asarray(src.lowest_point.at(t), float)
                if flat:
                    # either end, but not the same one
                    ensure(abs(h[1] - hi[1]) < 1e-9 and abs(o[1] - lo[1]) < 1e-9
                           and abs(np.hypot(*(h - o)) - ln) < 1e-9,
                           '%s: highest %s lowest %s', w, h, o)
                else:
                    ensure(np.allclose(h, hi, atol=1e-9) and np.allclose(o, lo,
                                                                         atol=1e-9),
                           '%s: highest %s lowest %s', w, h, o)
            n = getattr(x, 'n_vector', None)
            if n is not None and hasattr(x, 'u_vector'):
                u, n = np.asarray(x.u_vector)[:, t], np.asarray(n)[:, t]
                ensure(abs(u @ n) < 1e-9 and abs(np.hypot(*u) - np.hypot(*n)) < 1e-9,
                       '%s: direction %s, normal %s', w, u, n)
        back = TsLineCoords.from_array(arr)
        ensure(np.array_equal(back.as_array, arr)
               and np.array_equal(TsPointCoords.from_array(arr[0]).as_array, arr[0]),
               '%s: coordinates do not survive a round trip through an array', what)
    rec.nontrivial(T > 1 and case['array']['n_pvrows'] > 1)
    for els in (g.shadow_elements, g.illum_elements):
        for el in els:
            for t in range(T):
                want = [s for s in el.all_ts_surfaces]
                live = [s for s in want if float(s.length[t]) > 1e-8]
                got = el.non_point_surfaces_at(t)
                ensure([v.index for v in got] == [s.index for s in live],
                       'step %d: ground element lists %s, existing %s', t,
                       [v.index for v in got], [s.index for s in live])
                ensure(all(np.allclose(np.array(v.coords), s.coords.at(t), atol=1e-9)
                           and v.shaded == s.shaded for v, s in zip(got, live)),
                       'step %d: surfaces of a ground element', t)
                ensure(len(el.surfaces_at(t)) == len(want), 'step %d: %d surfaces of a '
                       'ground element, expected %d', t, len(el.surfaces_at(t)),
                       len(want))


def static_rows(case, rec):
    """Rows built one at a time, as shapely geometry, sit at the same place."""
    from pvfactors.geometry.pvrow import PVRow
    a, t = case['array'], case['times'][0]
    scene = ref.Scene(a, t)
    cut = {k: v for k, v in case['array'].get('cut', {}).get('0', {}).items()}
    row = PVRow.from_center_tilt_width(
        (0.0, a['pvrow_height']), np.array(t['surface_tilt']), a['pvrow_width'],
        t['surface_azimuth'], a['axis_azimuth'], index=0, cut=cut)
    r = scene.rows[0]
    got = np.array(row.original_linestring.coords)
    ensure(np.allclose(got, [r.left, r.right], atol=1e-9), 'row spans %s, expected %s',
           got.tolist(), [r.left.tolist(), r.right.tolist()])
    if 0.01 < t['surface_tilt'] < 179.99:
        ensure(np.allclose(np.array(row.highest_point.coords)[0], r.high, atol=1e-9)
               and np.allclose(np.array(row.lowest_point.coords)[0], r.low, atol=1e-9),
               'highest %s lowest %s', row.highest_point, row.lowest_point)
    for name, side, n in (('front', row.front, scene.n), ('back', row.back, -scene.n)):
        nc = cut.get(name, 1)
        ensure(len(side.list_segments) == nc, '%s: %d segments', name,
               len(side.list_segments))
        nv = side.n_vector
        ensure(np.allclose(nv / np.hypot(*nv), n, atol=1e-7), '%s normal %s', name, nv)
        for j, seg in enumerate(side.list_segments):
            p = r.left + (a['pvrow_width'] * j / nc) * scene.u
            q = r.left + (a['pvrow_width'] * (j + 1) / nc) * scene.u
            s = np.array(seg.all_surfaces[0].coords)
            ensure(np.allclose(s, [p, q], atol=1e-9), '%s segment %d at %s', name, j,
                   s.tolist())
        ensure(abs(side.length - a['pvrow_width']) < 1e-9, '%s length', name)
    rec.nontrivial(t['surface_tilt'] > 0)


def wrapped(max_steps=2):
    """Azimuths given outside [0, 360) describe the same geometry."""
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.scenes(max_steps=max_steps, irr=False))
        for t in c['times']:
            for k in ('surface_azimuth', 'solar_azimuth'):
                t[k] = round(t[k] + 360.0 * draw(st.sampled_from([-1, 0, 0, 1])), 4)
        return c
    return s()


FACETS = [
    Facet('rows', lambda: gen.scenes(max_steps=4, irr=False), rows, 1600),
    Facet('points', lambda: gen.scenes(max_steps=3, irr=False), points, 480),
    Facet('wrapped', wrapped, rows, 800),
    Facet('static_rows', lambda: wrapped(1), static_rows, 1200),
]
