"""C19 static geometry: shadows, cuts and merges on rows, sides, segments, ground."""
import math

import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, ref
from pvcheck.core import Facet, ensure

RULE = ('Histories of shadows, cuts and merges on a side at a generated position and '
        'slope, compared after every operation with intervals along the line; plus '
        'generated lines and points for the single operations. Non-trivial when a shadow '
        'covers part of a lit piece, or (lines) the two lines partly overlap.')
EPS = 1e-6


@st.composite
def base_lines(draw):
    """A line anywhere, any slope; positions along it are multiples of length / 20."""
    ang = draw(st.one_of(st.sampled_from([0.0, 180.0, 90.0, -45.0, 135.0]),
                         gen.q(-180.0, 180.0, 0.1)))
    return {'x': draw(gen.q(-20.0, 20.0, 0.1)), 'y': draw(gen.q(0.0, 5.0, 0.1)),
            'angle': ang, 'length': draw(st.one_of(st.sampled_from([1.0, 2.0]),
                                                   gen.q(0.4, 20.0, 0.1)))}


class Line(object):
    def __init__(self, d):
        self.o = np.array([d['x'], d['y']])
        a = math.radians(d['angle'])
        self.u = np.array([math.cos(a), math.sin(a)])
        self.L = d['length']

    def at(self, k):
        """Point at k twentieths of the line."""
        return tuple((self.o + self.u * self.L * k / 20.0).tolist())

    def pos(self, p):
        return float((np.array(p) - self.o) @ self.u) * 20.0 / self.L

    def off(self, p):
        v = np.array(p) - self.o
        return abs(float(v[0] * self.u[1] - v[1] * self.u[0]))


@st.composite
def histories(draw):
    d = draw(base_lines())
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['cast'] * 6 + ['cut'] * 4
                                    + ['merge', 'merge', 'swap', 'delete']))
        op = {'op': kind}
        if kind == 'swap':
            ends = sorted(draw(st.sets(st.integers(1, 19), max_size=3)))
            op['ends'] = ends
            op['dark'] = [draw(st.booleans()) for _ in range(len(ends) + 1)]
        if kind in ('swap', 'delete'):
            op['segment'] = draw(st.integers(0, 4))
            op['side'] = draw(st.sampled_from(['lit', 'shaded']))
        if kind == 'cast':
            a, b = draw(st.integers(-4, 23)), draw(st.integers(1, 20))
            fine = st.sampled_from([0.0, 0.0, 0.0, 0.0, 0.02, -0.02, 0.3])
            op['from'], op['to'] = a + draw(fine), a + b + draw(fine)
            op['flip'] = draw(st.booleans())
        elif kind == 'cut':
            op['at'] = draw(st.integers(-2, 22)) + draw(st.sampled_from(
                [0.0, 0.0, 0.0, 0.02, 0.3]))
        ops.append(op)
    level = draw(st.sampled_from(['side', 'row', 'segment', 'ground']))
    if level != 'segment':      # a side does not hear of parts deleted below it
        ops = [o for o in ops if o['op'] != 'delete']
    return {'line': d, 'n': draw(st.sampled_from([1, 2, 4, 5])), 'level': level,
            'names': draw(st.sampled_from([[], ['q'], ['a', 'b']])), 'ops': ops,
            'dark': draw(st.integers(0, 4)) == 4, 'normal': draw(st.sampled_from([0, 0, 1,
                                                                                  -1])),
            'index': draw(st.sampled_from([None, 0, 7]))}


def pieces(collection, line, what):
    out = []
    for s in collection.list_surfaces:
        c = np.array(s.coords)
        for p in c:
            ensure(line.off(p) < EPS, '%s: piece %s is off the line', what, c.tolist())
        a, b = sorted(line.pos(p) for p in (c[0], c[-1]))
        if (b - a) * line.L / 20.0 > EPS:
            out.append([a, b])
    return sorted(out)


def union(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1e-4:
            out[-1][1] = max(b, out[-1][1])
        else:
            out.append([a, b])
    return out


def same(a, b):
    return len(a) == len(b) and (not a or np.allclose(a, b, atol=2e-4 * EPS / 1e-6,
                                                      rtol=0))


def history(case, rec):
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.base import BaseSide, PVSegment, PVSurface, ShadeCollection
    from pvfactors.geometry.pvrow import PVRow
    from pvfactors.geometry.pvground import PVGround
    line, n, level = Line(case['line']), case['n'], case['level']
    coords = [line.at(0), line.at(20)]
    names = list(case['names'])
    kw = {'param_names': list(names)}
    normal = np.array([-line.u[1], line.u[0]])
    start_dark = case['dark'] and level != 'ground'
    if level != 'ground':
        if start_dark:
            kw['shaded'] = True
        if case['normal']:
            normal = case['normal'] * normal
            kw['normal_vector'] = normal.tolist()
        if case['index'] is not None:
            kw['index'] = case['index']
    if level == 'side':
        if n > 1:
            kw['n_segments'] = n
        target = BaseSide.from_linestring_coords(coords, **kw)
    elif level == 'row':
        if n > 1:
            kw['cut'] = {'front': n}
        row = PVRow.from_linestring_coords(coords, **kw)
        target = row.front
        ensure(row.index == case['index'], 'row made with index %s has %s', case['index'],
               row.index)
        ensure(len(row.back.list_segments) == 1, 'back side has %d segments',
               len(row.back.list_segments))
    elif level == 'ground':
        n = 1
        line = Line({'x': -100.0, 'y': 0.0, 'angle': 0.0, 'length': 200.0})
        target = PVGround.as_flat(**kw)
    else:
        n = 1
        target = PVSegment.from_linestring_coords(coords, **kw)
    segs = [target] if level == 'segment' else list(target.list_segments)
    ensure(len(segs) == n, '%d segments, asked for %d', len(segs), n)
    lit = [[[20.0 * i / n, 20.0 * (i + 1) / n]] for i in range(n)]
    dark = [[] for _ in range(n)]
    if start_dark:
        lit, dark = dark, lit
    if level == 'ground':
        normal = np.array([0.0, 1.0])
    if level in ('side', 'segment'):
        got = [s.index for s in segs]
        ensure(got == [case['index']] * n, 'segments made with index %s have %s',
               case['index'], got)
    touched = False
    names_known, bridged = True, False
    for step, op in enumerate(case['ops']):
        if op['op'] == 'swap':
            # both parts of a segment are replaced by others that share it anew
            i = op['segment'] % n
            p, q = 20.0 * i / n, 20.0 * (i + 1) / n
            e = [p] + [p + (q - p) * k / 20.0 for k in op['ends']] + [q]
            iv = [[a, b] for a, b in zip(e[:-1], e[1:])]
            lit[i] = [x for x, sh in zip(iv, op['dark']) if not sh]
            dark[i] = [x for x, sh in zip(iv, op['dark']) if sh]
            new = [ShadeCollection([PVSurface([line.at(a), line.at(b)], shaded=sh,
                                              normal_vector=normal,
                                              param_names=list(names))
                                    for a, b in ivs], shaded=sh, param_names=list(names))
                   for ivs, sh in ((lit[i], False), (dark[i], True))]
            for sh in ([False, True] if op['side'] == 'lit' else [True, False]):
                wrong = None
                try:
                    setattr(segs[i], 'shaded_collection' if sh else 'illum_collection',
                            new[not sh])
                except AssertionError as ex:
                    wrong = ex
                ensure(wrong is not None, 'op %d: a collection of the wrong kind is '
                       'accepted', step)
                setattr(segs[i], 'shaded_collection' if sh else 'illum_collection',
                        new[sh])
            rec.tag('parts replaced')
        elif op['op'] == 'delete':
            i = op['segment'] % n
            names_known = False        # the empty part starts without names
            if op['side'] == 'lit':
                del segs[i].illum_collection
                lit[i] = []
            else:
                del segs[i].shaded_collection
                dark[i] = []
            rec.tag('part deleted')
        elif op['op'] == 'cast':
            a, b = op['from'], op['to']
            ends = [line.at(a), line.at(b)]
            target.cast_shadow(LineString(ends[::-1] if op['flip'] else ends))
            for i in range(n):
                keep = []
                for p, q in lit[i]:
                    lo, hi = max(a, p), min(b, q)
                    if hi - lo <= 1e-6:
                        keep.append([p, q])
                        continue
                    dark[i].append([lo, hi])
                    touched = touched or (hi - lo < q - p - 1e-6)
                    keep += [iv for iv in ([p, lo], [hi, q]) if iv[1] - iv[0] > 1e-6]
                lit[i] = keep
        elif op['op'] == 'cut':
            k = op['at']
            target.cut_at_point(Point(line.at(k)))
            for i in range(n):
                hit = [iv for iv in lit[i] if iv[0] - 1e-3 < k < iv[1] + 1e-3]
                if hit:
                    for iv in hit[:1]:
                        if iv[0] + 1e-3 < k < iv[1] - 1e-3:
                            lit[i].remove(iv)
                            lit[i] += [[iv[0], float(k)], [float(k), iv[1]]]
                    continue
                inside = [iv for iv in dark[i] if iv[0] + 1e-3 < k < iv[1] - 1e-3]
                if len(inside) == 1 and not any(
                        abs(e - k) < 1e-3 for iv in dark[i] for e in iv):
                    got = pieces(segs[i].shaded_collection, line, 'shaded')
                    ensure(any(abs(e - k) < 1e-3 for iv in got for e in iv),
                           'op %d: shaded part of segment %d is not cut at %r: %s', step,
                           i, k, got)
        else:
            before = [pieces_all(s.shaded_collection, line) for s in segs]
            if level == 'segment':
                target.shaded_collection.merge_surfaces()
            else:
                target.merge_shaded_areas()
            for i in range(n):
                if len(before[i]) > 1:
                    bridged = bridged or len(union(before[i])) > 1
                    dark[i] = [[min(p[0] for p in before[i]),
                                max(p[1] for p in before[i])]]
                    ensure(segs[i].shaded_collection.n_surfaces == 1, 'op %d: shaded '
                           'part of segment %d has %d surfaces after merging', step, i,
                           segs[i].shaded_collection.n_surfaces)
        total = 0.0
        for i, s in enumerate(segs):
            what = 'op %d (%s) segment %d' % (step, op['op'], i)
            got = pieces(s.illum_collection, line, what + ' lit')
            ensure(same(got, sorted(lit[i])), '%s: lit pieces %s, expected %s', what, got,
                   sorted(lit[i]))
            got = pieces(s.shaded_collection, line, what + ' shaded')
            d = [iv for iv in dark[i] if (iv[1] - iv[0]) * line.L / 20.0 > EPS]
            ensure(same(union(got), union(d)), '%s: shaded on %s, expected %s', what,
                   union(got), union(d))
            want = sum(q - p for p, q in d) * line.L / 20.0
            total += want
            ensure(abs(s.shaded_length - want) < 1e-5, '%s: shaded length %r, expected '
                   '%r', what, s.shaded_length, want)
            lw = sum(q - p for p, q in lit[i]) * line.L / 20.0
            ensure(abs(s.illum_collection.length - lw) < 1e-5, '%s: lit length %r, '
                   'expected %r', what, s.illum_collection.length, lw)
            # a merge across a lit piece makes the two overlap: no length to speak of
            ensure(bridged or abs(s.length - want - lw) < 1e-5, '%s: length %r of the segment, its '
                   'parts have %r', what, s.length, want + lw)
            for coll, sh in ((s.illum_collection, False), (s.shaded_collection, True)):
                ensure(bool(coll.shaded) == sh, '%s: collection flag', what)
                ensure(coll.n_surfaces == len(coll.list_surfaces), '%s: count', what)
                have = sorted(g.length for g in coll.geoms) if len(
                    coll.list_surfaces) else []
                ensure(np.allclose(have, sorted(x.length for x in coll.list_surfaces)),
                       '%s: shapes of a collection with lengths %s, its surfaces have %s',
                       what, have, [x.length for x in coll.list_surfaces])
                for x in coll.list_surfaces:
                    ensure(bool(x.shaded) == sh, '%s: piece shaded flag %s', what,
                           x.shaded)
                    ensure(not names_known or list(x.param_names) == names, '%s: piece with the parameter '
                           'names %s, built with %s', what, x.param_names, names)
                    v = np.asarray(x.n_vector, float)
                    ensure(v @ normal > 0.999 * np.linalg.norm(v), '%s: normal %s of a '
                           'piece, the line has %s', what, v, normal)
            both = [id(x) for x in s.all_surfaces]
            ensure(sorted(both) == sorted(id(x) for c in (s.illum_collection,
                                                          s.shaded_collection)
                                          for x in c.list_surfaces),
                   '%s: all_surfaces does not list the present surfaces', what)
            ensure(s.n_surfaces == len(both) == len(s.surface_indices), '%s: counts',
                   what)
        if level != 'segment':
            ensure(abs(target.shaded_length - total) < 1e-5, 'op %d: shaded length %r, '
                   'expected %r', step, target.shaded_length, total)
            ensure(len(target.all_surfaces) == target.n_surfaces
                   == sum(s.n_surfaces for s in segs), 'op %d: surface counts', step)
        if level == 'row':
            ensure(abs(row.back.shaded_length - (line.L if start_dark else 0.0)) < 1e-9,
                   'op %d: shaded length %r of the other side', step,
                   row.back.shaded_length)
            v = np.asarray(row.back.n_vector, float)
            ensure(v @ normal < -0.999 * np.linalg.norm(v), 'op %d: normal %s of the '
                   'other side, this one has %s', step, v, normal)
            ensure(all(list(x.param_names) == names for x in row.back.all_surfaces),
                   'op %d: parameter names of the other side', step)
            ensure([id(x) for x in row.all_surfaces]
                   == [id(x) for x in row.front.all_surfaces + row.back.all_surfaces],
                   'op %d: all surfaces of the row', step)
        averages(target, segs, level, bridged, 'op %d (%s)' % (step, op['op']))
    rec.nontrivial(touched)
    rec.tag(level)
    rec.tag('merge', any(o['op'] == 'merge' for o in case['ops']))


def averages(target, segs, level, bridged, what):
    """Values set on the pieces now there come back as their weighted averages."""
    k, everything = 0, []
    for i, s in enumerate(segs):
        mine = []
        for coll in (s.illum_collection, s.shaded_collection):
            part = []
            for x in coll.list_surfaces:
                k += 1
                x.update_params({'v': float(k * k % 17 + 1)})
                part.append((x.length, float(k * k % 17 + 1)))
            mine += part
            compare(coll, part, '%s: part of segment %d' % (what, i))
        everything += mine
        if not bridged:
            compare(s, mine, '%s: segment %d' % (what, i))
    if not bridged and level not in ('segment', 'ground'):
        compare(target, everything, what + ': side')


def compare(obj, parts, what):
    length = sum(a for a, _ in parts)
    ensure(abs(obj.get_param_ww('v') - sum(a * b for a, b in parts)) < 1e-9 + 1e-6 * length,
           '%s: weighted sum %r, pieces %s', what, obj.get_param_ww('v'), parts)
    if length > 1e-3:
        want = sum(a * b for a, b in parts) / length
        ensure(abs(obj.get_param_weighted('v') - want) < 1e-4 * want, '%s: average %r, '
               'pieces (length, value) %s', what, obj.get_param_weighted('v'), parts)


def pieces_all(collection, line):
    out = []
    for s in collection.list_surfaces:
        c = np.array(s.coords)
        out.append(sorted(line.pos(p) for p in (c[0], c[-1])))
    return out


@st.composite
def pair_cases(draw):
    a, b = draw(st.integers(0, 15)), draw(st.integers(1, 12))
    c, d = draw(st.integers(-3, 22)), draw(st.integers(1, 20))
    fine = st.sampled_from([0.0, 0.0, 0.0, 0.02, -0.02, 0.3])
    return {'line': draw(base_lines()), 'u': [a, a + b],
            'v': [c + draw(fine), c + d + draw(fine)],
            'flip_u': draw(st.booleans()), 'flip_v': draw(st.booleans())}


def removed(case, rec):
    """Removing one line from another along the same straight line; cutting it."""
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.base import PVSurface, ShadeCollection
    line = Line(case['line'])
    (a, b), (c, d) = case['u'], case['v']
    pu = [line.at(a), line.at(b)][::-1 if case['flip_u'] else 1]
    pv = [line.at(c), line.at(d)][::-1 if case['flip_v'] else 1]
    want = [iv for iv in ([a, min(b, max(a, c))], [max(a, min(b, d)), b])
            if iv[1] - iv[0] > 1e-6]
    if d <= a or c >= b:
        want = [[a, b]]
    u = PVSurface(pu)
    ensure(u.shaded is False, 'a surface made with nothing said is shaded: %r', u.shaded)
    diff = u.difference(LineString(pv))
    geoms = [g for g in getattr(diff, 'geoms', [diff]) if not g.is_empty]
    got = sorted(sorted(line.pos(p) for p in (g.coords[0], g.coords[-1]))
                 for g in geoms)
    got = [g for g in got if (g[1] - g[0]) * line.L / 20 > EPS]
    ensure(same(got, want), '[%r, %r] minus [%r, %r] along a line gives %s, expected %s',
           a, b, c, d, got, want)
    col = ShadeCollection([PVSurface(pu, shaded=True, param_names=['q'])], shaded=True)
    col.remove_linestring(LineString(pv))
    got = pieces(col, line, 'collection')
    ensure(same(got, want), 'collection [%r, %r] minus [%r, %r] gives %s, expected %s',
           a, b, c, d, got, want)
    w = sum(q - p for p, q in want) * line.L / 20
    ensure(abs(col.length - w) < 1e-5, 'length %r after removing, expected %r',
           col.length, w)
    for s in col.list_surfaces:
        ensure(s.shaded is True and list(s.param_names) == ['q'], 'attributes lost')
    own = ShadeCollection([PVSurface(pu, shaded=True, param_names=['q'])], shaded=True)
    k = 0.5 * (c + d)
    own.cut_at_point(Point(line.at(k)))
    cut = [[a, b]] if not a < k < b else [[a, k], [k, b]]
    got = pieces(own, line, 'cut collection')
    ensure(same(got, cut), 'collection [%r, %r] cut at %r gives %s, expected %s', a, b, k,
           got, cut)
    for s in own.list_surfaces:
        ensure(s.shaded is True and list(s.param_names) == ['q'], 'attributes of a piece '
               'lost when cutting: shaded %s, names %s', s.shaded, s.param_names)
    rec.nontrivial(want != [[a, b]] and bool(want))
    rec.tag('two_pieces', len(want) == 2)
    rec.tag('nothing_left', not want)


@st.composite
def proj_cases(draw):
    return {'line': draw(base_lines()), 'k': draw(st.integers(-20, 40)),
            'jit': draw(gen.q(0.05, 0.95, 0.01)),
            'turn': draw(gen.q(2.0, 178.0, 0.1)), 'dist': draw(gen.q(-10.0, 10.0, 0.1)),
            'speed': draw(gen.q(0.3, 3.0, 0.1)), 'end': draw(st.sampled_from([0, 0, 1]))}


def projected(case, rec):
    """Projection of a point along a direction onto a line."""
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.utils import contains, projection
    line = Line(case['line'])
    k = case['k'] if case['end'] else case['k'] + case['jit']
    if case['end']:
        k = 0 if case['k'] % 2 else 20
    p = np.array(line.at(k))
    a = math.radians(case['line']['angle'] + case['turn'])
    v = np.array([math.cos(a), math.sin(a)]) * case['speed']
    src = p - v * case['dist']
    ls = LineString([line.at(0), line.at(20)])
    free = projection(Point(*src), list(v), ls, must_contain=False)
    tol = 1e-8 / abs(math.sin(math.radians(case['turn'])))
    ensure(np.hypot(free.x - p[0], free.y - p[1]) < tol, 'projection lands at %s, '
           'expected %s', (free.x, free.y), p.tolist())
    got = projection(Point(*src), list(v), ls)
    inside = 0 <= k <= 20
    if case['end']:
        # the end itself, or nothing: rounding may put the hit just past the end
        ensure(got.is_empty or (got.x, got.y) in [line.at(0), line.at(20)],
               'projection on an end gives %s', got)
    else:
        ensure(got.is_empty != inside, 'projection at %r/20 of the line: %s', k, got)
        if inside:
            ensure(np.hypot(got.x - p[0], got.y - p[1]) < tol,
                   'projection %s, expected %s', (got.x, got.y), p.tolist())
    ensure(contains(ls, Point(*p)) == inside, 'contains at %r/20 of the line', k)
    nv = np.array([-line.u[1], line.u[0]])
    q = p + nv * 1e-4
    ensure(not contains(ls, Point(*q)), 'a point 0.1 mm off the line is contained')
    par = projection(Point(*q), list(line.u), ls)
    ensure(par.is_empty, 'projection parallel to the line: %s', par)
    rec.nontrivial(inside)


@st.composite
def row_cases(draw):
    return {'x': draw(gen.q(-50.0, 50.0, 0.1)), 'y': draw(gen.q(0.5, 5.0, 0.1)),
            'tilt': draw(st.one_of(st.sampled_from([0.0, 90.0]), gen.q(0.0, 90.0, 0.1))),
            'width': draw(gen.q(0.4, 4.0, 0.1)), 'axis': draw(gen.q(0.0, 360.0, 0.1)),
            'side': draw(st.sampled_from([1, -1])), 'turns': draw(st.integers(-1, 1)),
            'front': draw(st.integers(1, 5)), 'back': draw(st.integers(1, 5)),
            'shaded': draw(st.booleans()), 'normal': draw(st.sampled_from([0, 0, 1, -1])),
            'index': draw(st.sampled_from([None, 0, 3])),
            'names': draw(st.sampled_from([None, [], ['q'], ['a', 'b']])),
            'cut': draw(st.sampled_from(['both', 'both', 'front', 'back', 'none'])),
            'pick': [draw(st.integers(0, 9)) for _ in range(3)]}


def static_row(case, rec):
    """Rows built directly from centre, tilt and width."""
    from pvfactors import PVFactorsError
    from pvfactors.geometry.base import BaseSide, PVSegment, ShadeCollection, PVSurface
    from pvfactors.geometry.pvrow import PVRow
    saz = case['axis'] + 90.0 * case['side'] + 360.0 * case['turns']
    # zero-dimensional arrays are what the timeseries code passes here
    t = math.radians(case['tilt'])
    # the normal leans towards the side the row faces (x grows with azimuth axis + 90)
    n = np.array([case['side'] * math.sin(t), math.cos(t)])
    u = np.array([n[1], -n[0]])
    cut = {k: case[k] for k in ('front', 'back') if case['cut'] in ('both', k)}
    opts = {'cut': cut} if case['cut'] != 'none' else {}
    case = dict(case, front=cut.get('front', 1), back=cut.get('back', 1))
    if case['shaded']:
        opts['shaded'] = True
    if case['normal']:
        n = case['normal'] * n
        opts['normal_vector'] = n.tolist()
    for k, key in (('index', 'index'), ('names', 'param_names')):
        if case[k] is not None:
            opts[key] = case[k]
    row = PVRow.from_center_tilt_width(
        (case['x'], case['y']), np.array([case['tilt']]), case['width'],
        np.array([saz]), case['axis'], **opts)
    c = np.array([case['x'], case['y']])
    ends = [c - u * case['width'] / 2, c + u * case['width'] / 2]
    b1, b2 = row.boundary
    ensure(np.allclose([[b1.x, b1.y], [b2.x, b2.y]], ends, atol=1e-9), 'row from %s to '
           '%s, expected %s', (b1.x, b1.y), (b2.x, b2.y), [e.tolist() for e in ends])
    hi = max(ends, key=lambda e: e[1])
    if case['tilt'] > 0.01:
        ensure(np.allclose([row.highest_point.x, row.highest_point.y], hi, atol=1e-9),
               'highest point')
    ensure(row.index == case['index'], 'index %s of a row, given %s', row.index,
           case['index'])
    for side, k, nn in ((row.front, case['front'], n), (row.back, case['back'], -n)):
        ensure(len(side.list_segments) == k, '%d segments', len(side.list_segments))
        ensure(abs(side.length - case['width']) < 1e-9, 'side length %r', side.length)
        want = case['width'] if case['shaded'] else 0.0
        ensure(abs(side.shaded_length - want) < 1e-9, 'shaded length %r',
               side.shaded_length)
        v = np.asarray(side.n_vector, float)
        ensure(np.allclose(v / np.linalg.norm(v), nn, atol=1e-9), 'normal %s, expected '
               '%s', v, nn)
        for i, seg in enumerate(side.list_segments):
            s = seg.all_surfaces
            ensure(len(s) == 1, '%d surfaces', len(s))
            ensure(list(s[0].param_names or []) == (case['names'] or []), 'parameter '
                   'names %s, given %s', s[0].param_names, case['names'])
            p = ends[0] + u * case['width'] * np.array([[i], [i + 1]]) / k
            ensure(np.allclose(np.array(s[0].coords), p, atol=1e-9), 'segment %d at %s, '
                   'expected %s', i, list(s[0].coords), p.tolist())
    # shading flags and collinearity are enforced, whatever the history
    seg = row.front.list_segments[case['pick'][0] % case['front']]
    bad = PVSurface([(0, 0), (n[0], n[1])], shaded=case['shaded'])
    for make in (lambda: BaseSide([seg, PVSegment(
            illum_collection=None if case['shaded'] else ShadeCollection([bad]),
            shaded_collection=ShadeCollection([bad]) if case['shaded'] else None)]),
            lambda: ShadeCollection([PVSurface([(0, 0), (1, 0)], shaded=True),
                                     PVSurface([(1, 0), (2, 0)], shaded=False)])):
        try:
            make()
        except PVFactorsError:
            continue
        ensure(False, 'non collinear or mixed pieces were accepted')
    rec.nontrivial(case['front'] > 1 or case['back'] > 1)


FACETS = [
    Facet('history', histories, history, 1600),
    Facet('removed', pair_cases, removed, 1600),
    Facet('projected', proj_cases, projected, 1200),
    Facet('static_row', row_cases, static_row, 800),
]
