"""C17 averages over the array are length weighted averages of the surfaces' values."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('A fitted array whose surfaces get generated values, set on single surfaces and '
        'then on whole parts of the array in a generated order; every average of the '
        'hierarchy is compared with a plain sum over surfaces. Non-trivial when a part '
        'with 2+ existing surfaces of different values is averaged.')


@st.composite
def cases(draw):
    c = draw(gen.scenes(max_steps=3, irr=False))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['scalar'] = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        ops.append({'on': draw(st.sampled_from(
            ['array', 'row', 'side', 'segment', 'illum', 'shaded', 'surface', 'ground',
             'gnd_illum', 'gnd_shaded'])),
            'at': [draw(st.integers(0, 9)) for _ in range(4)],
            'key': draw(st.sampled_from(['u', 'v'])),
            'val': draw(gen.q(-10.0, 10.0, 0.5))})
    c['ops'] = ops
    return c


def _side(row, i):
    return (row.front, row.back)[i % 2]


def apply_ops(case, pv, val):
    """Set values on parts of the array; `val` mirrors them surface by surface."""
    S = obs.surfaces(pv)
    T = pv.n_states
    for op in case['ops']:
        a, on = op['at'], op['on']
        v = op['val'] * np.ones(T)
        row = pv.ts_pvrows[a[0] % len(pv.ts_pvrows)]
        ri, side = row.index, _side(row, a[1])
        kind = ('front', 'back')[a[1] % 2]
        gi = a[2] % len(side.list_segments)
        seg = side.list_segments[gi]
        sel = {
            'array': (pv, lambda x: True),
            'row': (row, lambda x: x.row == ri),
            'side': (side, lambda x: x.row == ri and x.kind == kind),
            'segment': (seg, lambda x: (x.row, x.kind, x.seg) == (ri, kind, gi)),
            'illum': (seg.illum, lambda x: (x.row, x.kind, x.seg, x.shaded)
                      == (ri, kind, gi, False)),
            'shaded': (seg.shaded, lambda x: (x.row, x.kind, x.seg, x.shaded)
                       == (ri, kind, gi, True)),
            'ground': (pv.ts_ground, lambda x: x.kind == 'ground'),
        }
        k = op['key']
        if on == 'surface':
            x = S[(a[0] * 7 + a[1] * 3 + a[2]) % len(S)]
            x.s.update_params({k: v})
            val[x.s.index][k] = v
        elif on in ('gnd_illum', 'gnd_shaded'):
            f = (pv.ts_ground.update_illum_params if on == 'gnd_illum'
                 else pv.ts_ground.update_shaded_params)
            f({k: v})
            for x in S:
                if x.kind == 'ground' and x.shaded == (on == 'gnd_shaded'):
                    val[x.s.index][k] = v
        else:
            sel[on][0].update_params({k: v})
            for x in S:
                if sel[on][1](x):
                    val[x.s.index][k] = v
        gnd = pv.ts_ground          # its parts are kept in step with it
        for els, name, params in ((gnd.illum_elements, 'illum', gnd.illum_params),
                                  (gnd.shadow_elements, 'shaded', gnd.shaded_params)):
            if on in ('ground', 'array', 'gnd_' + name):
                close(params[k], v, '%s ground value' % name, atol=0, rtol=0)
                for i, el in enumerate(els):
                    close(el.params[k], v, 'value of %s ground element %d' % (name, i),
                          atol=0, rtol=0)
    for x in S:
        for k in ('u', 'v'):
            close(x.s.get_param(k), val[x.s.index][k], 'value %r of %s after updates'
                  % (k, x.label), atol=0, rtol=0)


def assign(case, pv):
    rng = np.random.default_rng(case['seed'])
    T = pv.n_states
    val = {}
    for x in obs.surfaces(pv):
        u = rng.integers(-50, 50, T) / 4.0
        v = rng.integers(1, 1000, T) / 8.0
        val[x.s.index] = {'u': u, 'v': v}
        x.s.update_params({'u': u, 'v': v})
    return val


def averages(case, rec):
    pv = gen.fit_pvarray(case)
    val = assign(case, pv)
    apply_ops(case, pv, val)
    S = obs.surfaces(pv)

    def check(part, members, what, weighted=True):
        L = np.array([np.asarray(x.length) for x in members])
        tot = L.sum(axis=0)
        close(np.asarray(part.length) * np.ones_like(tot), tot, 'length of %s' % what,
              atol=1e-9)
        for k in ('u', 'v'):
            V = np.array([val[x.s.index][k] for x in members])
            s = (V * L).sum(axis=0)
            close(np.asarray(part.get_param_ww(k)) * np.ones_like(tot), s,
                  'length weighted sum of %r over %s' % (k, what), atol=1e-8)
            ok = tot > 1e-6
            if ok.any():
                with np.errstate(all='ignore'):
                    got = np.asarray(part.get_param_weighted(k), float) \
                        * np.ones_like(tot)
                close(got[ok], (s / np.where(ok, tot, 1.0))[ok],
                      'average of %r over %s' % (k, what), atol=1e-7)
            live = (L > 1e-3).sum(axis=0) >= 2
            rec.nontrivial(bool(np.any(live & (V.max(axis=0) > V.min(axis=0)))))
        return tot

    g = pv.ts_ground
    gs = [x for x in S if x.kind == 'ground']
    check(g, gs, 'the ground')
    tot = np.array([x.length for x in gs if x.shaded]).sum(axis=0)
    close(g.shaded_length, tot, 'shaded length of the ground', atol=1e-9)
    for coll, sh in ((g.illum, False), (g.shaded, True)):
        check(coll, [x for x in gs if x.shaded == sh], 'the %s ground'
              % ('shaded' if sh else 'lit'))
    for name, els in (('shadow', g.shadow_elements), ('lit', g.illum_elements)):
        for i, el in enumerate(els):
            check(el, [x for x in gs if x.el == i and x.shaded == (name == 'shadow')],
                  '%s ground element %d' % (name, i))
    for row in pv.ts_pvrows:
        rs = [x for x in S if x.row == row.index]
        close(row.length, np.array([x.length for x in rs]).sum(axis=0),
              'length of row %d' % row.index, atol=1e-9)
        for kind in ('front', 'back'):
            side = getattr(row, kind)
            ss = [x for x in rs if x.kind == kind]
            what = 'row %d %s' % (row.index, kind)
            check(side, ss, what)
            close(side.shaded_length,
                  np.array([x.length for x in ss if x.shaded]).sum(axis=0),
                  'shaded length of %s' % what, atol=1e-9)
            for i, seg in enumerate(side.list_segments):
                m = [x for x in ss if x.seg == i]
                w = '%s segment %d' % (what, i)
                check(seg, m, w)
                check(seg.illum, [x for x in m if not x.shaded], w + ' lit part')
                sh = check(seg.shaded, [x for x in m if x.shaded], w + ' shaded part')
                close(seg.shaded_length, sh, 'shaded length of ' + w, atol=1e-9)


def snapshot(case, rec):
    """The same averages on the static (single step) geometry."""
    pv = gen.fit_pvarray(case)
    val = assign(case, pv)
    apply_ops(case, pv, val)
    S = obs.surfaces(pv)
    for t in range(pv.n_states):
        def check(part, members, what):
            m = [x for x in members if x.length[t] > 1e-8]
            L = np.array([float(x.length[t]) for x in m])
            ensure(abs(part.length - L.sum()) < 1e-8, 'step %d: length of %s is %r, its '
                   'surfaces add up to %r', t, what, part.length, L.sum())
            for k in ('u', 'v'):
                V = np.array([val[x.s.index][k][t] for x in m])
                s = float((V * L).sum())
                got = float(part.get_param_ww(k))
                ensure(abs(got - s) < 1e-7 * (1 + abs(s)), 'step %d: length weighted '
                       'sum of %r over %s is %r, expected %r', t, k, what, got, s)
                if L.sum() > 1e-5:
                    got = float(part.get_param_weighted(k))
                    ensure(abs(got - s / L.sum()) < 1e-6, 'step %d: average of %r over '
                           '%s is %r, expected %r', t, k, what, got, s / L.sum())
                rec.nontrivial(len(m) > 1 and V.max() > V.min())
        gs = [x for x in S if x.kind == 'ground']
        g = pv.ts_ground.at(t, merge_if_flag_overlap=False)
        check(g, gs, 'the ground')
        for row in pv.ts_pvrows:
            r = row.at(t)
            for kind in ('front', 'back'):
                ss = [x for x in S if x.row == row.index and x.kind == kind]
                side = getattr(r, kind)
                what = 'row %d %s' % (row.index, kind)
                check(side, ss, what)
                sh = sum(float(x.length[t]) for x in ss if x.shaded)
                ensure(abs(side.shaded_length - sh) < 1e-7, 'step %d: shaded length of '
                       '%s is %r, expected %r', t, what, side.shaded_length, sh)
                for i, seg in enumerate(side.list_segments):
                    m = [x for x in ss if x.seg == i]
                    check(seg, m, '%s segment %d' % (what, i))
                    check(seg.illum_collection, [x for x in m if not x.shaded],
                          '%s segment %d lit part' % (what, i))
                    check(seg.shaded_collection, [x for x in m if x.shaded],
                          '%s segment %d shaded part' % (what, i))


@st.composite
def static_cases(draw):
    lv = draw(st.sampled_from(['side', 'row', 'segment', 'ground', 'collection']))
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(['cast', 'cast', 'cut', 'merge']))
        a = draw(st.integers(0, 18))
        ops.append({'op': k, 'from': a, 'to': draw(st.integers(a + 1, 20))})
    sets = []
    for _ in range(draw(st.integers(0, 4))):
        sets.append({'on': draw(st.sampled_from(['all', 'side', 'segment', 'illum',
                                                 'shaded', 'surface'])),
                     'at': draw(st.integers(0, 30)),
                     'key': draw(st.sampled_from(['u', 'v'])),
                     'val': draw(gen.q(-10.0, 10.0, 0.25))})
    return {'level': lv, 'n': [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
            'x': draw(gen.q(-5, 5, 0.1)), 'y': draw(gen.q(0.5, 4, 0.1)),
            'angle': draw(st.one_of(st.sampled_from([0.0, 30.0, -120.0, 90.0]),
                                    gen.q(-180, 180, 0.1))),
            'len': draw(gen.q(0.5, 10, 0.1)), 'shaded': draw(st.booleans()),
            'names': draw(st.sampled_from([None, ['u'], ['u', 'v'], ['u', 'v', 'w']])),
            'ops': ops, 'sets': sets,
            'start': [draw(gen.q(-20, 20, 0.5)) for _ in range(12)]}


def _static(case):
    from pvfactors.geometry.base import BaseSide, PVSegment, ShadeCollection
    from pvfactors.geometry.pvrow import PVRow
    from pvfactors.geometry.pvground import PVGround
    a = np.deg2rad(case['angle'])
    o = np.array([case['x'], case['y']])
    u = np.array([np.cos(a), np.sin(a)]) * case['len']
    kw = dict(shaded=case['shaded'])
    if case['names'] is not None:
        kw['param_names'] = list(case['names'])
    lv, n = case['level'], case['n']
    if lv == 'ground':
        o, u = np.array([-50.0, 0.0]), np.array([80.0, 0.0])
        top = PVGround.as_flat(x_min_max=(-50.0, 30.0), **kw)
        sides = [top]
    else:
        ends = [tuple(o), tuple(o + u)]
        if lv == 'collection':
            top = ShadeCollection.from_linestring_coords(ends, **kw)
            return top, [], [], [top], o, u
        if lv == 'segment':
            top = PVSegment.from_linestring_coords(ends, **kw)
            sides = []
        elif lv == 'side':
            top = BaseSide.from_linestring_coords(ends, n_segments=n[0], **kw)
            sides = [top]
        else:
            top = PVRow.from_linestring_coords(ends, cut={'front': n[0], 'back': n[1]},
                                               index=0, **kw)
            sides = [top.front, top.back]
    segs = [s for sd in sides for s in sd.list_segments] or [top]
    cols = [c for s in segs for c in (s.illum_collection, s.shaded_collection)]
    return top, sides, segs, cols, o, u


def _contiguous(col):
    c = [np.array(s.coords) for s in col.list_surfaces]
    if len(c) < 2:
        return True
    d = c[0][1] - c[0][0]
    iv = sorted(sorted(float(v) for v in x @ d / (d @ d) ** 0.5) for x in c)
    return all(abs(b[0] - a[1]) < 1e-6 for a, b in zip(iv[:-1], iv[1:]))


def static_values(case, rec):
    """Values of static geometry: made with the asked names, set and averaged by part."""
    from shapely.geometry import LineString, Point
    top, sides, segs, cols, o, u = _static(case)
    names = case['names'] or []
    at = lambda k: tuple(o + u * (k / 20.0))
    if case['level'] == 'ground':
        ensure([tuple(p.coords[0]) for p in top.boundary] == [(-50.0, 0.0), (30.0, 0.0)],
               'flat ground asked for from -50 to 30 m is %s', top.original_linestring)
        ensure(np.allclose(top.n_vector / np.hypot(*top.n_vector), [0, 1]),
               'flat ground with normal %s', top.n_vector)
    for op in case['ops']:
        for part in (sides or [top]):
            if op['op'] == 'cut':
                part.cut_at_point(Point(at(op['to'])))
            elif op['op'] == 'cast' and part not in cols:
                part.cast_shadow(LineString([at(op['from']), at(op['to'])]))
            elif op['op'] == 'cast':
                part.remove_linestring(LineString([at(op['from']), at(op['to'])]))
            elif hasattr(part, 'merge_shaded_areas') and all(
                    _contiguous(g.shaded_collection) for g in part.list_segments):
                # (merging areas apart from each other covers the gap as well)
                part.merge_shaded_areas()
    if not case['level'] == 'collection':
        cols = [c for s in segs for c in (s.illum_collection, s.shaded_collection)]
    every = [s for c in cols for s in c.list_surfaces]
    for i, s in enumerate(every):
        ensure(sorted(s.params) == sorted(names) and all(v is None for v in
                                                         s.params.values()),
               'a surface asked for with the values %s has %s', names, s.params)
        ensure(list(s.param_names) == names, 'names %s, asked %s', s.param_names, names)
        # surfaces must not share their values
    val = {}
    for i, s in enumerate(every):
        w = case['start']
        val[id(s)] = {'u': w[i % 12] + i, 'v': w[(i + 5) % 12] - i}
        s.update_params(dict(val[id(s)]))
    for op in case['sets']:
        k, v, i = op['key'], op['val'], op['at']
        pool = {'all': [top], 'side': sides, 'segment': segs,
                'illum': [c for c in cols if not c.shaded],
                'shaded': [c for c in cols if c.shaded], 'surface': every}[op['on']]
        if not pool:
            continue
        part = pool[i % len(pool)]
        part.update_params({k: v})
        for s in _below(part):
            val[id(s)][k] = v
    for s in every:
        ensure(s.params.get('u') == val[id(s)]['u'] and s.get_param('v')
               == val[id(s)]['v'], 'values %s, expected %s', s.params, val[id(s)])
    parts = [x for x in sides + segs + cols if hasattr(x, 'get_param_ww')]
    for part in parts:
        m = _below(part)
        L = np.array([s.length for s in m])
        ensure(abs(part.length - L.sum()) < 1e-6, 'length of a %s is %r, of its surfaces '
               '%r', type(part).__name__, part.length, L.sum())
        for k in ('u', 'v'):
            V = np.array([val[id(s)][k] for s in m])
            got = float(part.get_param_ww(k))
            ensure(abs(got - (V * L).sum()) < 1e-7, 'length weighted sum of %r over a %s '
                   'is %r, expected %r', k, type(part).__name__, got, (V * L).sum())
            if L.sum() > 1e-5:
                got = float(part.get_param_weighted(k))
                ensure(abs(got - (V * L).sum() / L.sum()) < 1e-5, 'average of %r over a '
                       '%s is %r, expected %r', k, type(part).__name__, got,
                       (V * L).sum() / L.sum())
    rec.tag(case['level'])
    rec.nontrivial(len(every) > 1)


def _below(part):
    """Surfaces of a part of the static geometry, walked from its own lists."""
    if hasattr(part, 'list_surfaces'):
        return list(part.list_surfaces)
    if hasattr(part, 'illum_collection'):
        return _below(part.illum_collection) + _below(part.shaded_collection)
    if hasattr(part, 'list_segments'):
        return [s for g in part.list_segments for s in _below(g)]
    if hasattr(part, 'front'):
        return _below(part.front) + _below(part.back)
    return [part]


@st.composite
def report_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 5]))
    runs = [draw(gen.runs(max_steps=2, array=gen.arrays(
        min_rows=2, max_rows=3, max_cut=2))) for _ in range(n)]
    if draw(st.integers(0, 3)) == 3:        # a measurement is missing
        c = draw(st.sampled_from(runs))
        c['times'][0][draw(st.sampled_from(['dni', 'dhi', 'albedo']))] = None
    return {'runs': runs}


def report(case, rec):
    """The shipped report: second row, per step, folds appended in order."""
    from pvfactors.report import ExampleReportBuilder, example_fn_build_report
    built, want, have = [], {}, []
    for c in case['runs']:
        eng = gen.fit_engine(c)
        got = eng.run_full_mode(fn_build_report=example_fn_build_report)
        built.append(ExampleReportBuilder.build(eng.pvarray))
        T = len(c['times'])
        # no value is promised for a step with a missing input, but it has a place
        known = [all(v is not None for v in t.values()) for t in c['times']]
        have.extend(known)
        for kind in ('front', 'back'):
            m = [x for x in obs.surfaces(eng.pvarray) if x.row == 1 and x.kind == kind]
            L = np.array([x.length for x in m])
            for name, key in (('qinc', 'qinc'), ('iso', 'isotropic')):
                V = np.array([np.asarray(x.s.params[key], float) for x in m])
                w = (V * L).sum(axis=0) / c['array']['pvrow_width']
                k = '%s_%s' % (name, kind)
                for r in (got, built[-1]):
                    ensure(isinstance(r[k], list) and len(r[k]) == T,
                           'report entry %s is %r', k, r[k])
                    close(np.array(r[k])[known], w[known], 'report entry %s' % k,
                          atol=1e-6, rtol=1e-9)
                want.setdefault(k, []).extend(w.tolist())
        ensure(sorted(got) == sorted(['qinc_front', 'qinc_back', 'iso_front',
                                      'iso_back']), 'report entries %s', sorted(got))
    merged = ExampleReportBuilder.merge(built)
    for k, w in want.items():
        ensure(len(merged[k]) == len(w), 'merged report entry %s has %d values for %d '
               'steps', k, len(merged[k]), len(w))
        close(np.array(merged[k])[have], np.array(w)[have], 'merged report entry %s' % k,
              atol=1e-6, rtol=1e-9)
    rec.tag('missing_value', not all(have))
    rec.nontrivial(len(case['runs']) > 1)


FACETS = [
    Facet('averages', cases, averages, 1200),
    Facet('snapshot', cases, snapshot, 480),
    Facet('static_values', static_cases, static_values, 1600),
    Facet('report', report_cases, report, 240),
]
