"""C18 the static geometry at one step is a faithful snapshot of the timeseries."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs, ref
from pvcheck.core import Facet, ensure

RULE = ('Fitted arrays of 1-4 steps with generated values on the surfaces; each step is '
        'extracted with generated options and compared with the timeseries arrays. '
        'Non-trivial when there are 2+ steps that differ and the step has a shaded piece '
        'or a zero-length surface.')


@st.composite
def cases(draw, max_steps=4):
    if draw(st.booleans()):      # rows and shadows that meet
        c = draw(gen.scenes(low=3, max_steps=max_steps, irr=False, kinds=('cross', 'low'),
                            array=gen.arrays(min_rows=2)))
    else:
        c = draw(gen.scenes(low=4, max_steps=max_steps, irr=False,
                            kinds=('cross', 'any', 'behind', 'along', 'low')))
    if draw(st.integers(0, 3)) == 3:        # very thin pieces
        c['times'][-1] = draw(gen.near_threshold(c['array'], c['times'][-1], 89.99))
    c['names'] = draw(st.sampled_from([[], ['vec'], ['later', 'vec']]))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['merge'] = draw(st.booleans())
    c['cuts'] = draw(st.booleans())
    c['extent'] = draw(st.one_of(st.none(), st.tuples(gen.q(-90.0, -1.0, 0.5),
                                                      gen.q(1.0, 90.0, 0.5)).map(list)))
    return c


def build(case):
    pv = gen.fit_pvarray(case, case['names'])
    rng = np.random.default_rng(case['seed'])
    T = pv.n_states
    for x in obs.surfaces(pv):
        x.s.update_params({'vec': rng.normal(size=T), 'num': float(rng.normal()),
                           'lst': rng.normal(size=T).tolist(), 'tab': {'a': rng.normal(size=T)}, 'none': None,
                           'txt': 'front'})
    return pv


DEFAULTS = {'merge_if_flag_overlap': True, 'with_cut_points': True,
            'with_surface_index': False, 'with_index': False}


def options(case, **kw):
    """Options for a call; in every second case those that have their documented default
    value are left out."""
    if case.get('seed', case.get('text', 0)) % 2:
        return kw
    return {k: v for k, v in kw.items() if DEFAULTS.get(k) is not v}


def same_surface(got, ts, t, what):
    """`got` (static) is timeseries surface `ts` at step t."""
    e = np.asarray(ts.coords.at(t), float)
    g = np.array(got.coords)
    ensure(g.shape == (2, 2) and np.allclose(g, e, atol=1e-9, rtol=0),
           'step %d: %s at %s, timeseries %s', t, what, g.tolist(), e.tolist())
    ensure(bool(got.shaded) == bool(ts.shaded), 'step %d: %s shaded flag %s', t, what,
           got.shaded)
    ensure(got.index == ts.index, 'step %d: %s index %s, timeseries %s', t, what,
           got.index, ts.index)
    same_params(got, ts, t, what)
    n = np.asarray(got.n_vector, float)
    if ts.n_vector is not None:
        ensure(np.allclose(n, np.asarray(ts.n_vector)[:, t], atol=1e-12),
               'step %d: %s normal %s', t, what, n)
    else:
        ensure(abs(n[0]) < 1e-9 and n[1] > 0, 'step %d: %s normal %s does not point up',
               t, what, n)


def same_params(got, ts, t, what):
    ensure(list(got.param_names) == list(ts.param_names), 'step %d: %s has the names %s, '
           'timeseries %s', t, what, got.param_names, ts.param_names)
    ensure(set(got.params) == set(ts.params), 'step %d: %s has values %s, timeseries %s',
           t, what, sorted(got.params), sorted(ts.params))
    for k, v in ts.params.items():
        w = got.get_param(k)
        if v is None or isinstance(v, (str, float, int, dict)):
            ok = w is v or w == v
        else:
            ok = w == v[t]
        ensure(ok, 'step %d: value %r of %s is %r', t, k, what, w)


def rows(case, rec):
    pv = build(case)
    S = obs.surfaces(pv)
    rec.tag('several_steps', pv.n_states > 1)
    for t in range(pv.n_states):
        scene = ref.Scene(case['array'], case['times'][t])
        for row in pv.ts_pvrows:
            r = row.at(t)
            ensure(r.index == row.index, 'step %d: row index %s', t, r.index)
            e = np.asarray(row.full_pvrow_coords.at(t))
            ensure(np.allclose(np.array(r.original_linestring.coords), e, atol=1e-12),
                   'step %d: row %d outline %s', t, row.index,
                   list(r.original_linestring.coords))
            hi, lo = r.highest_point.y, r.lowest_point.y
            ensure(abs(hi - e[:, 1].max()) < 1e-9 and abs(lo - e[:, 1].min()) < 1e-9,
                   'step %d: row %d highest/lowest %r %r of %s', t, row.index, hi, lo,
                   e.tolist())
            seen = []
            for kind in ('front', 'back'):
                tside, side = getattr(row, kind), getattr(r, kind)
                ensure(len(side.list_segments) == len(tside.list_segments), 'step %d: '
                       '%d segments', t, len(side.list_segments))
                sl = float(side.shaded_length)
                tl = float(np.asarray(tside.shaded_length)[t])
                ensure(abs(sl - tl) < 1e-7, 'step %d: row %d %s shaded length %r, '
                       'timeseries %r', t, row.index, kind, sl, tl)
                for i, (seg, tseg) in enumerate(zip(side.list_segments,
                                                    tside.list_segments)):
                    what = 'row %d %s segment %d' % (row.index, kind, i)
                    ensure(seg.index == tseg.index, 'step %d: %s index %s', t, what,
                           seg.index)
                    for part, tpart, sh in (
                            (seg.illum_collection, tseg.illum, False),
                            (seg.shaded_collection, tseg.shaded, True)):
                        live = [s for s in tpart.list_ts_surfaces
                                if float(s.length[t]) >= 1e-8]
                        ensure(bool(part.shaded) == sh, 'step %d: %s flag', t, what)
                        ensure(len(part.list_surfaces) == len(live) == part.n_surfaces,
                               'step %d: %s has %d surfaces, timeseries %d', t, what,
                               len(part.list_surfaces), len(live))
                        for g, s in zip(part.list_surfaces, live):
                            same_surface(g, s, t, what)
                            seen.append(s.index)
                        rec.nontrivial(pv.n_states > 1 and sh and len(live) > 0)
                    ensure(sorted(seg.surface_indices)
                           == sorted(s.index for s in seg.all_surfaces),
                           'step %d: %s surface indices', t, what)
                    via = tseg.surfaces_at_idx(t)
                    ensure([s.index for s in via] == [s.index for s in seg.all_surfaces],
                           'step %d: %s surfaces_at_idx', t, what)
                ensure(side.n_surfaces == len(side.all_surfaces)
                       == len(tside.surfaces_at_idx(t)), 'step %d: side count', t)
            want = sorted(x.s.index for x in S if x.row == row.index
                          and x.length[t] >= 1e-8)
            for name, ids in (('walk', seen), ('surface_indices', r.surface_indices),
                              ('all_surfaces', [s.index for s in r.all_surfaces]),
                              ('surfaces_at_idx', [s.index for s in
                                                   row.surfaces_at_idx(t)])):
                ensure(sorted(ids) == want, 'step %d row %d: %s gives surfaces %s, '
                       'existing ones are %s', t, row.index, name, sorted(ids), want)


def _span(s):
    c = np.array(s.coords)
    return float(c[0, 0]), float(c[-1, 0])


def ground(case, rec):
    pv = build(case)
    g = pv.ts_ground
    pv_params = {'gg': np.arange(pv.n_states) * 1.5}
    g.update_illum_params({'ii': pv_params['gg']})
    g.update_shaded_params({'ss': pv_params['gg'] + 100.0})
    S = [x for x in obs.surfaces(pv) if x.kind == 'ground']
    merge, cuts, ext = case['merge'], case['cuts'], case['extent']
    for t in range(pv.n_states):
        flat = not 0.01 <= case['times'][t]['surface_tilt'] <= 179.99
        live = {sh: [x for x in S if x.shaded == sh and float(x.length[t]) > 1e-8]
                for sh in (False, True)}
        for sh, f in ((True, g.non_point_shaded_surfaces_at),
                      (False, g.non_point_illum_surfaces_at)):
            got = f(t)
            ensure(len(got) == len(live[sh]), 'step %d: %d ground surfaces with a '
                   'length, %d listed', t, len(live[sh]), len(got))
            for a, x in zip(got, live[sh]):
                same_surface(a, x.s, t, x.label)
        both = g.non_point_surfaces_at(t)
        ensure(len(both) == g.n_non_point_surfaces_at(t)
               == len(live[True]) + len(live[False]), 'step %d: ground surface count', t)
        by = {x.s.index: x.s for x in S}
        for a in both:
            same_surface(a, by[a.index], t, 'ground surface %s' % a.index)
        kw = {} if ext is None else {'x_min_max': tuple(ext)}
        p = g.at(t, **options(case, merge_if_flag_overlap=merge, with_cut_points=cuts),
                 **kw)
        for s in p.all_surfaces:
            ensure(list(s.param_names) == list(pv.param_names), 'step %d: %s of the ground '
                   'has the names %s', t, 'a shadow' if s.shaded else 'a lit piece',
                   s.param_names)
        b1, b2 = p.boundary
        want = (-100.0, 100.0) if ext is None else tuple(ext)
        ensure((b1.x, b2.x) == want, 'step %d: ground from %r to %r, asked for %s', t,
               b1.x, b2.x, want)
        ensure(len(p.list_segments) == 1, 'step %d: ground segments', t)
        seg = p.list_segments[0]
        shadows = seg.shaded_collection.list_surfaces
        lit = seg.illum_collection.list_surfaces
        ensure(all(s.shaded for s in shadows) and not any(s.shaded for s in lit),
               'step %d: shaded flags of the ground', t)
        # the same ground is covered whatever the options (an end may lose 1e-8 m)
        for name, pieces, sh in (('shaded', shadows, True), ('lit', lit, False)):
            a = ref.intervals_union([list(_span(s)) for s in pieces])
            e = ref.intervals_union([[x.ends(t)[0][0], x.ends(t)[1][0]]
                                     for x in live[sh]])
            whole = sum(b - c for c, b in e)
            both = sum(b - c for c, b in ref.intervals_union(a + e))
            ensure(2 * both - whole - sum(b - c for c, b in a) < 2e-6, 'step %d: %s '
                   'ground %s, timeseries %s (merge=%s cuts=%s)', t, name, a, e, merge,
                   cuts)
            tot = sum(_span(s)[1] - _span(s)[0] for s in pieces)
            ensure(abs(tot - whole) < 1e-6, 'step %d: %s ground '
                   'pieces overlap', t, name)
        over = bool(g.flag_overlap[t]) and merge
        cps = [] if flat else [float(np.asarray(c.x)[t]) for c in g.cut_point_coords]
        if cuts:
            if not over:
                for a, x in zip(shadows, live[True]):
                    same_surface(a, x.s, t, x.label)
                ensure(len(shadows) == len(live[True]), 'step %d: %d shadows', t,
                       len(shadows))
            else:
                _only_cut_at(shadows, cps, t, 'shaded ground')
                for a in shadows:
                    lo, hi = _span(a)
                    src = [x for x in live[True] if lo - 1e-9 <= x.ends(t)[0][0]
                           and x.ends(t)[1][0] <= hi + 1e-9]
                    ok = [x for x in src if x.s.index == a.index]
                    ensure(len(ok) == 1, 'step %d: merged shadow [%r, %r] has index %s',
                           t, lo, hi, a.index)
                    same_params(a, ok[0].s, t, 'merged shadow')
                    ensure(list(a.param_names) == list(pv.param_names), 'step %d: merged '
                           'shadow with the names %s', t, a.param_names)
                for el in g.shadow_elements[1:]:
                    rec.tag('merged_long', sum(float(s.length[t]) > 1e-8
                                               for s in el.surface_list) > 2)
            ensure(len(lit) == len(live[False]), 'step %d: %d lit pieces', t, len(lit))
            for a, x in zip(lit, live[False]):
                same_surface(a, x.s, t, x.label)
        else:
            els = [el for el in g.shadow_elements if float(el.length[t]) > 1e-8]
            n = 1 if over and len(els) > 1 else len(els)
            ensure(len(shadows) == n, 'step %d: %d shadows without cut points, expected '
                   '%d', t, len(shadows), n)
            ensure(len(lit) == sum(float(el.length[t]) > 1e-8
                                   for el in g.illum_elements),
                   'step %d: %d lit pieces without cut points', t, len(lit))
            for s in shadows:
                ensure(s.get_param('ss') == t * 1.5 + 100.0, 'step %d: shaded ground '
                       'value %r', t, s.get_param('ss'))
            for s in lit:
                ensure(s.get_param('ii') == t * 1.5, 'step %d: lit ground value %r', t,
                       s.get_param('ii'))
        # a snapshot can be worked on: what a new shadow makes is named like the rest
        from shapely.geometry import LineString
        y = float(np.asarray(b1.y))
        old = float(seg.shaded_length)
        free = sorted((_span(s) for s in lit), key=lambda i: i[0] - i[1])
        if free and free[0][1] - free[0][0] > 1e-3:
            lo, hi = free[0]
            a, b = lo + 0.25 * (hi - lo), lo + 0.5 * (hi - lo)
            p.cast_shadow(LineString([(a, y), (b, y)]))
            ensure(abs(float(seg.shaded_length) - old - (b - a)) < 1e-6, 'step %d: '
                   'shaded length %r of the ground before and %r after a shadow of %r',
                   t, old, seg.shaded_length, b - a)
            for s in p.all_surfaces:
                ensure(list(s.param_names) == list(pv.param_names), 'step %d: a piece '
                       'of the ground with a new shadow has the names %s', t,
                       s.param_names)
        rec.nontrivial(pv.n_states > 1 and len(live[True]) > 0)
        rec.tag('thin_lit', not cuts and any(1e-8 < float(el.length[t]) < 1e-3
                                             for el in g.illum_elements))
        rec.tag('thin_shadow', not cuts and any(1e-8 < float(el.length[t]) < 1e-3
                                                for el in g.shadow_elements))
        rec.tag('merged', over and len(live[True]) > 1)
        rec.tag('cuts' if cuts else 'nocuts')


def _only_cut_at(pieces, cps, t, what):
    """Touching pieces meet at cut points, and no piece contains a cut point."""
    sp = sorted(_span(s) for s in pieces)
    for (a, b), (c, d) in zip(sp[:-1], sp[1:]):
        if abs(c - b) < 1e-6:
            ensure(any(abs(b - p) < 1e-6 * (1 + abs(p)) for p in cps),
                   'step %d: %s is still split at %r, cut points %s', t, what, b, cps)
    for a, b in sp:
        for p in cps:
            tol = 1e-6 * (1 + abs(p))
            ensure(not (a + tol < p < b - tol), 'step %d: %s [%r, %r] spans the cut '
                   'point %r', t, what, a, b, p)


@st.composite
def plot_cases(draw):
    c = draw(cases(max_steps=3))
    c['text'] = draw(st.booleans())
    return c


def plot(case, rec):
    """The drawing at one step shows the surfaces of that step, coloured by kind."""
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    pv = gen.fit_pvarray(case)
    merge, cuts = case['merge'], case['cuts']
    for t in range(pv.n_states):
        ax = Figure().add_subplot()
        kw = {} if case['extent'] is None else {'x_min_max': tuple(case['extent'])}
        pv.plot_at_idx(t, ax, **options(case, merge_if_flag_overlap=merge,
                                        with_cut_points=cuts,
                                        with_surface_index=case['text']), **kw)
        ensure(case['text'] or not ax.texts, 'step %d: %d texts that nobody asked for', t,
               len(ax.texts))
        drawn = {}
        for ln in ax.lines:
            if ln.get_linestyle() not in ('None', 'none', ''):
                xy = np.array([ln.get_xdata(), ln.get_ydata()], float).T
                drawn.setdefault(to_hex(ln.get_color()).lower(), []).append(xy)
        want = {}
        for x in obs.surfaces(pv):
            if x.kind != 'ground' and float(x.length[t]) >= 1e-8:
                c = '#ff0000' if x.shaded else '#6699cc'
                want.setdefault(c, []).append(x.ends(t))
        p = pv.ts_ground.at(t, merge_if_flag_overlap=merge, with_cut_points=cuts)
        for s in p.all_surfaces:
            c = '#a7a49d' if s.shaded else '#ffbb33'
            want.setdefault(c, []).append(np.array(s.coords))
        ensure(set(drawn) == set(want), 'step %d: colours %s drawn, expected %s', t,
               sorted(drawn), sorted(want))
        for c in want:
            a = sorted(np.round(v, 7).tolist() for v in drawn[c])
            e = sorted(np.round(v, 7).tolist() for v in want[c])
            ensure(len(a) == len(e) and np.allclose(a, e, atol=2e-7), 'step %d: lines of '
                   'colour %s: %s, expected %s', t, c, a, e)
        if case['text'] and cuts and not merge:
            lab = sorted(x.get_text() for x in ax.texts)
            idx = []
            for x in obs.surfaces(pv):
                e = x.ends(t)
                live = float(x.length[t])
                if live >= 1e-8 and abs(e[:, 0].mean()) < 49.0:
                    idx.append(str(x.s.index))
            by = {str(x.s.index): x for x in obs.surfaces(pv)}
            for tx in ax.texts:
                x = by[tx.get_text()]
                e = x.ends(t)
                n = (np.array([0.0, 1.0]) if x.kind == 'ground'
                     else np.asarray(x.s.n_vector, float)[:, t])
                v = np.array(tx.get_position()) - e.mean(axis=0)
                ensure(np.hypot(*v) < 0.5 and v @ n > 0, 'step %d: index %s is written '
                       'at %s, its surface (facing %s) is at %s', t, tx.get_text(),
                       tx.get_position(), n.tolist(), e.tolist())
            ensure(set(idx) <= set(lab), 'step %d: indices %s written, expected at least '
                   '%s', t, lab, idx)
        rec.nontrivial('#ff0000' in want or '#a7a49d' in want)


def plot_parts(case, rec):
    """Single parts of the array draw their own surfaces, in the colours asked for."""
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    pv = gen.fit_pvarray(case)
    S = obs.surfaces(pv)
    dark, lit = ('#112233', '#445566') if case['text'] else ('#00ff00', '#0000ff')
    kw = dict(color_shaded=dark, color_illum=lit)
    n = 0

    def check(draw, members, t, what, texts=None):
        ax = Figure().add_subplot()
        draw(ax)
        got = {}
        for ln in ax.lines:
            if ln.get_linestyle() not in ('None', 'none', ''):
                got.setdefault(to_hex(ln.get_color()).lower(), []).append(
                    np.array([ln.get_xdata(), ln.get_ydata()], float).T)
        for sh, c in ((True, dark), (False, lit)):
            a = sorted(np.round(v, 7).tolist() for v in got.pop(c, []))
            e = sorted(np.round(m.ends(t), 7).tolist() for m in members
                       if m.shaded == sh and float(m.length[t]) > 1.001e-8)
            ensure(len(a) == len(e) and (not e or np.allclose(a, e, atol=2e-7)),
                   'step %d: %s draws the %s lines %s, its surfaces are %s', t, what,
                   'shaded' if sh else 'lit', a, e)
        ensure(not got, 'step %d: %s draws in the colours %s', t, what, sorted(got))
        near = [m for m in members if abs(m.ends(t)[:, 0].mean()) < 49.0]
        if texts is False or (texts and near):     # (none are written far away)
            ensure(bool(ax.texts) == texts, 'step %d: %s writes %s',
                   t, what, [x.get_text() for x in ax.texts])

    for t in range(pv.n_states):
        for row in pv.ts_pvrows:
            rs = [x for x in S if x.row == row.index]
            what = 'row %d' % row.index
            check(lambda ax: row.plot_at_idx(t, ax, **options(
                case, with_surface_index=case['text']), **kw), rs, t, what, case['text'])
            check(lambda ax: row.at(t).plot(ax, **kw), rs, t, what + ' (static)', False)
            for kind in ('front', 'back'):
                side = getattr(row, kind)
                ss = [x for x in rs if x.kind == kind]
                w = '%s %s' % (what, kind)
                check(lambda ax: side.plot_at_idx(t, ax, **kw), ss, t, w, False)
                check(lambda ax: side.at(t).plot(ax, **options(
                    case, with_index=case['text']), **kw), ss, t,
                      w + ' (static)', case['text'])
                for i, seg in enumerate(side.list_segments):
                    m = [x for x in ss if x.seg == i]
                    check(lambda ax: seg.plot_at_idx(t, ax, **kw), m, t,
                          '%s segment %d' % (w, i), False)
                    for x in m:
                        check(lambda ax: x.s.plot_at_idx(t, ax, dark if x.shaded
                                                         else lit), [x], t,
                              'surface %d' % x.s.index, False)
        g = [x for x in S if x.kind == 'ground']
        check(lambda ax: pv.ts_ground.plot_at_idx(
            t, ax, merge_if_flag_overlap=False, with_cut_points=True, **kw), g, t,
            'the ground', False)
        rec.nontrivial(any(x.shaded and x.length[t] > 1e-8 for x in S if x.row
                           is not None))


@st.composite
def part_cases(draw):
    c = draw(gen.scenes(max_steps=2, irr=False, array=gen.arrays(max_rows=3, max_cut=3)))
    c['text'] = draw(st.booleans())
    return c


FACETS = [
    Facet('rows', cases, rows, 560),
    Facet('ground', cases, ground, 960),
    Facet('plot', plot_cases, plot, 240),
    Facet('plot_parts', part_cases, plot_parts, 160),
]
