"""C06 inter-row direct shading equals ray casting towards the sun."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs, ref
from pvcheck.core import Facet, ensure

RULE = ('Array x sun geometries biased to low sun across the rows; non-trivial when the '
        'reference finds a partly or fully shaded row.')


def _ref_shaded(scene, k):
    """Interval of row k (metres from its left end) hidden from the sun by other rows."""
    r = scene.rows[k]
    den = scene.n @ scene.sun
    out = []
    for j, o in enumerate(scene.rows):
        if j == k:
            continue
        # every point of row j is at the same height above the plane of row k
        h = (o.c - r.c) @ scene.n
        if h * den <= 0:              # row j is not on the sunny side of row k's plane
            continue
        shift = -h / den
        lo = (o.left + shift * scene.sun - r.left) @ scene.u
        hi = (o.right + shift * scene.sun - r.left) @ scene.u
        lo, hi = max(lo, 0.0), min(hi, 2 * r.half)
        if hi > lo:
            out.append([lo, hi])
    return ref.intervals_union(out)


def shading(case, rec):
    pv = gen.fit_pvarray(case)
    a = case['array']
    w = a['pvrow_width']
    for t in range(len(case['times'])):
        scene = ref.Scene(a, case['times'][t])
        den = float(scene.n @ scene.sun)
        if abs(den) < 1e-4:
            rec.tag('grazing_skipped')
            continue
        eps = 1e-8 / abs(den) + 1e-8
        lit = 'front' if den > 0 else 'back'
        any_shade = False
        for k, row in enumerate(pv.ts_pvrows):
            sh = _ref_shaded(scene, k)
            total = sum(b - c for c, b in sh)
            any_shade |= total > eps
            for name, side in (('front', row.front), ('back', row.back)):
                got = float(np.asarray(side.shaded_length)[t])
                want = total if name == lit else 0.0
                ensure(abs(got - want) < eps, 'step %d: row %d %s: shaded length %r, ray '
                       'casting %r', t, k, name, got, want)
                nc = len(side.list_segments)
                for j, seg in enumerate(side.list_segments):
                    s0, s1 = w * j / nc, w * (j + 1) / nc
                    for coll in (seg.illum, seg.shaded):
                        for su in coll.list_ts_surfaces:
                            e = (np.asarray(su.coords.at(t)) - scene.rows[k].left) \
                                @ scene.u
                            lo, hi = min(e), max(e)
                            if hi - lo < 4 * eps:
                                continue
                            m = 0.5 * (lo + hi)
                            ins = name == lit and any(p < m < q for p, q in sh)
                            ensure(ins == bool(coll.shaded), 'step %d: row %d %s segment '
                                   '%d: part [%r, %r] m from the left end is %s but the '
                                   'shade is %s', t, k, name, j, lo, hi,
                                   'shaded' if coll.shaded else 'lit',
                                   sh if name == lit else [])
                            if name == lit:
                                p = scene.rows[k].left + m * scene.u
                                hit, _ = scene.first_row_hit(p, scene.sun, skip=k)
                                if scene.margin_row_hit(p, scene.sun, skip=k) > 1e-7:
                                    ensure((hit is not None) == bool(coll.shaded),
                                           'step %d: row %d %s segment %d at %r m: ray '
                                           'to the sun %s', t, k, name, j, m,
                                           'hits row %s' % hit if hit is not None
                                           else 'is free')
                    sl = float(np.asarray(seg.shaded_length)[t])
                    want = sum(max(0.0, min(q, s1) - max(p, s0)) for p, q in sh) \
                        if name == lit else 0.0
                    ensure(abs(sl - want) < eps, 'step %d: row %d %s segment %d shaded '
                           'length %r, ray casting %r', t, k, name, j, sl, want)
            rec.nontrivial(total > eps)
            rec.tag('partial_' + lit, eps < total < w - eps)
            rec.tag('full_' + lit, total >= w - eps)
        if any_shade or a['n_pvrows'] == 1:
            flag = bool(np.asarray(pv.has_direct_shading)[t])
            ensure(flag == any_shade, 'step %d: direct shading flag %s, ray casting %s',
                   t, flag, any_shade)
        rec.tag('none', not any_shade)


def low():
    return gen.scenes(max_steps=4, irr=False, kinds=('cross', 'behind', 'low'),
                      min_zenith=35.0, array=gen.arrays(min_rows=2))


@st.composite
def built_cases(draw):
    """Single rows with given shaded lengths, on a grid where shade often ends exactly at a
    segment boundary."""
    out = {'xy': [draw(gen.q(-20.0, 20.0, 0.5)), draw(gen.q(1.0, 4.0, 0.25))],
           'width': draw(st.sampled_from([1.0, 2.0, 2.4])), 'steps': [],
           'cut': {k: draw(st.integers(1, 6)) for k in draw(st.sampled_from(
               [[], ['front'], ['back'], ['front', 'back']]))}}
    for _ in range(draw(st.integers(1, 4))):
        out['steps'].append({
            'rotation': draw(st.one_of(st.sampled_from([0.0, 90.0, -90.0, 20.0, -20.0]),
                                       gen.q(-179.9, 179.9, 0.1))),
            'front': draw(st.one_of(st.integers(0, 12).map(lambda k: k / 12.0),
                                    gen.q(0.0, 1.0, 0.001))),
            'back': draw(st.one_of(st.integers(0, 12).map(lambda k: k / 12.0),
                                   gen.q(0.0, 1.0, 0.001)))})
    return out


def built(case, rec):
    """The shade of a row side is the given length from its low edge, in every segment."""
    from pvfactors.geometry.pvrow import TsPVRow
    w, steps = case['width'], case['steps']
    rot = np.array([s['rotation'] for s in steps])
    row = TsPVRow.from_raw_inputs(tuple(case['xy']), w, rot, dict(case['cut']),
                                  w * np.array([s['front'] for s in steps]),
                                  w * np.array([s['back'] for s in steps]), index=7)
    ensure(row.index == 7, 'index %s', row.index)
    for t, s in enumerate(steps):
        a = np.deg2rad(s['rotation'])
        u = np.array([np.cos(a), np.sin(a)])
        b1 = np.array(case['xy']) - 0.5 * w * u
        e = np.asarray(row.full_pvrow_coords.at(t), float)
        ensure(np.allclose(e, [b1, b1 + w * u], atol=1e-9), 'step %d: row at %s', t,
               e.tolist())
        for name, side, sign in (('front', row.front, 1), ('back', row.back, -1)):
            n = case['cut'].get(name, 1)
            L = w * s[name] if s['rotation'] != 0 else 0.0
            # the lower end: the first one for rotations between 0 and 180 degrees
            lo, hi = (0.0, L) if s['rotation'] >= 0 else (w - L, w)
            ensure(abs(float(np.asarray(side.shaded_length)[t]) - L) < 1e-8, 'step %d: %s '
                   'shaded length %r of %r', t, name,
                   float(np.asarray(side.shaded_length)[t]), L)
            ensure(len(side.list_segments) == n, '%d segments on the %s, cut %s',
                   len(side.list_segments), name, case['cut'])
            for j, seg in enumerate(side.list_segments):
                s0, s1 = w * j / n, w * (j + 1) / n
                p, q = max(lo, s0), min(hi, s1)
                want = {True: [[p, q]] if q > p + 1e-8 else []}
                want[False] = [v for v in ([s0, min(p, s1)], [max(q, s0), s1])
                               if v[1] > v[0] + 1e-8] if want[True] else [[s0, s1]]
                for sh, part in ((True, seg.shaded), (False, seg.illum)):
                    got = []
                    for x in part.list_ts_surfaces:
                        c = (np.asarray(x.coords.at(t), float) - b1) @ u
                        off = (np.asarray(x.coords.at(t), float) - b1) @ [-u[1], u[0]]
                        ensure(np.all(np.abs(off) < 1e-9), 'step %d: %s part off the row',
                               t, name)
                        if abs(c[1] - c[0]) > 1e-8:
                            got.append(sorted(float(v) for v in c))
                        nv = np.asarray(x.n_vector, float)[:, t]
                        ensure(np.allclose(nv / np.hypot(*nv),
                                           sign * np.array([-u[1], u[0]]), atol=1e-9),
                               'step %d: normal of the %s %s', t, name, nv)
                    ensure(len(got) == len(want[sh]) and (
                        not got or np.allclose(got, want[sh], atol=1e-8)), 'step %d: %s '
                        'segment %d: %s parts %s m from the first end, expected %s', t,
                        name, j, 'shaded' if sh else 'lit', got, want[sh])
                rec.tag('partial_segment', bool(want[True]) and bool(want[False]))
            rec.nontrivial(0 < L)
    rec.tag('several_steps', len(steps) > 1)


FACETS = [
    Facet('shading', lambda: gen.scenes(max_steps=3, irr=False), shading, 1200),
    Facet('shading_low_sun', low, shading, 3200),
    Facet('built_rows', built_cases, built, 1200),
]
