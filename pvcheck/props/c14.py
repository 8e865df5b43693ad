"""C14 results do not depend on the frame: rotation, wrap, mirror image, scale."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs, ref
from pvcheck.core import Facet, close, ensure

RULE = ('A generated run and its image under a change of frame (world rotation, 360 degree '
        'wrap, left-right mirror, axis reversed, all lengths scaled); non-trivial when the '
        'image differs from the original and some row is tilted.')


def _rows(eng, kinds=('front', 'back'), keys=('qinc',), only=None):
    """{(row, kind, seg, shaded): {key: array, 'length': array}} by position."""
    out = {}
    for x in obs.surfaces(eng.pvarray):
        if x.kind in kinds and (only is None or x.row in only):
            d = {'length': x.length}
            for k in keys:
                d[k] = np.asarray(x.s.params[k], float) * np.ones(len(x.length))
            out[(x.row, x.kind, x.seg, x.shaded)] = d
    return out


def _compare(a, b, case, what, mapping=lambda k: k, scale=1.0, tol=1e-6):
    for k, u in a.items():
        v = b[mapping(k)]
        ok = (u['length'] > 1e-5)
        close(v['length'], u['length'] * scale, 'length of %s %s' % (k, what), atol=1e-7,
              rtol=1e-9)
        for key in u:
            if key != 'length':
                t = tol * 1e-1 / np.minimum(np.maximum(u['length'][ok], 1e-5), 1.0)
                d = np.abs(u[key][ok] - v[key][ok])
                lim = tol + t * 1e-4 + 1e-6 * np.abs(u[key][ok])
                ensure(np.all(d <= lim), '%s of %s %s: %s, originally %s', key, k, what,
                       v[key][ok], u[key][ok])


@st.composite
def rot_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(max_rows=4, max_cut=2)))
    c['delta'] = draw(st.one_of(gen.q(-360.0, 360.0, 0.5), st.sampled_from([90.0, 180.0])))
    c['wrap'] = [[draw(st.sampled_from([-360.0, 0.0, 360.0])) for _ in range(2)]
                 for _ in c['times']]
    c['mode'] = draw(st.sampled_from(['full', 'fast']))
    return c


def _near_edge(case):
    """Directions so close to the module plane or across it that rounding decides."""
    return any(abs(ref.cos_aoi(t)) < 1e-7 for t in case['times'])


def _run(case):
    if case['mode'] == 'full':
        return gen.run_full(case)
    eng = gen.fit_engine(case)
    for r in range(case['array']['n_pvrows']):
        eng.run_fast_mode(pvrow_index=r)
    return eng


def rotation(case, rec):
    """Turning the whole world, or adding 360 degrees to an azimuth, changes nothing."""
    if _near_edge(case):
        rec.tag('skipped_corner')
        return
    a = _run(case)
    d = case['delta']
    im = dict(case, array=dict(case['array']), times=[dict(t) for t in case['times']])
    im['array']['axis_azimuth'] = (case['array']['axis_azimuth'] + d) % 360.0
    for t, (w1, w2) in zip(im['times'], case['wrap']):
        t['solar_azimuth'] = t['solar_azimuth'] + d + w1
        t['surface_azimuth'] = t['surface_azimuth'] + d + w2
    b = _run(im)
    kinds = ('front', 'back') if case['mode'] == 'full' else ('back',)
    _compare(_rows(a, kinds), _rows(b, kinds), case, 'after turning the world by %r and '
             'wrapping' % d)
    rec.nontrivial(d % 360 != 0 or any(w != [0.0, 0.0] for w in case['wrap']))
    rec.tag(case['mode'])
    rec.tag('wrapped', any(w != [0.0, 0.0] for w in case['wrap']))


def _mirror(case, how):
    """Left-right mirror image about the vertical plane through the axis."""
    a = case['array']
    n = a['n_pvrows']
    im = dict(case, array=dict(a), times=[dict(t) for t in case['times']])
    A = a['axis_azimuth']
    if how == 'azimuth':
        for t in im['times']:
            t['solar_azimuth'] = (2 * A - t['solar_azimuth']) % 360.0
            t['surface_azimuth'] = (2 * A - t['surface_azimuth']) % 360.0
    else:                                   # look along the axis the other way
        im['array']['axis_azimuth'] = (A + 180.0) % 360.0
    if a.get('cut'):
        im['array']['cut'] = {str(n - 1 - int(k)): dict(v) for k, v in a['cut'].items()}
    return im


def _mirror_map(case):
    a = case['array']
    n = a['n_pvrows']

    def f(k):
        row, kind, seg, shaded = k
        return (n - 1 - row, kind, gen.n_cut(a, row, kind) - 1 - seg, shaded)
    return f


@st.composite
def single_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(max_rows=1)))
    c['mode'] = 'full'
    c['how'] = draw(st.sampled_from(['azimuth', 'axis']))
    return c


def mirror_single(case, rec):
    if _near_edge(case):
        rec.tag('skipped_corner')
        return
    case = dict(case, times=[t for t in case['times'] if 0.01 < t['surface_tilt'] < 179.99])
    if not case['times']:
        return
    a, b = _run(case), _run(_mirror(case, case['how']))
    _compare(_rows(a, keys=('qinc', 'q0', 'qabs')), _rows(b, keys=('qinc', 'q0', 'qabs')),
             case, 'in the mirror (%s)' % case['how'], _mirror_map(case))
    rec.nontrivial('cut' in case['array'])
    rec.tag(case['how'])


@st.composite
def interior_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(min_rows=3, max_rows=5, max_cut=2),
                      max_zenith=88.0, tilt_max=89.0,
                      kinds=('any', 'cross', 'cross', 'behind', 'low')))
    c['mode'] = 'fast'
    c['how'] = draw(st.sampled_from(['azimuth', 'axis']))
    c['scale'] = draw(st.one_of(gen.q(0.3, 1.6, 0.01), gen.q(0.1, 8.0, 0.01)))
    return c


def _unclipped(case):
    """The shadows of all rows, before and after the change, stay on the ground."""
    for t in case['times']:
        s = ref.Scene(case['array'], t)
        for r in s.rows:
            for p in (r.left, r.right):
                x = p[0] - p[1] * s.sun[0] / s.sun[1]
                if abs(x) > 98.0:
                    return False
    return True


def _interior_ok(case):
    return (not _near_edge(case) and _unclipped(case)
            and all(0.5 < t['surface_tilt'] < 179.5 for t in case['times']))


def mirror_interior(case, rec):
    """Interior rows of the fast mode see an unbounded ground: mirror is exact."""
    im = _mirror(case, case['how'])
    if not (_interior_ok(case) and _interior_ok(im)):
        rec.tag('skipped_clipped')
        return
    a, b = _run(case), _run(im)
    n = case['array']['n_pvrows']
    inner = range(1, n - 1)
    keys = ('qinc', 'isotropic', 'reflection', 'direct')
    _compare(_rows(a, ('back',), keys, inner), _rows(b, ('back',), keys, inner), case,
             'in the mirror (%s)' % case['how'], _mirror_map(case))
    _compare(_rows(a, ('front',), (), inner), _rows(b, ('front',), (), inner), case,
             'in the mirror (%s)' % case['how'], _mirror_map(case))
    rec.nontrivial()
    rec.tag(case['how'])


def scale_interior(case, rec):
    """Scaling every length of the array leaves the irradiance of interior rows as is."""
    k = case['scale']
    im = dict(case, array=dict(case['array']))
    for f in ('pvrow_width', 'pvrow_height'):
        im['array'][f] = case['array'][f] * k
    if not (_interior_ok(case) and _interior_ok(im)):
        rec.tag('skipped_clipped')
        return
    a, b = _run(case), _run(im)
    inner = range(1, case['array']['n_pvrows'] - 1)
    keys = ('qinc', 'isotropic', 'reflection', 'direct')
    _compare(_rows(a, ('back',), keys, inner), _rows(b, ('back',), keys, inner), case,
             'with all lengths times %r' % k, scale=k)
    _compare(_rows(a, ('front',), (), inner), _rows(b, ('front',), (), inner), case,
             'with all lengths times %r' % k, scale=k)
    rec.nontrivial(k != 1)


@st.composite
def level_cases(draw):
    c = draw(gen.runs(max_steps=3, array=gen.arrays(max_rows=4, max_cut=2)))
    c['level'] = draw(st.one_of(gen.q(-5.0, 5.0, 0.1), gen.q(0.1, 40.0, 0.1)))
    c['mode'] = draw(st.sampled_from(['full', 'fast', 'aoi']))
    c['subclass'] = draw(st.booleans())
    return c


def ground_level(case, rec):
    """The height of the coordinate origin does not matter: the rows stand on the ground."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    if _near_edge(case):
        rec.tag('skipped_corner')
        return
    h, n_bins = case['level'], 1500

    def f(a):
        return 0.9 * np.clip(np.sin(np.deg2rad(a)), 0, 1)

    def build(y):
        cls = OrderedPVArray
        if y is not None and case['subclass']:
            cls = type('Raised', (OrderedPVArray,), {'y_ground': y})
        pv = cls.init_from_dict(gen.pv_params(case['array']))
        if y is not None and not case['subclass']:
            pv.y_ground = y
        vfc = VFCalculator(f, f, n_bins) if case['mode'] == 'aoi' else VFCalculator()
        eng = PVEngine(pv, irradiance_model=gen.make_model(case['model']),
                       vf_calculator=vfc)
        args, kw = gen.fit_args(case['times'])
        eng.fit(*args, **kw)
        if case['mode'] == 'fast':
            for r in range(case['array']['n_pvrows']):
                eng.run_fast_mode(pvrow_index=r)
        else:
            eng.run_full_mode()
        return eng
    a, b = build(None), build(h)
    what = 'on ground at the height %r' % h
    T = len(case['times'])
    for x, y in zip(obs.surfaces(a.pvarray), obs.surfaces(b.pvarray)):
        for t in range(T):
            e = x.ends(t) + [0.0, h]
            # the ends of pieces nobody sees may move freely where tan() explodes
            close(y.ends(t), e, 'step %d: ends of %s %s' % (t, x.label, what),
                  atol=1e-6, rtol=1e-7)
    for t in range(T):
        for s in b.pvarray.ts_ground.at(t).all_surfaces:
            close([p[1] for p in s.coords], [h, h], 'step %d: height of static ground %s'
                  % (t, what), atol=1e-9)
        base = b.pvarray.ts_ground.at(t).original_linestring
        close([p[1] for p in base.coords], [h, h], 'step %d: height of the static ground '
              'line %s' % (t, what), atol=1e-9)
    fast = case['mode'] == 'fast'
    keys = (['qinc', 'isotropic', 'reflection', 'direct', 'total_perez'] if fast else
            ['qinc', 'isotropic', 'reflection', 'direct', 'q0', 'total_perez'])
    if case['mode'] == 'full':
        keys.append('qabs')
    kinds = ('back',) if fast else ('front', 'back')
    _compare(_rows(a, kinds, keys), _rows(b, kinds, keys), case, what)
    if case['mode'] == 'aoi':
        A, B = a.pvarray.ts_vf_aoi_matrix, b.pvarray.ts_vf_aoi_matrix
        idx = [x for x in obs.surfaces(a.pvarray) if x.kind != 'ground']
        lim = 2.2 * np.pi / n_bins
        seen = [(y.s.index, y.length, y.label) for y in obs.surfaces(a.pvarray)]
        seen.append((-1, np.ones(T), 'the sky'))
        for x in idx:
            i = x.s.index
            for j, length, label in seen:
                ok = (x.length > 1e-5) & (length > 1e-5)
                d = np.abs(A[i, j] - B[i, j])[ok]
                ensure(np.all(d < lim), 'absorbing view of %s from %s %s: %s, originally '
                       '%s', label, x.label, what, B[i, j], A[i, j])
    rec.nontrivial(h != 0 and any(t['surface_tilt'] > 0.01 for t in case['times']))
    rec.tag(case['mode'])


FACETS = [
    Facet('rotation', rot_cases, rotation, 640),
    Facet('mirror_single', single_cases, mirror_single, 400),
    Facet('mirror_interior', interior_cases, mirror_interior, 640),
    Facet('scale_interior', interior_cases, scale_interior, 480),
    Facet('ground_level', level_cases, ground_level, 480),
]
