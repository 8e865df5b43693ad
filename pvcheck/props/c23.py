"""C23 objects that cannot exist are refused, those that can are accepted."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen
from pvcheck.core import Facet, ensure

RULE = ('Collections, segments and sides are put together from surfaces of generated '
        'direction, position and shading, and engine parts are created with generated '
        'arguments, some of them wrong; non-trivial when two or more parts are combined '
        'or an argument is wrong.')


@st.composite
def piece(draw, angle):
    """A surface, mostly parallel to `angle` degrees."""
    off = draw(st.sampled_from([0, 0, 0, 0, 0, 180, 7, 45, 90, -30]))
    return {'x': draw(gen.q(-5, 5, 0.01)), 'y': draw(gen.q(0, 4, 0.01)),
            'len': draw(gen.q(0.1, 3, 0.01)), 'off': off, 'angle': angle + off,
            'empty': draw(st.integers(0, 7)) == 7}


@st.composite
def geometry_cases(draw):
    angle = draw(st.one_of(st.sampled_from([0.0, 20.0, 90.0]), gen.q(0, 180, 0.1)))
    n = draw(st.integers(1, 4))
    c = {'pieces': [draw(piece(angle)) for _ in range(n)],
         'shaded': [draw(st.integers(0, 5)) == 5 for _ in range(n)]}
    if draw(st.booleans()):
        c['shaded'] = [c['shaded'][0]] * n
    c['what'] = draw(st.sampled_from(['collection', 'segment', 'side', 'add']))
    c['flag'] = draw(st.sampled_from([None, True, False]))
    # Empty surfaces have no direction: a collection is never started with one here
    if c['what'] in ('collection', 'add'):
        c['pieces'][0]['empty'] = False
    else:
        for p in c['pieces']:
            p['empty'] = False
    return c


def _surface(p, shaded):
    from pvfactors.geometry.base import PVSurface
    if p['empty']:
        return PVSurface(shaded=shaded)
    a = np.deg2rad(p['angle'])
    return PVSurface([(p['x'], p['y']), (p['x'] + p['len'] * np.cos(a),
                                         p['y'] + p['len'] * np.sin(a))], shaded=shaded)


def _parallel(pieces):
    k = [p['off'] % 180 for p in pieces if not p['empty']]
    return len(set(k)) <= 1


def _accepted(f):
    """(accepted, result): refusals are pvfactors' own error or a failed assertion."""
    from pvfactors import PVFactorsError
    try:
        return True, f()
    except (PVFactorsError, AssertionError):
        return False, None


def geometry(case, rec):
    from pvfactors import PVFactorsError
    from pvfactors.geometry.base import BaseSide, PVSegment, ShadeCollection
    ps, sh = case['pieces'], case['shaded']
    what = case['what']
    live = [p for p in ps if not p['empty']]
    rec.tag(what)
    if what == 'collection':
        surfs = [_surface(p, s) for p, s in zip(ps, sh)]
        try:
            col = ShadeCollection(surfs, shaded=case['flag'])
        except PVFactorsError:
            col = None
        mixed = len(set(sh)) > 1
        ensure((col is None) == mixed, 'a collection of surfaces with shading %s is %s', sh,
               'refused' if col is None else 'accepted')
        if col is not None:
            ensure(col.shaded == sh[0], 'shading of the collection %r, of its surfaces %r',
                   col.shaded, sh[0])
            par = _parallel(ps)
            ensure(bool(col.is_collinear) == par, 'surfaces at %s deg: collinear %r',
                   [p['off'] for p in live], col.is_collinear)
            ok, nv = _accepted(lambda: col.n_vector)
            ensure(ok == par, 'normal vector of a collection of surfaces at %s deg is %s',
                   [p['off'] for p in live], 'given' if ok else 'refused')
        rec.nontrivial(len(live) > 1)
        rec.tag('mixed_shading', mixed)
    elif what == 'add':
        # a collection grown one surface at a time knows whether it is still straight
        col = ShadeCollection([], shaded=sh[0])
        for i, p in enumerate(ps):
            col.add_pvsurface(_surface(p, sh[0]))
            par = _parallel(ps[:i + 1])
            ensure(bool(col.is_collinear) == par, 'after adding %d surfaces at %s deg: '
                   'collinear %r', i + 1, [q['off'] for q in ps[:i + 1]],
                   col.is_collinear)
            ok, nv = _accepted(lambda: col.n_vector)
            ensure(ok == par, 'normal vector is %s', 'given' if ok else 'refused')
        rec.nontrivial(len(live) > 1)
    elif what == 'segment':
        cut = len(ps) // 2
        lit, dark = ps[:cut], ps[cut:]
        wrong = case['flag'] is True and len(sh) > 1 and sh[-1]
        a = ShadeCollection([_surface(p, False) for p in lit], shaded=False)
        b = ShadeCollection([_surface(p, not wrong) for p in dark], shaded=not wrong)
        ok, seg = _accepted(lambda: PVSegment(illum_collection=a, shaded_collection=b))
        want = not wrong and _parallel(lit) and _parallel(dark) and _parallel(ps)
        ensure(ok == want, 'a segment with lit surfaces at %s deg and %s surfaces at %s '
               'deg is %s', [p['off'] for p in lit if not p['empty']],
               'lit' if wrong else 'shaded', [p['off'] for p in dark if not p['empty']],
               'accepted' if ok else 'refused')
        rec.nontrivial(len(live) > 1)
        rec.tag('refused', not ok)
    else:
        segs = []
        for p, s in zip(ps, sh):
            col = ShadeCollection([_surface(p, s)], shaded=s)
            segs.append(PVSegment(**{('shaded' if s else 'illum') + '_collection': col}))
        ok, side = _accepted(lambda: BaseSide(segs))
        ensure(ok == _parallel(ps), 'a side of segments at %s deg is %s',
               [p['off'] for p in live], 'accepted' if ok else 'refused')
        rec.nontrivial(len(live) > 1)
        rec.tag('refused', not ok)


class _Module(object):
    """A module object offering its incidence modifier as a method."""
    @staticmethod
    def faoi(angles):
        return np.ones(len(angles))


WRONG = {'number': 0.9, 'text': 'sin', 'list': [1.0, 1.0], 'dict': {'faoi': 1}}
RIGHT = {'function': lambda a: np.ones(len(a)), 'method': _Module.faoi}


@st.composite
def part_cases(draw):
    what = draw(st.sampled_from(['faoi', 'faoi', 'circumsolar', 'no_rows', 'missing',
                                 'parameter', 'parameter']))
    c = {'what': what}
    if what == 'faoi':
        c['front'] = draw(st.sampled_from(sorted(WRONG) + sorted(RIGHT) * 2))
        c['back'] = draw(st.sampled_from(sorted(WRONG) + sorted(RIGHT) * 2))
    elif what == 'circumsolar':
        c['name'] = draw(st.one_of(st.sampled_from(['uniform_disk', 'gaussian']),
                                   st.sampled_from(['disk', 'Gaussian', 'uniform', '',
                                                    'none', 'uniform_disk '])))
        c['pct'] = draw(gen.q(0.0, 100.0, 0.1))
    else:
        c['case'] = draw(gen.scenes(max_steps=2, array=gen.arrays(max_rows=3), irr=False))
        c['key'] = draw(st.sampled_from(['n_pvrows', 'pvrow_height', 'pvrow_width',
                                         'axis_azimuth', 'gcr']))
        c['name'] = draw(st.sampled_from(['qinc', 'x', 'QINC', 'rho']))
        c['names'] = draw(st.sampled_from([None, ['x'], ['qinc', 'x']]))
    return c


def parts(case, rec):
    from pvfactors import PVFactorsError
    from pvfactors.geometry import OrderedPVArray
    what = case['what']
    rec.tag(what)
    if what == 'faoi':
        from pvfactors.viewfactors import VFCalculator
        from pvfactors.viewfactors.aoimethods import AOIMethods
        both = dict(WRONG, **RIGHT)
        want = case['front'] in RIGHT and case['back'] in RIGHT
        for cls in (AOIMethods, VFCalculator):
            ok, x = _accepted(lambda: cls(faoi_fn_front=both[case['front']],
                                          faoi_fn_back=both[case['back']]))
            ensure(ok == want, '%s with a %s for the front and a %s for the back is %s',
                   cls.__name__, case['front'], case['back'],
                   'accepted' if ok else 'refused')
        rec.nontrivial(not want)
    elif what == 'circumsolar':
        from pvfactors.irradiance.utils import calculate_circumsolar_shading
        ok, v = _accepted(lambda: calculate_circumsolar_shading(case['pct'],
                                                                model=case['name']))
        want = case['name'] in ('uniform_disk', 'gaussian')
        ensure(ok == want, 'circumsolar model %r is %s', case['name'],
               'accepted' if ok else 'refused')
        rec.nontrivial(not want)
    elif what == 'no_rows':
        # nothing to simulate
        c = case['case']
        p = dict(gen.pv_params(c['array']), n_pvrows=0)
        p.pop('cut', None)
        ok, _ = _accepted(lambda: OrderedPVArray.init_from_dict(p).fit(
            *gen.geometry_inputs(c['times'])))
        ensure(not ok, 'an array without rows is accepted')
        rec.nontrivial()
    elif what == 'missing':
        p = gen.pv_params(case['case']['array'])
        del p[case['key']]
        try:
            OrderedPVArray.init_from_dict(p)
        except (KeyError, PVFactorsError) as e:
            ensure(case['key'] in str(e), 'error without the name of the missing %s: %s',
                   case['key'], e)
        else:
            ensure(False, 'parameters without %s are accepted', case['key'])
        rec.nontrivial()
    else:
        # asking for a value that was never set is an error, not a number
        c = case['case']
        kw = {} if case['names'] is None else {'param_names': list(case['names'])}
        pv = OrderedPVArray.init_from_dict(gen.pv_params(c['array']), **kw)
        pv.fit(*gen.geometry_inputs(c['times']))
        known = case['names'] or []
        name = case['name']
        row = pv.ts_pvrows[0]
        for label, f in (
                ('surface', lambda: row.front.all_ts_surfaces[0].get_param(name)),
                ('ground surface', lambda: pv.ts_ground.all_ts_surfaces[0]
                 .get_param(name)),
                ('side', lambda: row.front.get_param_weighted(name)),
                ('segment', lambda: row.back.list_segments[0].get_param_weighted(name)),
                ('ground', lambda: pv.ts_ground.get_param_weighted(name))):
            try:
                v = f()
            except (KeyError, TypeError):
                v = None
            ensure(v is None, '%s %r of an array without results is %r', label, name, v)
        try:
            row.front.all_ts_surfaces[0].get_param(name)
            ok = True
        except KeyError:
            ok = False
        ensure(ok == (name in known), 'parameter %r of a surface made with the names %s '
               'is %s', name, known, 'known' if ok else 'unknown')
        rec.nontrivial()


FACETS = [
    Facet('geometry', geometry_cases, geometry, 2400),
    Facet('parts', part_cases, parts, 800),
]
