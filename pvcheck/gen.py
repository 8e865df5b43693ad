"""Hypothesis strategies for PV array / weather cases, as plain JSON-able dicts.

Domain (see DESIGN.md): 1..5 (one in twenty: up to 12) rows of equal width, gcr 0.1..0.95, row clear of the ground,
whole array inside the ground extent [-100 m, 100 m] (centres within 60 m), surface
azimuth perpendicular to the axis (any 360 degree representative), tilt 0..180,
solar zenith 0..89.99, DNI >= 0, DHI >= 0, 0 <= albedo <= 1, 0 <= module reflectivity <= 1.
"""
import datetime
import math

import numpy as np
from hypothesis import strategies as st


def q(lo, hi, step=0.001):
    """Floats on a decimal grid: shrink well and survive JSON exactly."""
    a, b = int(round(lo / step)), int(round(hi / step))
    return st.integers(a, b).map(lambda k: round(k * step, 6))


def pick(*vals):
    return st.sampled_from(vals)


@st.composite
def arrays(draw, min_rows=1, max_rows=5, cuts=True, max_cut=3):
    n = draw(st.sampled_from([x for x in (3, 2, 1, 4, 5)
                              if min_rows <= x <= max_rows]))
    if max_rows >= 5 and draw(st.integers(0, 19)) == 19:
        n = draw(pick(6, 7, 9, 12))
    width = draw(st.one_of(pick(1.0, 2.0, 2.5), q(0.4, 4.0, 0.01)))
    lo = max(0.1, width * (n - 1) / 60.0)
    gcr = draw(st.one_of(pick(0.4, 0.5), q(lo, 0.95, 0.001)))
    gcr = max(gcr, round(lo + 0.0005, 3))
    clearance = draw(st.one_of(pick(0.5, 1.0), q(0.05, 3.0, 0.01)))
    case = {'n_pvrows': n, 'pvrow_width': width, 'gcr': gcr,
            'pvrow_height': round(width / 2.0 + clearance, 6),
            'axis_azimuth': draw(st.one_of(pick(0.0, 180.0, 90.0, 270.0),
                                           q(0.0, 360.0, 0.1)))}
    cut = {}
    if cuts:
        few = n > 5
        for i in range(n):
            if few and i != n // 2:
                continue
            f = draw(st.sampled_from([1, 1, 2, 3, 5][:max_cut + 1]))
            b = draw(st.sampled_from([1, 1, 2, 3, 5][:max_cut + 1]))
            d = {}
            if draw(st.integers(0, 39)) == 39:
                b = draw(pick(4, 6, 11) if max_cut >= 3 else pick(4, 5))
            if f > 1:
                d['front'] = f
            if b > 1:
                d['back'] = b
            if d:
                cut[str(i)] = d
    if cut:
        case['cut'] = cut
    return case


@st.composite
def steps(draw, axis, max_zenith=89.99, tilt_max=90.0, min_zenith=0.0,
          kinds=('any', 'cross', 'behind', 'along', 'low'), irr=True, over=True):
    """One timestep. side=+1: module faces azimuth axis+90, -1: faces axis-90.
    over: one step in eight has the modules face downwards (tilt beyond 90)."""
    kind = draw(st.sampled_from(kinds))
    side = draw(pick(1, -1))
    tilt = draw(st.one_of(pick(20.0, 0.0, tilt_max, 45.0), q(0.0, tilt_max, 0.01),
                          q(0.0, tilt_max, 0.01),
                          q(0.0, min(12.0, tilt_max), 0.01),
                          q(0.0, min(12.0, tilt_max), 0.01),
                          pick(1.0, 0.4, 0.1, 0.01, 1e-3, 1e-4).map(
                              lambda v: min(v, tilt_max))))
    if tilt == 0.0:
        tilt = draw(pick(0.0, 0.0, 0.0, 1e-15, 1e-14, 1e-12, 1e-9, 1e-6))
    rel = draw(q(0.0, 359.9, 0.1))
    zen = draw(st.one_of(q(min_zenith, max_zenith, 0.01)))
    jit = draw(q(-25.0, 25.0, 0.1))
    if kind == 'cross':
        rel = (90.0 * side + jit) % 360.0
        zen = max(min_zenith, round(max_zenith - (max_zenith - zen) * 0.5, 4))
    elif kind == 'behind':
        rel = (-90.0 * side + jit) % 360.0
        tilt = round(tilt_max - (tilt_max - tilt) * 0.5, 4)
    elif kind == 'along':
        rel = (jit * draw(pick(0.2, 0.2, 0.004)) + (0.0 if side > 0 else 180.0)) % 360.0
    elif kind == 'low':
        if draw(st.booleans()):
            rel = (90.0 * side * draw(pick(1, -1)) + jit) % 360.0
        zen = round(max_zenith - (max_zenith - zen) * draw(pick(0.1, 0.1, 0.1, 0.01)), 4)
    if over and draw(st.integers(0, 7)) == 7:
        tilt = 180.0 - tilt if tilt < 1e-4 else round(180.0 - tilt, 4)
    t = {'solar_zenith': zen,
         'solar_azimuth': round((axis + rel) % 360.0, 4),
         'surface_tilt': tilt,
         'surface_azimuth': round((axis + 90.0 * side) % 360.0, 4)}
    if irr:
        t['dni'] = draw(st.one_of(pick(800.0, 1000.0, 0.0), q(0.0, 1100.0, 0.1)))
        t['dhi'] = draw(st.one_of(pick(100.0, 50.0), q(1.0, 500.0, 0.1)))
        few = draw(st.integers(0, 15))
        if t['dni'] > 0 and few == 15:
            t['dhi'] = 0.0
        elif few == 14:
            t['dhi'] = draw(q(0.01, 1.0, 0.01))
        t['albedo'] = draw(st.one_of(pick(0.2), q(0.02, 0.95, 0.001),
                                     q(0.02, 0.95, 0.001), pick(0.0, 1.0)))
        t['doy'] = draw(st.integers(1, 365))
        if draw(st.integers(0, 7)) == 7:
            t['year'] = draw(pick(2020, 1999))
            t['hour'] = draw(st.integers(0, 23))
            t['doy'] = draw(pick(366, 60, 1)) if t['year'] == 2020 else 365
    return t


@st.composite
def near_threshold(draw, a, t, max_zenith):
    """Moves the sun of a step next to where something changes: the rows just begin to
    shade each other, or the sun is almost in the plane of the modules. Pieces of the
    ground and of the rows then are very short (down to 1e-7 m)."""
    th = math.radians(t['surface_tilt'])
    side = 1 if (t['surface_azimuth'] - a['axis_azimuth']) % 360.0 < 180.0 else -1
    d, w = a['pvrow_width'] / a['gcr'], a['pvrow_width']
    toward = draw(pick(1, -1))               # the sun in front of or behind the modules
    if draw(st.booleans()):
        z = math.degrees(math.atan2(d - toward * w * math.cos(th), w * math.sin(th)))
    else:
        z = abs(90.0 - t['surface_tilt'])
        toward = -1 if t['surface_tilt'] < 90.0 else 1
    z += draw(pick(1, -1)) * draw(pick(1e-2, 1e-3, 2e-4, 5e-5, 1e-5, 1e-6, 0.1))
    if not 0.0 <= z <= max_zenith:
        return t
    return dict(t, solar_zenith=round(z, 7),
                solar_azimuth=round((a['axis_azimuth'] + 90.0 * side * toward) % 360.0, 4))


@st.composite
def row_shading(draw, a, t, max_zenith, sides=(1, 1, -1)):
    """Moves the sun of a step to where the rows cover a drawn part of each other."""
    th = math.radians(t['surface_tilt'])
    side = 1 if (t['surface_azimuth'] - a['axis_azimuth']) % 360.0 < 180.0 else -1
    part = draw(q(0.01, 0.99, 0.01))
    d, b = a['pvrow_width'] / a['gcr'], a['pvrow_width'] * (1.0 - part)
    toward = draw(pick(*sides))
    off = math.radians(draw(st.one_of(st.just(0.0), q(-40.0, 40.0, 0.1))))
    z = math.atan2(d - toward * b * math.cos(th), b * math.sin(th))
    if not 0.0 < z < math.pi / 2.0 - 1e-6:
        return t
    z = math.degrees(math.atan(math.tan(z) / math.cos(off)))
    if z > max_zenith:
        return t
    az = a['axis_azimuth'] + 90.0 * side * toward + math.degrees(off)
    return dict(t, solar_zenith=round(z, 4), solar_azimuth=round(az % 360.0, 4))


@st.composite
def lowered(draw, a, ts, max_zenith):
    """Rows as close to the ground as their tilts allow, and a low sun, mostly from
    behind: the planes of the rows then meet the ground between and inside shadows."""
    top = max(abs(math.sin(math.radians(t['surface_tilt']))) for t in ts)
    h = a['pvrow_width'] / 2.0 * top + draw(st.one_of(pick(0.05, 0.2), q(0.02, 0.5, 0.01)))
    a = dict(a, pvrow_height=round(max(h, 0.1) + 1e-3, 3))
    i = draw(st.integers(0, len(ts) - 1))
    t = draw(row_shading(a, ts[i], max_zenith, sides=(-1, -1, 1)))
    return a, ts[:i] + [t] + ts[i + 1:]


@st.composite
def scenes(draw, max_steps=4, min_steps=1, array=None, low=8, **kw):
    """{'array':..., 'times':[...]}; low: one scene in this many has lowered rows (0: none,
    for callers who change tilts later)."""
    a = draw(array if array is not None else arrays())
    n = draw(st.integers(min_steps, max_steps))
    ts = [draw(steps(a['axis_azimuth'], **kw)) for _ in range(n)]
    move = draw(st.integers(0, 7))
    if move == 7:
        ts[-1] = draw(near_threshold(a, ts[-1], kw.get('max_zenith', 89.99)))
    elif move >= 5:
        i = draw(st.integers(0, n - 1))
        ts[i] = draw(row_shading(a, ts[i], kw.get('max_zenith', 89.99)))
    if low and draw(st.integers(0, low - 1)) == low - 1:
        a, ts = draw(lowered(a, ts, kw.get('max_zenith', 89.99)))
    if max_steps > 1 and min_steps < 5 and draw(st.integers(0, 59)) == 59:
        ts = [dict(t) for t in ts * 40][:draw(pick(40, 26, 13))]    # a long series
    return {'array': a, 'times': ts}


@st.composite
def models(draw, kinds=('perez', 'iso'), with_band=True):
    m = {'kind': draw(st.sampled_from(kinds)),
         'rho_front': draw(st.one_of(pick(0.01, 0.03, 0.0), q(0.002, 0.4, 0.001), pick(0.8, 1.0))),
         'rho_back': draw(st.one_of(pick(0.03, 0.05, 0.0), q(0.002, 0.4, 0.001),
                                    pick(0.6, 1.0)))}
    if draw(st.booleans()):
        m['module_transparency'] = draw(q(0.0, 0.9, 0.01))
        m['module_spacing_ratio'] = draw(q(0.0, 0.9, 0.01))
    if m['kind'] == 'perez' and with_band and draw(st.booleans()):
        m['horizon_band_angle'] = draw(q(1.0, 25.0, 0.1))
    return m


@st.composite
def runs(draw, model=None, ghi=False, **kw):
    """A scene plus an irradiance model: everything a full engine run needs."""
    c = draw(scenes(**kw))
    c['model'] = draw(model if model is not None else models())
    if ghi and draw(st.booleans()):
        zero = draw(st.integers(0, 4)) == 0      # nothing measured over the whole series
        for t in c['times']:
            if zero:
                t['ghi'] = 0.0
                continue
            t['ghi'] = draw(st.one_of(q(1.0, 1200.0, 0.1), q(1.0, 1200.0, 0.1), st.just(0.0)))
    return c


# ------------------------------------------------------------------ build real objects

def pv_params(a):
    p = {k: a[k] for k in ('n_pvrows', 'pvrow_width', 'gcr', 'pvrow_height',
                           'axis_azimuth')}
    if a.get('cut'):
        p['cut'] = {int(k): dict(v) for k, v in a['cut'].items()}
    return p


def timestamps(times):
    return [datetime.datetime(t.get('year', 2019), 1, 1, t.get('hour', 12))
            + datetime.timedelta(days=int(t.get('doy', 100)) - 1,
                                 minutes=t.get('minute', i))
            for i, t in enumerate(times)]


def col(times, key):
    return np.array([np.nan if t[key] is None else float(t[key]) for t in times])


def geometry_inputs(times):
    return tuple(col(times, k) for k in ('solar_zenith', 'solar_azimuth',
                                         'surface_tilt', 'surface_azimuth'))


def some_steps(times):
    """All steps, or a few of a long series (which repeats itself)."""
    n = len(times)
    return range(n) if n < 6 else [0, n // 2, n - 2, n - 1]


def fit_pvarray(case, names=None):
    from pvfactors.geometry import OrderedPVArray
    pvarray = OrderedPVArray.init_from_dict(pv_params(case['array']), param_names=names)
    pvarray.fit(*geometry_inputs(case['times']))
    return pvarray


def make_model(m, **extra):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    kw = {k: v for k, v in m.items() if k != 'kind'}
    kw.update(extra)
    return (HybridPerezOrdered if m['kind'] == 'perez' else IsotropicOrdered)(**kw)


def fit_args(times):
    z, az, tilt, saz = geometry_inputs(times)
    kw = {}
    if 'ghi' in times[0]:
        kw['ghi'] = col(times, 'ghi')
    return (timestamps(times), col(times, 'dni'), col(times, 'dhi'), z, az, tilt, saz,
            col(times, 'albedo')), kw


def make_engine(case, vf_calculator=None, model_extra=None, **kw):
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.engine import PVEngine
    pvarray = OrderedPVArray.init_from_dict(pv_params(case['array']))
    model = make_model(case['model'], **(model_extra or {}))
    return PVEngine(pvarray, irradiance_model=model, vf_calculator=vf_calculator, **kw)


def fit_engine(case, **kw):
    eng = make_engine(case, **kw)
    args, k = fit_args(case['times'])
    eng.fit(*args, **k)
    return eng


def run_full(case, **kw):
    eng = fit_engine(case, **kw)
    eng.run_full_mode()
    return eng


def n_cut(a, row, side):
    return a.get('cut', {}).get(str(row), {}).get(side, 1)
