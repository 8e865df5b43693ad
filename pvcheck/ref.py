"""Independent reference model, from first principles (no pvfactors code).

World: 2D cross-section; +x points to azimuth axis+90, y up, ground is y=0 over
[-100, 100], row k is an opaque segment of the given width centred at (k*width/gcr, h).
"""
import math

import numpy as np

XMIN, XMAX = -100.0, 100.0


def rad(x):
    return np.deg2rad(x)


class RefRow(object):
    __slots__ = ('c', 'n', 'u', 'half', 'left', 'right', 'low', 'high')


class Scene(object):
    """Geometry at one timestep, from the physical meaning of the inputs."""

    def __init__(self, a, t):
        self.a, self.t = a, t
        rel = rad(t['surface_azimuth'] - a['axis_azimuth'] - 90.0)
        tilt = rad(t['surface_tilt'])
        s = 1.0 if math.cos(rel) > 0 else -1.0        # faces +x or -x
        self.faces = s
        n = np.array([s * math.sin(tilt), math.cos(tilt)])
        u = np.array([n[1], -n[0]])                    # along the row, towards +x
        z = rad(t['solar_zenith'])
        da = rad(t['solar_azimuth'] - a['axis_azimuth'] - 90.0)
        self.sun = np.array([math.sin(z) * math.cos(da), math.cos(z)])
        self.rows = []
        dist = a['pvrow_width'] / a['gcr']
        for k in range(a['n_pvrows']):
            r = RefRow()
            r.c = np.array([k * dist, a['pvrow_height']])
            r.n, r.u, r.half = n, u, a['pvrow_width'] / 2.0
            r.left, r.right = r.c - r.half * u, r.c + r.half * u
            r.low, r.high = ((r.left, r.right) if r.left[1] < r.right[1]
                             else (r.right, r.left))
            self.rows.append(r)
        self.n, self.u = n, u

    def row_segments(self):
        return np.array([[r.left, r.right] for r in self.rows])

    def first_row_hit(self, p, d, skip=None):
        """(row index, distance) of the nearest row hit by the ray p + t d, t > 0."""
        best = (None, np.inf)
        for k, r in enumerate(self.rows):
            if k == skip:
                continue
            t, s = ray_hit(p, d, r.left, r.right)
            if t is not None and t < best[1]:
                best = (k, t)
        return best

    def margin_row_hit(self, p, d, skip=None):
        """Smallest miss/hit margin: how close the ray passes to any row end (m)."""
        m = np.inf
        dd = d / np.hypot(*d)
        for k, r in enumerate(self.rows):
            if k == skip:
                continue
            for e in (r.left, r.right):
                w = e - p
                if w @ dd > 0:
                    m = min(m, abs(w[0] * dd[1] - w[1] * dd[0]))
        return m


def ray_hit(p, d, a, b):
    """Ray p+t d against segment ab: (t, fraction along ab) or (None, None)."""
    e = b - a
    den = d[0] * e[1] - d[1] * e[0]
    if abs(den) < 1e-15:
        return None, None
    w = a - p
    t = (w[0] * e[1] - w[1] * e[0]) / den
    s = (w[0] * d[1] - w[1] * d[0]) / den
    if t > 1e-12 and -1e-12 <= s <= 1 + 1e-12:
        return t, s
    return None, None


def intervals_union(iv):
    out = []
    for a, b in sorted(iv):
        if b <= a:
            continue
        if out and a <= out[-1][1] + 1e-9:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


# ------------------------------------------------------------- exact view factors

class Target(object):
    """A directed surface: end points, and the outward normal of its visible face."""
    __slots__ = ('p', 'q', 'n', 'row', 'key', 'front')

    def __init__(self, p, q, n, row=None, key=None, front=True):
        self.p, self.q, self.n = np.asarray(p, float), np.asarray(q, float), n
        self.row, self.key, self.front = row, key, front

    @property
    def length(self):
        return float(np.hypot(*(self.q - self.p)))


def _events(scene, src, ends, extra_pts):
    """Parameters along src (0..1) at which the angular order of end points changes."""
    p, e = src.p, src.q - src.p
    obs = []
    for k, r in enumerate(scene.rows):
        if k != src.row:
            obs += [r.left, r.right]
    if not obs:
        return np.array([0.0, 1.0])
    obs = np.array(obs)
    pts = np.array(list(ends) + list(extra_pts))
    # line through o and t, intersected with the line p + s e
    d = pts[None, :, :] - obs[:, None, :]
    w = obs[:, None, :] - p[None, None, :]
    den = e[0] * d[..., 1] - e[1] * d[..., 0]
    with np.errstate(all='ignore'):
        s = (w[..., 0] * d[..., 1] - w[..., 1] * d[..., 0]) / den
    s = s[np.isfinite(s)]
    s = s[(s > 1e-12) & (s < 1 - 1e-12)]
    return np.unique(np.concatenate([[0.0, 1.0], s.ravel()]))


def exact_view_factors(scene, src, targets):
    """View factors from the directed segment src to each target, and to the rest ('sky').

    Exact: between visibility events the integrand is analytic and integrates to
    differences of distances (Hottel's strings, derived by integration).
    src.n is the outward normal. Targets are row faces and ground pieces.
    """
    L = src.length
    out = np.zeros(len(targets) + 1)
    if L <= 0:
        return out
    n = np.asarray(src.n, float) / np.hypot(*src.n)
    u = np.array([n[1], -n[0]])             # theta measured from n towards u
    ends = []
    for t in targets:
        ends += [t.p, t.q]
    for r in scene.rows:
        ends += [r.left, r.right]
    ends += [np.array([XMIN, 0.0]), np.array([XMAX, 0.0])]
    ends = np.array(ends)
    ends = np.unique(np.round(ends, 13), axis=0)
    # only end points in front of the source plane matter (plus the +-90 degree limits)
    h = (ends - src.p) @ n
    ends = ends[h > 1e-12]
    ev = _events(scene, src, ends, [np.array([XMIN, 0.0]), np.array([XMAX, 0.0])])
    rows = [(k, r) for k, r in enumerate(scene.rows) if k != src.row]
    row_t = {}
    gnd_t = []
    for j, t in enumerate(targets):
        if t.row is None:
            gnd_t.append((min(t.p[0], t.q[0]), max(t.p[0], t.q[0]), j))
        else:
            row_t.setdefault((t.row, t.front), []).append((t, j))
    for s0, s1 in zip(ev[:-1], ev[1:]):
        if s1 - s0 < 1e-13:
            continue
        # an irrational fraction: no accidental alignment at the sample point
        pm = src.p + (s0 + 0.41421356 * (s1 - s0)) * (src.q - src.p)
        p0 = src.p + s0 * (src.q - src.p)
        p1 = src.p + s1 * (src.q - src.p)
        w = ends - pm
        th = np.arctan2(w @ u, w @ n)
        order = np.argsort(th)
        th = th[order]
        pe = ends[order]
        # contribution function: integral over [p0,p1] of sin(theta_e) ds
        # sin(theta) = (e-p).u/|e-p| ; p moves along +-u: d|e-p|/ds = -sgn * sin(theta)
        sgn = 1.0 if (src.q - src.p) @ u > 0 else -1.0
        d0 = np.hypot(*(pe - p0).T)
        d1 = np.hypot(*(pe - p1).T)
        # d0 - d1, written without cancellation
        g = ((2.0 * pe - p0 - p1) @ (p1 - p0)) / (d0 + d1) * sgn
        g = np.concatenate([[-(s1 - s0) * L], g, [(s1 - s0) * L]])
        th = np.concatenate([[-np.pi / 2], th, [np.pi / 2]])
        mid = 0.5 * (th[:-1] + th[1:])
        wid = th[1:] - th[:-1]
        val = 0.5 * (g[1:] - g[:-1])
        dirs = np.cos(mid)[:, None] * n[None, :] + np.sin(mid)[:, None] * u[None, :]
        best_t = np.full(len(mid), np.inf)
        best_k = np.full(len(mid), -2)
        best_s = np.zeros(len(mid))
        for k, r in rows:
            e = r.right - r.left
            den = dirs[:, 0] * e[1] - dirs[:, 1] * e[0]
            ww = r.left - pm
            with np.errstate(all='ignore'):
                t = (ww[0] * e[1] - ww[1] * e[0]) / den
                s = (ww[0] * dirs[:, 1] - ww[1] * dirs[:, 0]) / den
            ok = (t > 1e-12) & (s >= 0) & (s <= 1) & (t < best_t)
            best_t = np.where(ok, t, best_t)
            best_k = np.where(ok, k, best_k)
            best_s = np.where(ok, s, best_s)
        with np.errstate(all='ignore'):
            tg = -pm[1] / dirs[:, 1]
        xg = pm[0] + tg * dirs[:, 0]
        isg = (dirs[:, 1] < 0) & (tg < best_t) & (xg >= XMIN) & (xg <= XMAX)
        for i in range(len(mid)):
            if wid[i] < 1e-14:
                continue
            if isg[i]:
                for x0, x1, j in gnd_t:
                    if x0 <= xg[i] <= x1:
                        out[j] += val[i]
                        break
                continue
            k = best_k[i]
            if k == -2:
                out[-1] += val[i]
                continue
            r = scene.rows[k]
            front = (dirs[i] @ r.n) < 0
            x = pm + best_t[i] * dirs[i]
            for t, j in row_t.get((k, front), []):
                lo, hi = sorted([(t.p - r.left) @ r.u, (t.q - r.left) @ r.u])
                if lo <= (x - r.left) @ r.u <= hi:
                    out[j] += val[i]
                    break
    return out / L


def aoi_view(scene, src, targets, faoi, nbins=None):
    """Angular view from the centroid of src: list per target (+sky) of angle intervals.

    Angles are measured from the surface plane (0..180), as faoi functions expect.
    Returns integral of faoi(angle) * sin(angle)/2 d(angle) over each target's view.
    """
    pm = 0.5 * (src.p + src.q)
    n = np.asarray(src.n, float) / np.hypot(*src.n)
    u = np.array([n[1], -n[0]])
    ends = []
    for t in targets:
        ends += [t.p, t.q]
    for r in scene.rows:
        ends += [r.left, r.right]
    ends += [np.array([XMIN, 0.0]), np.array([XMAX, 0.0])]
    ends = np.array(ends)
    w = ends - pm
    ends = ends[(w @ n) > 1e-12]
    w = ends - pm
    th = np.sort(np.concatenate([[-np.pi / 2], np.arctan2(w @ u, w @ n),
                                 [np.pi / 2]]))
    res = [[] for _ in range(len(targets) + 1)]
    for a, b in zip(th[:-1], th[1:]):
        if b - a < 1e-13:
            continue
        m = 0.5 * (a + b)
        d = math.cos(m) * n + math.sin(m) * u
        k, t = scene.first_row_hit(pm, d, skip=src.row)
        j = None
        if d[1] < 0:
            tg = -pm[1] / d[1]
            xg = pm[0] + tg * d[0]
            if tg < t and XMIN <= xg <= XMAX:
                for jj, tt in enumerate(targets):
                    if tt.row is None and min(tt.p[0], tt.q[0]) <= xg <= max(
                            tt.p[0], tt.q[0]):
                        j = jj
                        break
                if j is None:
                    continue
        if j is None:
            if k is None:
                j = len(targets)
            else:
                r = scene.rows[k]
                front = (d @ r.n) < 0
                x = ((pm + t * d) - r.left) @ r.u
                for jj, tt in enumerate(targets):
                    if tt.row == k and tt.front == front:
                        lo, hi = sorted([(tt.p - r.left) @ r.u,
                                         (tt.q - r.left) @ r.u])
                        if lo <= x <= hi:
                            j = jj
                            break
                if j is None:
                    continue
        res[j].append((a, b))
    return res


# ------------------------------------------------------------------- irradiance

def solar_xyz(z, az):
    z, az = rad(z), rad(az)
    return np.array([math.sin(z) * math.sin(az), math.sin(z) * math.cos(az),
                     math.cos(z)])


def cos_aoi(t, back=False):
    s = solar_xyz(t['solar_zenith'], t['solar_azimuth'])
    n = solar_xyz(t['surface_tilt'], t['surface_azimuth'])
    return float(-(s @ n) if back else (s @ n))
