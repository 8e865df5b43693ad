"""Reference irradiance components: published Perez model plus elementary geometry.

Imports neither pvfactors nor pvlib."""
import functools
import math

import numpy as np

from pvcheck import ref

@functools.lru_cache(None)
def _extra(doy):
    """Extraterrestrial irradiance, Spencer (1971), solar constant 1366.1."""
    b = 2.0 * math.pi / 365.0 * (doy - 1)
    return 1366.1 * (1.00011 + 0.034221 * math.cos(b) + 0.00128 * math.sin(b)
                     + 0.000719 * math.cos(2 * b) + 7.7e-05 * math.sin(2 * b))


def _airmass(z):
    """Relative air mass, Kasten and Young (1989)."""
    return 1.0 / (math.cos(math.radians(z)) + 0.50572 * (96.07995 - z) ** -1.6364)


COS85 = math.cos(math.radians(85.0))


class Sky(object):
    """Sky state and per-face components at one timestep."""

    def __init__(self, t, stamp, m):
        self.t, self.m = t, m
        self.dni, self.dhi = t['dni'], t['dhi']
        z = t['solar_zenith']
        self.cosz = math.cos(math.radians(z))
        self.ghi = t.get('ghi', self.dni * self.cosz + self.dhi)
        self.cf = ref.cos_aoi(t)
        self.sun_front = self.cf >= 0
        self.grazing = abs(self.cf) < 1e-9
        s = m.get('module_spacing_ratio', 0.0)
        tr = m.get('module_transparency', 0.0)
        self.leak = s + (1.0 - s) * tr
        self.perez = m['kind'] == 'perez'
        self.albedo = t['albedo']
        self.zeroed, self.totals, self.near_bin = False, (1.0, 1.0), False
        if self.perez:
            extra = _extra(stamp.timetuple().tm_yday)
            am = _airmass(z)
            f1, self.f2 = self._f1_f2(extra, am)
            self.iso = self.dhi * (1.0 - f1)
            self.circ = self.dhi * f1
            self.horizon = abs(self.f2 * math.sin(math.radians(t['surface_tilt'])))
            cap = max(self.cosz, COS85)
            self.circ_front = self.circ * max(self.cf, 0.0) / cap
            self.circ_back = self.circ * max(-self.cf, 0.0) / cap
            tl = math.radians(t['surface_tilt'])
            tot = (self.iso * (1 + math.cos(tl)) / 2 + self.circ_front
                   + self.f2 * math.sin(tl))
            totb = (self.iso * (1 - math.cos(tl)) / 2 + self.circ * max(-self.cf, 0.0) / cap
                    + self.f2 * math.sin(tl))
            self.totals = (tot, totb)
            # pvlib zeroes everything when the total diffuse on the plane is not positive
            self.zeroed = tot <= 1e-9 or (not self.sun_front and totb <= 1e-9)
        else:
            self.iso = self.dhi
            self.circ = self.horizon = self.circ_front = self.circ_back = 0.0
        self.direct_front = self.dni * max(self.cf, 0.0)
        self.direct_back = self.dni * max(-self.cf, 0.0)
        self.direct_ground = self.dni * self.cosz

    def _f1_f2(self, extra, am):
        """F1 (clipped at 0) and DHI * F2, from the published Perez coefficients."""
        z = math.radians(self.t['solar_zenith'])
        if self.dhi <= 0:
            return 0.0, 0.0
        k = 1.041
        eps = ((self.dhi + self.dni) / self.dhi + k * z ** 3) / (1 + k * z ** 3)
        delta = self.dhi * am / extra
        bins = [1.0, 1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2]
        i = max(0, sum(eps >= b for b in bins) - 1)
        self.near_bin = min(abs(eps - b) for b in bins[1:]) < 1e-9
        c = [1.0, delta, z]
        f1 = max(0.0, float(np.dot(_F1[i], c)))
        return f1, self.dhi * float(np.dot(_F2[i], c))

    # ---- components received from the sky by each kind of surface
    def components(self, kind, shaded):
        """direct, circumsolar (before horizon) for ground/front/back, illum/shaded."""
        leak = self.leak if shaded else 1.0
        if kind == 'ground':
            return self.direct_ground * leak, self.circ * leak
        if kind == 'front':
            return self.direct_front * leak, self.circ_front * leak
        return self.direct_back * leak, self.circ_back * leak

    # ---- one-bounce emitters of the fast mode
    def fast_terms(self):
        t = self.t
        tl = math.radians(t['surface_tilt'])
        ghi = self.ghi
        poa = (self.direct_front + self.dhi * (1 + math.cos(tl)) / 2
               + ghi * self.albedo * (1 - math.cos(tl)) / 2)
        if self.perez:
            gs = (self.dhi - self.circ + self.circ * self.leak
                  + self.direct_ground * self.leak)
            ps = (max(poa - self.direct_front - self.circ_front, 0.0)
                  + (self.direct_front + self.circ_front) * self.leak)
        else:
            gs = self.dhi + self.direct_ground * self.leak
            ps = poa - self.direct_front * (1 - self.leak)
        return {'gnd_illum': ghi, 'gnd_shaded': gs, 'pvrow_illum': poa,
                'pvrow_shaded': ps, 'sky': self.iso}


# Perez et al. 1990 coefficients ('allsitescomposite1990')
_F1 = [[-0.008, 0.588, -0.062], [0.13, 0.683, -0.151], [0.33, 0.487, -0.221],
       [0.568, 0.187, -0.295], [0.873, -0.392, -0.362], [1.132, -1.237, -0.412],
       [1.06, -1.6, -0.359], [0.678, -0.327, -0.25]]
_F2 = [[-0.060, 0.072, -0.022], [-0.019, 0.066, -0.029], [0.055, -0.064, -0.026],
       [0.109, -0.152, -0.014], [0.226, -0.462, 0.001], [0.288, -0.823, 0.056],
       [0.264, -1.127, 0.131], [0.156, -1.377, 0.251]]


def horizon_shading_pct(scene, row, centroid, band, n_rows):
    """Share (%) of the horizon band hidden from a back-surface centroid."""
    k = row + 1 if scene.faces < 0 else row - 1      # the row the back looks at
    if scene.t['surface_tilt'] == 0:
        k = row - 1
    if k < 0 or k >= n_rows:
        return 0.0
    h = scene.rows[k].high
    if scene.t['surface_tilt'] == 0:
        h = scene.rows[k].high
    ang = abs(math.degrees(math.atan((h[1] - centroid[1]) / (h[0] - centroid[0]))))
    return 100.0 if ang >= band else 100.0 * ang / band


def skies(case):
    from pvcheck import gen
    return [Sky(t, s, case['model'])
            for t, s in zip(case['times'], gen.timestamps(case['times']))]
