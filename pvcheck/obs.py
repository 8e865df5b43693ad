"""Observation of the real objects through their public attributes only."""
import numpy as np

from pvcheck import ref

TINY = 1e-7          # surfaces shorter than this are not inspected individually


class Surf(object):
    __slots__ = ('s', 'kind', 'row', 'seg', 'shaded', 'el')

    def __init__(self, s, kind, shaded, row=None, seg=None, el=None):
        self.s, self.kind, self.shaded = s, kind, shaded
        self.row, self.seg, self.el = row, seg, el

    @property
    def length(self):
        return np.asarray(self.s.length, float)

    def ends(self, t):
        return np.asarray(self.s.coords.at(t), float)

    @property
    def label(self):
        if self.kind == 'ground':
            return 'ground[%s el %s]' % ('shaded' if self.shaded else 'illum', self.el)
        return 'row %s %s seg %s [%s]' % (self.row, self.kind, self.seg,
                                          'shaded' if self.shaded else 'illum')


def surfaces(pvarray):
    """All timeseries surfaces, classified by where they sit in the hierarchy."""
    out = []
    g = pvarray.ts_ground
    for i, el in enumerate(g.shadow_elements):
        out += [Surf(s, 'ground', True, el=i) for s in el.all_ts_surfaces]
    for i, el in enumerate(g.illum_elements):
        out += [Surf(s, 'ground', False, el=i) for s in el.all_ts_surfaces]
    for k, row in enumerate(pvarray.ts_pvrows):
        for kind, side in (('front', row.front), ('back', row.back)):
            for j, seg in enumerate(side.list_segments):
                out += [Surf(s, kind, False, k, j) for s in seg.illum.list_ts_surfaces]
                out += [Surf(s, kind, True, k, j) for s in seg.shaded.list_ts_surfaces]
    return out


def targets(surfs, scene, t):
    out = []
    for x in surfs:
        e = x.ends(t)
        if x.kind == 'ground':
            out.append(ref.Target(e[0], e[1], np.array([0.0, 1.0])))
        else:
            f = x.kind == 'front'
            out.append(ref.Target(e[0], e[1], scene.n if f else -scene.n, row=x.row,
                                  front=f))
    return out


def tol(length, base=1e-9):
    """Comparison tolerance for quantities obtained by dividing by a length."""
    return base + 1e-12 / np.maximum(length, 1e-9)


RESULT_KEYS = ('q0', 'qinc', 'isotropic', 'reflection', 'qabs')


def params_of(surf, keys):
    return {k: np.array(surf.s.get_param(k), dtype=float) for k in keys}


def dump_results(pvarray, keys=RESULT_KEYS):
    """{surface position: {key: array}} for every surface (missing keys skipped)."""
    out = []
    for x in surfaces(pvarray):
        d = {'length': np.array(x.length)}
        for k in keys:
            v = x.s.params.get(k)
            if v is not None and not isinstance(v, dict):
                d[k] = np.array(v, dtype=float)
        out.append(d)
    return out


def ref_vf_matrix(case, pvarray, t):
    """Complete reference view-factor matrix at step t (surface order; sky last)."""
    scene = ref.Scene(case['array'], case['times'][t])
    surfs = surfaces(pvarray)
    tg = targets(surfs, scene, t)
    n = len(tg)
    F = np.zeros((n + 1, n + 1))
    L = np.array([x.length for x in tg])
    for i, x in enumerate(tg):
        if x.row is not None and L[i] > 1e-8:
            F[i] = ref.exact_view_factors(scene, x, tg)
    for i, x in enumerate(tg):
        if x.row is None and L[i] > 1e-8:
            F[i, :n] = F[:n, i] * L / L[i]
            F[i, n] = 1.0 - F[i, :n].sum()
    return F, surfs, L, scene
