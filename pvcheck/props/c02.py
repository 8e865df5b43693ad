"""C02 view factor matrix: closure, bounds, reciprocity, no impossible views."""
import numpy as np

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Array x timestep geometries are generated; non-trivial when at least two rows '
        'see each other or a surface is clipped by a shadow (some zero-length surfaces).')


def check_matrix(F, pv, case, rec, what='view factor matrix'):
    surfs = obs.surfaces(pv)
    n, T = len(surfs), len(case['times'])
    ensure(F.shape == (n + 1, n + 1, T), '%s: shape %s for %d surfaces, %d steps', what,
           F.shape, n, T)
    ensure(np.all(np.isfinite(F)), '%s: non finite entries', what)
    L = np.zeros((n, T))
    kind, row = {}, {}
    for x in surfs:
        L[x.s.index] = x.length
        kind[x.s.index], row[x.s.index] = x.kind, x.row
    tolL = 1e-9 + 1e-11 / np.maximum(L, 1e-8)
    live = L > obs.TINY
    ensure(np.all(F[:n] >= -tolL[:, None, :]), '%s: negative view factor %r', what,
           float(F[:n].min()))
    ensure(np.all(np.where(live[:, None, :], F[:n], 0) <= 1 + tolL[:, None, :]),
           '%s: view factor above 1: %r', what, float(F[:n].max()))
    rows = F[:n].sum(axis=1)
    close(np.where(live, rows, 1.0), 1.0, '%s: row sum of existing surface' % what,
          atol=1e-9, rtol=0)
    dead = L < 1e-9
    ensure(np.all(np.where(dead, np.abs(F[:n]).sum(axis=1), 0) < 1e-9),
           '%s: a surface of zero length has views', what)
    ensure(np.all(np.where(dead, np.abs(F[:n, :n]).sum(axis=0), 0) < 1e-7),
           '%s: a surface of zero length is seen', what)
    ensure(np.all(F[n] == 0), '%s: the sky row is not zero', what)
    LF = F[:n, :n] * L[:, None, :]
    close(LF, np.swapaxes(LF, 0, 1), '%s: reciprocity L_i F_ij = L_j F_ji' % what,
          atol=1e-9, rtol=1e-7)
    for i in range(n):
        for j in range(n):
            impossible = None
            if kind[i] == 'ground' and kind[j] == 'ground':
                impossible = 'ground sees ground'
            elif kind[i] != 'ground' and kind[j] != 'ground':
                if row[i] == row[j]:
                    impossible = 'a row sees itself'
                elif kind[i] == kind[j]:
                    impossible = 'same-facing sides of parallel rows see each other'
                elif abs(row[i] - row[j]) > 1:
                    impossible = 'a row sees through its neighbour'
            if impossible and np.any(F[i, j] != 0):
                m = float(np.abs(F[i, j]).max())
                ensure(m < 1e-9, '%s: %s (%d -> %d: %r)', what, impossible, i, j, m)
    rec.nontrivial(len(case['array']) and case['array']['n_pvrows'] > 1
                   and bool((L < 1e-9).any()))
    rec.tag('rows>1', case['array']['n_pvrows'] > 1)
    rec.tag('some_tilted', any(t['surface_tilt'] > 0 for t in case['times']))


def closure(case, rec):
    from pvfactors.viewfactors import VFCalculator
    pv = gen.fit_pvarray(case)
    check_matrix(VFCalculator().build_ts_vf_matrix(pv), pv, case, rec)


def after_run(case, rec):
    """The matrix the simulation leaves on the array (also with AOI losses requested)."""
    from pvfactors.viewfactors import VFCalculator
    fa = lambda x: np.clip(0.5 + 0.4 * np.sin(np.deg2rad(x)), 0, 1)  # noqa
    vfc = VFCalculator(fa, fa) if case['aoi'] else VFCalculator()
    eng = gen.run_full(case, vf_calculator=vfc)
    check_matrix(np.asarray(eng.pvarray.ts_vf_matrix), eng.pvarray, case, rec,
                 'view factors after a full run')
    fresh = VFCalculator().build_ts_vf_matrix(gen.fit_pvarray(case))
    close(eng.pvarray.ts_vf_matrix, fresh, 'view factors after a full run vs geometry '
          'alone', atol=1e-12, rtol=1e-12)
    rec.tag('aoi', case['aoi'])


def run_cases():
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.runs(max_steps=2))
        c['aoi'] = draw(st.booleans())
        return c
    return s()


FACETS = [
    Facet('closure', lambda: gen.scenes(max_steps=4, irr=False), closure, 800),
    Facet('after_run', run_cases, after_run, 320),
]
