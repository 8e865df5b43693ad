"""C03 view factors equal exact visibility integrals (independent reference)."""
import numpy as np

from pvcheck import gen, obs, ref
from pvcheck.core import Facet, ensure

RULE = ('Array x timestep geometries; every existing row surface is compared with the '
        'exact visibility integral (tolerance 1e-7). Non-trivial when some view of the '
        'ground or of a row is partly hidden by a neighbouring row (2+ rows, tilted).')


def against_visibility(case, rec):
    from pvfactors.viewfactors import VFCalculator
    pv = gen.fit_pvarray(case)
    F = VFCalculator().build_ts_vf_matrix(pv)
    for t in gen.some_steps(case['times']):
        scene = ref.Scene(case['array'], case['times'][t])
        surfs = obs.surfaces(pv)
        tg = obs.targets(surfs, scene, t)
        n = len(tg)
        idx = [x.s.index for x in surfs]
        for i, x in enumerate(tg):
            if x.row is None or x.length < 1e-6:
                continue
            e = ref.exact_view_factors(scene, x, tg)
            got = np.concatenate([F[idx[i], idx, t], [F[idx[i], n, t]]])
            d = np.abs(got - e)
            # zero-length targets are not located by the reference
            d[:n][np.array([y.length for y in tg]) < 1e-8] = 0
            j = int(d.argmax())
            ensure(d[j] < 1e-7 + 1e-12 / x.length,
                   'step %d: %s sees %s with %r, exact visibility gives %r', t,
                   surfs[i].label, surfs[j].label if j < n else 'sky', float(got[j]),
                   float(e[j]))
        # what the ground sees, by reciprocity with the exact values above
        rec.nontrivial(case['array']['n_pvrows'] > 1
                       and case['times'][t]['surface_tilt'] > 1)
        rec.tag('tilt0', case['times'][t]['surface_tilt'] == 0)
        rec.tag('tilt90', case['times'][t]['surface_tilt'] == 90)
        rec.tag('rows>2', case['array']['n_pvrows'] > 2)


FACETS = [
    Facet('against_visibility', lambda: gen.scenes(max_steps=2, irr=False),
          against_visibility, 1200),
]
