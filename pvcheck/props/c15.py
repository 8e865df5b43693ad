"""C15 cutting row sides into segments only refines the result."""
import numpy as np
from hypothesis import strategies as st

from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('A generated array and the same array with every side cut `k` times finer; '
        'non-trivial when some side is refined and some row is tilted.')


@st.composite
def geo_cases(draw):
    c = draw(gen.scenes(max_steps=3, array=gen.arrays(max_rows=4, max_cut=2), irr=False))
    return _factors(draw, c)


@st.composite
def run_cases(draw):
    c = draw(gen.runs(max_steps=2, array=gen.arrays(max_rows=4, max_cut=2)))
    return _factors(draw, c)


def _factors(draw, c):
    n = c['array']['n_pvrows']
    c['k'] = [[draw(st.sampled_from([1, 2, 3, 4])) for _ in range(2)] for _ in range(n)]
    if all(k == [1, 1] for k in c['k']):
        c['k'][draw(st.integers(0, n - 1))][draw(st.integers(0, 1))] = 2
    return c


def refined(case):
    a = dict(case['array'])
    a['cut'] = {str(i): {'front': gen.n_cut(a, i, 'front') * k[0],
                         'back': gen.n_cut(a, i, 'back') * k[1]}
                for i, k in enumerate(case['k'])}
    return dict(case, array=a)


def parents(case, coarse, fine):
    """{index of coarse surface: [indices of the fine surfaces it is cut into]}"""
    a = case['array']
    key = {}
    g = 0
    for x in coarse:
        if x.kind == 'ground':
            key[('g', g)] = x.s.index
            g += 1
        else:
            key[(x.row, x.kind, x.seg, x.shaded)] = x.s.index
    out = {i: [] for i in key.values()}
    g = 0
    for x in fine:
        if x.kind == 'ground':
            k = ('g', g)
            g += 1
        else:
            f = case['k'][x.row][0 if x.kind == 'front' else 1]
            k = (x.row, x.kind, x.seg // f, x.shaded)
            assert x.seg // f < gen.n_cut(a, x.row, x.kind)
        out[key[k]].append(x.s.index)
    return out


def _setup(case, rec, p1, p2):
    s1, s2 = obs.surfaces(p1), obs.surfaces(p2)
    ensure(sum(x.kind == 'ground' for x in s1) == sum(x.kind == 'ground' for x in s2),
           'cutting the rows changed the number of ground surfaces')
    pa = parents(case, s1, s2)
    T = len(case['times'])
    L1, L2 = np.zeros((len(s1), T)), np.zeros((len(s2), T))
    for x in s1:
        L1[x.s.index] = x.length
    for x in s2:
        L2[x.s.index] = x.length
    rec.nontrivial(len(s2) > len(s1)
                   and any(t['surface_tilt'] > 0 for t in case['times']))
    rec.tag('shaded', any(x.kind != 'ground' and x.shaded and np.any(x.length > 1e-3)
                          for x in s1))
    return s1, s2, pa, L1, L2


def geometry(case, rec):
    from pvfactors.viewfactors import VFCalculator
    c2 = refined(case)
    p1, p2 = gen.fit_pvarray(case), gen.fit_pvarray(c2)
    s1, s2, pa, L1, L2 = _setup(case, rec, p1, p2)
    by2 = {x.s.index: x for x in s2}
    for x in s1:
        i = x.s.index
        close(L2[pa[i]].sum(axis=0), L1[i], 'total length of the pieces of %s' % x.label,
              atol=1e-8)
        if x.kind == 'ground':
            for t in range(L1.shape[1]):
                close(by2[pa[i][0]].ends(t), x.ends(t), 'ends of %s' % x.label, atol=1e-9)
    for r1, r2 in zip(p1.ts_pvrows, p2.ts_pvrows):
        for n in ('front', 'back'):
            a, b = getattr(r1, n), getattr(r2, n)
            close(b.length, a.length, 'length of row %d %s' % (r1.index, n), atol=1e-8)
            close(b.shaded_length, a.shaded_length, 'shaded length of row %d %s'
                  % (r1.index, n), atol=1e-8)
    F1 = VFCalculator().build_ts_vf_matrix(p1)
    F2 = VFCalculator().build_ts_vf_matrix(p2)
    n1, n2 = len(s1), len(s2)
    # aggregate destinations (sum) then sources (length weighted)
    A = np.zeros((n2 + 1, n1 + 1, F1.shape[2]))
    for j, kids in pa.items():
        A[:, j] = F2[:, kids].sum(axis=1)
    A[:, n1] = F2[:, n2]
    for x in s1:
        i = x.s.index
        got = (A[pa[i]] * L2[pa[i]][:, None, :]).sum(axis=0)
        want = F1[i] * L1[i]
        close(got, want, 'light sent to each surface by the pieces of %s' % x.label,
              atol=2e-8, rtol=0)


def fast(case, rec):
    e1, e2 = gen.fit_engine(case), gen.fit_engine(refined(case))
    s1, s2, pa, L1, L2 = _setup(case, rec, e1.pvarray, e2.pvarray)
    for k in range(case['array']['n_pvrows']):
        e1.run_fast_mode(pvrow_index=k)
        e2.run_fast_mode(pvrow_index=k)
    perez = case['model']['kind'] == 'perez'
    by2 = {x.s.index: x for x in s2}
    T = L1.shape[1]
    for x in s1:
        if x.kind != 'back':
            continue
        i = x.s.index
        for key in ('isotropic', 'reflection', 'reflection_gnd_shaded',
                    'reflection_gnd_illum', 'reflection_pvrow_shaded',
                    'reflection_pvrow_illum', 'direct') + (
                        ('circumsolar',) if perez else ('qinc',)):
            got = sum(L2[j] * np.asarray(by2[j].s.params[key], float) * np.ones(T)
                      for j in pa[i])
            want = L1[i] * np.asarray(x.s.params[key], float)
            close(got, want, '%s received by the pieces of %s' % (key, x.label),
                  atol=1e-5, rtol=1e-8)
        if perez:            # what is left is the horizon light, never negative
            h = lambda y, l: l * (np.asarray(y.s.params['qinc'], float)
                                  - np.asarray(y.s.params['horizon'], float))
            close(sum(h(by2[j], L2[j]) for j in pa[i]), h(x, L1[i]),
                  'light without horizon light received by the pieces of %s' % x.label,
                  atol=1e-5, rtol=1e-8)


def full(case, rec):
    e1, e2 = gen.run_full(case), gen.run_full(refined(case))
    s1, s2, pa, L1, L2 = _setup(case, rec, e1.pvarray, e2.pvarray)
    by2 = {x.s.index: x for x in s2}
    T = L1.shape[1]
    keys = ['isotropic', 'direct']
    if case['model']['kind'] == 'perez':
        keys.append('circumsolar')
    for x in s1:
        i = x.s.index
        for key in keys:
            got = sum(L2[j] * np.asarray(by2[j].s.params[key], float) * np.ones(T)
                      for j in pa[i])
            want = L1[i] * np.asarray(x.s.params[key], float)
            close(got, want, '%s received by the pieces of %s' % (key, x.label),
                  atol=1e-5 + 1e-7 * L1[i].max(), rtol=1e-8)


FACETS = [
    Facet('geometry', geo_cases, geometry, 800),
    Facet('fast', run_cases, fast, 480),
    Facet('full', run_cases, full, 240),
]
