"""C08 results depend on the last inputs only, not on what was run before."""
from hypothesis import strategies as st

import numpy as np
from pvcheck import gen, obs
from pvcheck.core import Facet, close, ensure

RULE = ('Histories of up to 8 operations (fit with one of several inputs, some of them equal '
        'but for one or a few of the series, full run, fast '
        'run of a row/segment) on two engines that share nothing; after every run the '
        'engine is compared with a fresh one given only its last inputs. Non-trivial when '
        'a run follows a re-fit with different inputs or a run of the other mode.')


def variation(draw, times, axis, **kw):
    """The same steps with one or several of the inputs replaced."""
    keys = sorted(times[0])
    one = st.sampled_from(keys).map(lambda k: [k])
    some = draw(st.one_of(one, st.lists(st.sampled_from(keys), min_size=1, unique=True)))
    new = [draw(gen.steps(axis, **kw)) for _ in times]
    return [dict(t, **{k: n[k] for k in some if k in n}) for t, n in zip(times, new)]


@st.composite
def histories(draw):
    eng = []
    for _ in range(draw(st.integers(1, 2))):
        a = draw(gen.arrays(max_rows=3, max_cut=2))
        inputs = []
        for _ in range(draw(st.integers(1, 3))):
            if inputs and draw(st.booleans()):
                inputs.append(variation(draw, inputs[0], a['axis_azimuth']))
                continue
            n = draw(st.integers(1, 3))
            inputs.append([draw(gen.steps(a['axis_azimuth'])) for _ in range(n)])
        eng.append({'array': a, 'model': draw(gen.models()), 'inputs': inputs,
                    'aoi': draw(st.sampled_from([False, False, True]))})
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        e = draw(st.integers(0, len(eng) - 1))
        kind = draw(st.sampled_from(['fit', 'fit', 'full', 'full', 'fast']))
        op = {'e': e, 'op': kind}
        if kind == 'fit':
            op['i'] = draw(st.integers(0, len(eng[e]['inputs']) - 1))
        if kind == 'fast':
            op['row'] = draw(st.integers(0, eng[e]['array']['n_pvrows'] - 1))
            nb = gen.n_cut(eng[e]['array'], op['row'], 'back')
            op['seg'] = draw(st.one_of(st.none(), st.integers(0, nb - 1)))
        ops.append(op)
    if ops[-1]['op'] == 'fit':
        ops.append({'e': ops[-1]['e'], 'op': 'full'})
    return {'engines': eng, 'ops': ops}


def _make(spec, i):
    from pvfactors.viewfactors import VFCalculator
    f = lambda x: np.clip(np.sin(np.deg2rad(x)), 0, 1)  # noqa
    vfc = VFCalculator(f, f, 307) if spec['aoi'] else VFCalculator()
    case = {'array': spec['array'], 'model': spec['model'], 'times': spec['inputs'][i]}
    return gen.make_engine(case, vf_calculator=vfc), case


def _fit(eng, times):
    args, kw = gen.fit_args(times)
    eng.fit(*args, **kw)


def _apply(eng, op):
    if op['op'] == 'full':
        eng.run_full_mode()
    else:
        eng.run_fast_mode(pvrow_index=op['row'], segment_index=op['seg'])


FAST = ['qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
        'reflection_gnd_illum', 'reflection_pvrow_shaded', 'reflection_pvrow_illum']
FULL = ['q0', 'qinc', 'isotropic', 'reflection', 'qabs']
COMP = ['direct', 'rho', 'inv_rho', 'total_perez', 'direct_absorbed']


def history(case, rec):
    live = []
    for spec in case['engines']:
        eng, _ = _make(spec, 0)
        _fit(eng, spec['inputs'][0])
        live.append({'eng': eng, 'i': 0, 'runs': 0, 'fits': 0, 'last': None,
                     'vf': None})
    done = []
    for op in case['ops']:
        spec, st_ = case['engines'][op['e']], live[op['e']]
        done.append(op)
        if op['op'] == 'fit':
            _fit(st_['eng'], spec['inputs'][op['i']])
            st_['fits'] += 1
            rec.tag('refit_after_run', st_['runs'] > 0)
            st_['changed'] = op['i'] != st_['i'] or st_.get('changed')
            st_['i'] = op['i']
            st_['last'] = None
            continue
        _apply(st_['eng'], op)
        rec.nontrivial((st_['runs'] > 0 and st_.get('changed'))
                       or st_['last'] not in (None, op['op']))
        rec.tag('mode_switch', st_['last'] not in (None, op['op']))
        st_['runs'] += 1
        st_['last'] = op['op']
        fresh, _ = _make(spec, st_['i'])
        _fit(fresh, spec['inputs'][st_['i']])
        _apply(fresh, op)
        what = 'after history %s' % done
        keys = FULL if op['op'] == 'full' else FAST
        for x, y in zip(obs.surfaces(st_['eng'].pvarray), obs.surfaces(fresh.pvarray)):
            ok = y.length > obs.TINY
            close(x.length, y.length, 'length of %s %s' % (x.label, what), atol=1e-11)
            for k in COMP + keys:
                v = y.s.params.get(k)
                if v is None:
                    continue              # not computed by this run
                u = x.s.params.get(k)
                ensure(u is not None, '%s of %s missing %s', k, x.label, what)
                one = np.ones(len(ok))
                close((np.asarray(u, float) * one)[ok], (np.asarray(v, float) * one)[ok],
                      '%s of %s %s' % (k, x.label, what), rtol=1e-9, atol=1e-9)
        if op['op'] == 'full':
            close(st_['eng'].pvarray.ts_vf_matrix, fresh.pvarray.ts_vf_matrix,
                  'view factors ' + what, atol=1e-11)
            close(st_['eng'].pvarray.ts_vf_aoi_matrix, fresh.pvarray.ts_vf_aoi_matrix,
                  'view factors with AOI losses ' + what, atol=1e-11)
    rec.tag('two_engines', len(case['engines']) > 1)


@st.composite
def array_histories(draw):
    a = draw(gen.arrays(max_rows=4))
    fits = []
    for _ in range(draw(st.integers(2, 4))):
        if fits and draw(st.booleans()):
            fits.append(variation(draw, fits[-1], a['axis_azimuth'], irr=False))
            continue
        n = draw(st.integers(1, 3))
        fits.append([draw(gen.steps(a['axis_azimuth'], irr=False)) for _ in range(n)])
    return {'array': a, 'fits': fits}


def refit_geometry(case, rec):
    """One array fitted again and again; one calculator reused."""
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    pv = OrderedPVArray.init_from_dict(gen.pv_params(case['array']))
    vfc = VFCalculator()
    for i, times in enumerate(case['fits']):
        pv.fit(*gen.geometry_inputs(times))
        vfc.fit(len(times))
        F = vfc.build_ts_vf_matrix(pv)
        fresh = gen.fit_pvarray({'array': case['array'], 'times': times})
        G = VFCalculator().build_ts_vf_matrix(fresh)
        close(F, G, 'view factors after fit %d' % i, atol=1e-12)
        ensure(pv.n_ts_surfaces == fresh.n_ts_surfaces, 'number of surfaces after fit')
        for x, y in zip(obs.surfaces(pv), obs.surfaces(fresh)):
            close(x.s.coords.as_array, y.s.coords.as_array, 'coordinates after fit %d' % i,
                  atol=1e-12)
    rec.nontrivial(case['fits'][0] != case['fits'][1])


@st.composite
def shared_cases(draw):
    """Several arrays (or one) take turns with one model and one calculator."""
    m = draw(gen.models())
    runs = []
    for _ in range(draw(st.integers(2, 3))):
        c = draw(gen.scenes(max_steps=3, array=gen.arrays(max_rows=4, max_cut=2)))
        c['model'] = m
        c['fast'] = draw(st.integers(0, 2)) == 2
        c['row'] = draw(st.integers(0, c['array']['n_pvrows'] - 1))
        runs.append(c)
    if draw(st.booleans()):
        runs.append(runs[0])
    return {'runs': runs, 'aoi': draw(st.sampled_from([False, True])),
            'calculator': draw(st.sampled_from([True, True, False]))}


def shared(case, rec):
    """A model and a calculator used before for other arrays work as new ones."""
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.engine import PVEngine
    from pvfactors.viewfactors import VFCalculator

    def new_vfc():
        f = lambda x: np.clip(np.sin(np.deg2rad(x)), 0, 1)  # noqa
        return VFCalculator(f, f, 307) if case['aoi'] else VFCalculator()

    model = gen.make_model(case['runs'][0]['model'])
    vfc = new_vfc()
    for i, c in enumerate(case['runs']):
        out = []
        for mod, calc in ((model, vfc if case['calculator'] else new_vfc()),
                          (gen.make_model(c['model']), new_vfc())):
            pv = OrderedPVArray.init_from_dict(gen.pv_params(c['array']))
            eng = PVEngine(pv, vf_calculator=calc, irradiance_model=mod)
            _fit(eng, c['times'])
            _apply(eng, {'op': 'fast' if c['fast'] else 'full', 'row': c['row'],
                         'seg': None})
            out.append(eng)
        for x, y in zip(*(obs.surfaces(e.pvarray) for e in out)):
            ok = y.length > obs.TINY
            close(x.length, y.length, 'run %d: length of %s' % (i, x.label), atol=1e-11)
            ensure(set(x.s.params) == set(y.s.params), 'run %d: %s has %s, with new parts '
                   '%s', i, x.label, sorted(x.s.params), sorted(y.s.params))
            for k in COMP + (FAST if c['fast'] else FULL) + ['horizon', 'circumsolar']:
                v = y.s.params.get(k)
                if v is None:
                    continue
                one = np.ones(len(ok))
                close((np.asarray(x.s.params[k], float) * one)[ok],
                      (np.asarray(v, float) * one)[ok],
                      '%s of %s in run %d, with parts used before' % (k, x.label, i),
                      rtol=1e-9, atol=1e-9)
    rec.nontrivial(len({str(c['array']) for c in case['runs']}) > 1)
    rec.tag('single_row_first', case['runs'][0]['array']['n_pvrows'] == 1)


FACETS = [
    Facet('history', histories, history, 400),
    Facet('refit_geometry', array_histories, refit_geometry, 320),
    Facet('shared', shared_cases, shared, 240),
]
