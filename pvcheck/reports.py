"""Picklable report builders and fAOI functions used by the checks."""
import numpy as np


def faoi(angles):
    """Incidence modifier by angle from the surface plane (0..180)."""
    return np.sin(np.deg2rad(np.asarray(angles, float))) ** 0.5


KEYS = ('qinc', 'isotropic', 'reflection', 'q0', 'qabs', 'direct', 'circumsolar',
        'horizon', 'rho', 'total_perez')


def build_everything(pvarray):
    """Every numeric result of every surface with a length, per step, as flat lists."""
    out = {}
    for i, s in enumerate(pvarray.all_ts_surfaces):
        ln = np.asarray(s.length, float)
        n = len(ln)
        out['%d.length' % i] = ln.tolist()
        for k in KEYS:
            v = s.params.get(k)
            if v is None or isinstance(v, dict):
                continue
            v = np.where(ln > 1e-5, np.asarray(v, float) * np.ones(n), 0.0)
            out['%d.%s' % (i, k)] = v.tolist()
    for r in pvarray.ts_pvrows:
        for name, side in (('front', r.front), ('back', r.back)):
            out['row%d.%s.shaded' % (r.index, name)] = (
                np.asarray(side.shaded_length) * np.ones(pvarray.n_states)).tolist()
            if all(s.params.get('qinc') is not None for s in side.all_ts_surfaces):
                out['row%d.%s.qinc' % (r.index, name)] = np.asarray(
                    side.get_param_weighted('qinc')).tolist()
    return out


class Builder(object):
    @staticmethod
    def build(pvarray):
        return build_everything(pvarray)

    @staticmethod
    def merge(reports):
        # folds without steps report empty lists; keys are those of the first fold
        out = {}
        for r in reports:
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        return out


class FlatBuilder(object):
    @staticmethod
    def build(pvarray):
        return build_everything(pvarray)

    @staticmethod
    def merge(reports):
        return list(reports)
