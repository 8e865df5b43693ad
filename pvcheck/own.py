"""Classes a user could give to the run functions: they note on the array who worked on
it, and the report shows the notes (importable by name, as the worker processes need)."""
from pvfactors.engine import PVEngine
from pvfactors.geometry import OrderedPVArray
from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
from pvfactors.viewfactors import VFCalculator


def note(pvarray, who):
    pvarray.notes = getattr(pvarray, 'notes', []) + [who]


class OwnArray(OrderedPVArray):
    def fit(self, *a, **k):
        super(OwnArray, self).fit(*a, **k)
        note(self, 'array')


class OwnEngine(PVEngine):
    def fit(self, *a, **k):
        super(OwnEngine, self).fit(*a, **k)
        note(self.pvarray, 'engine')


class OwnPerez(HybridPerezOrdered):
    def transform(self, pvarray):
        note(pvarray, 'model')
        return super(OwnPerez, self).transform(pvarray)


class OwnIso(IsotropicOrdered):
    def transform(self, pvarray):
        note(pvarray, 'model')
        return super(OwnIso, self).transform(pvarray)


class OwnVF(VFCalculator):
    def build_ts_vf_matrix(self, pvarray):
        note(pvarray, 'vf')
        return super(OwnVF, self).build_ts_vf_matrix(pvarray)


class NotesBuilder(object):
    """Used as an instance: what the user stored in it goes along to the workers."""

    def __init__(self, label):
        self.label = label

    def build(self, pvarray):
        return {'label': self.label, 'class': type(pvarray).__name__,
                'notes': sorted(set(getattr(pvarray, 'notes', []))),
                'steps': int(pvarray.n_states)}

    def merge(self, reports):
        return [self.label] + list(reports)
