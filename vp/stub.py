"""A deterministic stand-in data labeler (no model files): labels by simple, documented rules."""
import numpy as np

from dataprofiler.labelers.base_data_labeler import BaseDataLabeler

LABELS = ["UNKNOWN", "INT", "WORD", "OTHER"]


def rule(cell):
    s = str(cell)
    if s.lstrip("-").isdigit():
        return "INT"
    if s.isalpha():
        return "WORD"
    return "OTHER" if s.strip() else "UNKNOWN"


def conf(cell):
    """confidences over LABELS: the rule's label gets 0.7, the rest share 0.3"""
    k = LABELS.index(rule(cell))
    v = np.full(len(LABELS), 0.1)
    v[k] = 0.7
    return v


class _Model:
    def __init__(self):
        self.requires_zero_mapping = False
        self.num_labels = len(LABELS)
        self.label_mapping = {l: i for i, l in enumerate(LABELS)}
        self.reverse_label_mapping = {i: l for i, l in enumerate(LABELS)}


class StubLabeler(BaseDataLabeler):
    """only what a profile needs of a labeler"""

    def __init__(self, marker=0):
        self._default_model_loc = "structured_model"
        self.marker = marker
        self.calls = []

    @property
    def model(self):
        return _Model()

    @property
    def label_mapping(self):
        return self.model.label_mapping

    @property
    def reverse_label_mapping(self):
        return self.model.reverse_label_mapping

    @property
    def labels(self):
        return list(LABELS)

    def predict(self, data, batch_size=32, predict_options=None, error_on_mismatch=False, verbose=True):
        cells = list(data)
        self.calls.append(len(cells))
        return {"pred": np.array([LABELS.index(rule(c)) for c in cells]),
                "conf": np.array([conf(c) for c in cells]).reshape(len(cells), len(LABELS))}

    def __eq__(self, o):
        return isinstance(o, StubLabeler) and o.marker == self.marker

    __hash__ = object.__hash__
