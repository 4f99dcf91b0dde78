"""Stand-in oversamplers and classifiers with prescribed behaviours.  They are made available as
attributes of smote_variants / of this module, so that the code under test instantiates them by name."""
import hashlib
import json
import os
import time

import numpy as np
from sklearn.linear_model import LogisticRegression

import env

sv = env.load_sv()
from smote_variants.base import OverSampling  # noqa: E402


class _Stub(OverSampling):
    """generates the mean of each minority row and its successor; deterministic"""

    def __init__(self, tag=0, random_state=None, **_kwargs):
        super().__init__(random_state=random_state)
        self.tag = tag

    def get_params(self, deep=False):
        return {"tag": self.tag, **OverSampling.get_params(self)}

    def sampling_algorithm(self, X, y):
        M = X[y == self.min_label]
        G = (M + np.roll(M, 1, axis=0)) / 2 + 0.001 * self.tag
        return np.vstack([X, G]), np.hstack([y, np.repeat(self.min_label, len(G))])


class StubOk(_Stub):
    pass


class StubReduces(_Stub):
    """keeps the odd columns (at least one)"""

    def sampling_algorithm(self, X, y):
        X, y = super().sampling_algorithm(X, y)
        return self.preprocessing_transform(X), y

    def preprocessing_transform(self, X):
        return X[:, ::2] * 2.0


class StubSampleValueError(_Stub):
    def sampling_algorithm(self, X, y):
        raise ValueError("stub sampling failed")


class StubSampleRuntimeError(_Stub):
    def sampling_algorithm(self, X, y):
        raise RuntimeError("stub sampling failed at run time")


class StubTransformValueError(_Stub):
    def preprocessing_transform(self, X):
        raise ValueError("stub transform failed")


class StubTransformRuntimeError(_Stub):
    def preprocessing_transform(self, X):
        raise RuntimeError("stub transform failed at run time")


class StubHangs(_Stub):
    def sampling_algorithm(self, X, y):
        time.sleep(120)
        return super().sampling_algorithm(X, y)


class StubKeyError(_Stub):
    def sampling_algorithm(self, X, y):
        raise KeyError("stub sampling failed")


class ClOk(LogisticRegression):
    pass


class _Cl:
    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y):
        return self

    def predict_proba(self, X):
        return np.ones((len(X), 2)) / 2


class ClFitValueError(_Cl):
    def fit(self, X, y):
        raise ValueError("stub fit failed")


class ClFitRuntimeError(_Cl):
    def fit(self, X, y):
        raise RuntimeError("stub fit failed")


class ClPredictValueError(_Cl):
    def predict_proba(self, X):
        raise ValueError("stub predict failed")


class ClPredictRuntimeError(_Cl):
    def predict_proba(self, X):
        raise RuntimeError("stub predict failed")


# ---- components logging what they compute (C13, C16): to the descriptor or file LOG, before HOOK is called
LOG = None
HOOK = None


def make(spec):
    import importlib
    return getattr(importlib.import_module(spec[0]), spec[1])(**spec[2])


def signature(X, y):
    """a few numbers identifying a labelled dataset, order of its rows included"""
    X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
    w = np.sin(np.arange(1, len(X) + 1))
    return [float(len(X)), float(w @ y), float((w @ X) @ np.cos(np.arange(X.shape[1]))), float(np.abs(X).sum())]


def note(kind, who, X, y):
    fd = LOG
    line = (json.dumps({"kind": kind, "who": who, "sig": signature(X, y)}) + "\n").encode()
    if fd is None and os.environ.get("STUB_LOG"):
        fd = os.open(os.environ["STUB_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, line)
        os.close(fd)
    elif fd is not None:
        os.write(fd, line)
    if HOOK is not None:
        HOOK(kind)


def weight(*parts):
    """a number depending on everything given"""
    return (int(hashlib.md5(repr(parts).encode()).hexdigest()[:6], 16) % 1000) / 1000


def plain(v):
    return json.loads(json.dumps(v))


def logs_sample(cls, tag, opt, X, y):
    M = X[y == 1]
    G = (M + np.roll(M, 1, axis=0)) / 2 + 0.01 * weight(cls, tag, plain(opt))
    return np.vstack([X, G]), np.hstack([y, np.repeat(1, len(G))])


def logs_predict(module, cls, tag, opt, X, y, Xt):
    w = X[y == 1].mean(axis=0) - X[y == 0].mean(axis=0)
    s = Xt @ w
    s = s / (np.abs(s).max() + 1e-9)
    return 1 / (1 + np.exp(-s * (1 + weight(module, cls, tag, plain(opt))) - len(X) * 0.01))


class StubLogs(OverSampling):
    def __init__(self, tag=0, opt=None, random_state=None, **_kwargs):
        super().__init__(random_state=random_state)
        self.tag, self.opt = tag, opt

    def get_params(self, deep=False):
        return {"tag": self.tag, "opt": self.opt, **OverSampling.get_params(self)}

    def sampling_algorithm(self, X, y):
        note("s", [type(self).__name__, self.tag, self.opt], X, y)
        return logs_sample(type(self).__name__, self.tag, self.opt, X, y)


class StubLogsB(StubLogs):
    pass


class ClLogs:
    module = "stubs"

    def __init__(self, tag=0, opt=None):
        self.tag, self.opt = tag, opt

    def fit(self, X, y):
        X, y = np.asarray(X), np.asarray(y)
        note("e", [self.module, type(self).__name__, self.tag, self.opt], X, y)
        self.X, self.y = X, y
        return self

    def predict_proba(self, X):
        p = logs_predict(self.module, type(self).__name__, self.tag, self.opt, self.X, self.y, np.asarray(X))
        return np.vstack([1 - p, p]).T


class ClLogsB(ClLogs):
    pass


OS = {"ok": StubOk, "reduces": StubReduces, "sample ValueError": StubSampleValueError, "sample RuntimeError": StubSampleRuntimeError,
      "transform ValueError": StubTransformValueError, "transform RuntimeError": StubTransformRuntimeError, "hangs": StubHangs, "KeyError": StubKeyError}
CL = {"ok": ClOk, "fit ValueError": ClFitValueError, "fit RuntimeError": ClFitRuntimeError, "predict ValueError": ClPredictValueError,
      "predict RuntimeError": ClPredictRuntimeError}
for _c in [*OS.values(), StubLogs, StubLogsB]:
    setattr(sv, _c.__name__, _c)
