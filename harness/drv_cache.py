"""Driver for C13: histories of evaluations, jobs, crashes, damages and clean-ups on a scratch cache.
Every operation runs in a forked child, crashes are real process deaths: at a computation, within a write
(RLIMIT_FSIZE with the default SIGXFSZ), before a flush, before or after a rename or a removal."""
import copy
import glob
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import traceback
import warnings

import numpy as np
from sklearn.model_selection import RepeatedStratifiedKFold

import env

sv = env.load_sv()
import stubs  # noqa: E402
import stubs_b  # noqa: E402,F401
from smote_variants import evaluation as ev  # noqa: E402
from smote_variants.evaluation import Folding, SamplingJob, EvaluationJob, do_clean_up, evaluate_oversamplers  # noqa: E402

STD = ("sklearn.preprocessing", "StandardScaler", {})
VARIATIONS = ["scaler", "scaler params", "no scaler", "data", "labels", "rows", "seed", "splits", "repeats", "name", "prefix name", "ser", "swap", "same"]
OSS = [[("smote_variants", "StubLogs", {"tag": 1}), ("smote_variants", "StubLogs", {"tag": 2})],
       [("smote_variants", "StubLogs", {"tag": 1}), ("smote_variants", "StubLogsB", {"tag": 1})],
       [("smote_variants", "StubLogs", {"tag": 12}), ("smote_variants", "StubLogs", {"tag": 1, "opt": "2"})],
       [("smote_variants", "StubLogsB", {"tag": 1, "opt": {"p": 1, "q": 2}}), ("smote_variants", "StubLogsB", {"tag": 1, "opt": {"p": 2, "q": 1}})],
       [("smote_variants", "StubLogs", {}), ("smote_variants", "StubLogs", {"tag": 3, "opt": [1, 2]})]]
CLS = [[("stubs", "ClLogs", {"tag": 1}), ("stubs", "ClLogs", {"tag": 2})],
       [("stubs", "ClLogs", {"tag": 1}), ("stubs", "ClLogsB", {"tag": 1})],
       [("stubs", "ClLogs", {"tag": 1}), ("stubs_b", "ClLogs", {"tag": 1})],
       [("stubs", "ClLogs", {"tag": 1, "opt": {"a": 1}}), ("stubs", "ClLogs", {"tag": 1, "opt": {"a": 2}})],
       [("stubs", "ClLogs", {}), ("stubs", "ClLogs", {"tag": 11})]]


class Ctx:
    """A context with the independently computed contents of all its results."""

    def __init__(self, label, name, X, y, vp, scaler, ser, oss, cls):
        self.label, self.name, self.X, self.y, self.vp, self.scaler, self.ser = label, name, X, y, vp, scaler, ser
        self.folds, self.samp, self.eval = {}, {}, {}
        for i, (tr, te) in enumerate(RepeatedStratifiedKFold(**vp).split(X, y, y)):
            f = f"{i // vp['n_splits']}_{i % vp['n_splits']}"
            self.folds[f] = dict(X_train=X[tr], y_train=y[tr], X_test=X[te], y_test=y[te])
            Xt, Xe = X[tr], X[te]
            if scaler is not None:
                s = stubs.make(scaler)
                s.fit(Xt)
                Xt, Xe = s.transform(Xt), s.transform(Xe)
            for a, o in enumerate(oss):
                Xs, ys = stubs.logs_sample(o[1], o[2].get("tag", 0), o[2].get("opt"), Xt, y[tr])
                self.samp[f, a] = dict(X_train=Xs, y_train=ys, X_test=Xe, y_test=y[te], inp=stubs.signature(Xt, y[tr]), sig=stubs.signature(Xs, ys))
                for b, c in enumerate(cls):
                    self.eval[f, a, b] = dict(y_pred=stubs.logs_predict(c[0], c[1], c[2].get("tag", 0), c[2].get("opt"), Xs, ys, Xe), y_test=y[te])

    def dataset(self):
        return {"data": self.X.copy(), "target": self.y.copy(), "name": self.name, "DESCR": "d"}


def contexts(t, rnd, oss, cls):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    nmin, nmaj, d = r.randint(6, 9), r.randint(11, 15), r.randint(2, 4)
    X = np.round(np.vstack([r.normal(size=(nmaj, d)), r.normal(size=(nmin, d)) + 1]) * 10 ** r.uniform(-1, 3, size=d), 6)
    y = np.array([0] * nmaj + [1] * nmin)
    p = r.permutation(len(y))
    X, y = X[p], y[p]
    base = dict(name=rnd.choice(["db", "db-1_vs_2", "d[b]1", "d b*"]), X=X, y=y, vp={"n_repeats": rnd.choice([1, 1, 2]), "n_splits": 2, "random_state": 5}, scaler=STD, ser=t["ser"])
    two = dict(base)
    v = t["variation"]
    if v == "scaler":
        two["scaler"] = ("sklearn.preprocessing", "MinMaxScaler", {})
    elif v == "scaler params":
        two["scaler"] = ("sklearn.preprocessing", "StandardScaler", {"with_mean": False})
    elif v == "no scaler":
        two["scaler"] = None
    elif v == "data":
        Z = X.copy()
        Z[r.randint(len(Z)), r.randint(d)] += 0.5 * X.std()
        two["X"] = Z
    elif v == "swap":    # two rows exchanged: the same content in another order
        i, j = np.where(y == 0)[0][:2]
        Z = X.copy()
        Z[[i, j]] = Z[[j, i]]
        two["X"] = Z
    elif v == "labels":
        i, j = np.where(y == 0)[0][0], np.where(y == 1)[0][0]
        z = y.copy()
        z[i], z[j] = 1, 0
        two["y"] = z
    elif v == "rows":
        k = np.where(y == 0)[0][-1]
        two["X"], two["y"] = np.delete(X, k, axis=0), np.delete(y, k)
    elif v == "seed":
        two["vp"] = {**base["vp"], "random_state": 11}
    elif v == "splits":
        two["vp"] = {**base["vp"], "n_splits": 3}
    elif v == "repeats":
        two["vp"] = {**base["vp"], "n_repeats": 3}
    elif v == "name":
        two["name"] = "other"
    elif v == "prefix name":
        two["name"] = base["name"] + "2"
    elif v == "ser":
        two["ser"] = {"json": "pickle", "pickle": "json"}[t["ser"]]
    pair = [Ctx("1", oss=oss, cls=cls, **base)]
    pair.append(pair[0] if v == "same" else Ctx("2", oss=oss, cls=cls, **two))
    return pair


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(np.abs(b).max()) if b.size else 1.0)))


def subset(small, big):
    return all(k in big and big[k] == v for k, v in json.loads(json.dumps(small)).items())


class History:
    def __init__(self, t):
        self.t = t
        self.rnd = random.Random(t["seed"])
        self.oss, self.cls = OSS[t["seed"] % len(OSS)], CLS[(t["seed"] // len(OSS)) % len(CLS)]
        self.ctx = contexts(t, self.rnd, self.oss, self.cls)
        self.tmp = tempfile.mkdtemp(prefix="verif_cache_")
        self.cache = os.path.join(self.tmp, "cache")
        self.paths = {}      # file -> result it was seen to hold
        self.hurt = set()    # files damaged by the history and not rewritten since

    def key(self, kind, x, f, a, b=None):
        return [kind, x.name, self.label(x, f), f, f"o{a}", "none" if b is None else f"c{b}"]

    def label(self, x, f):
        """folds of the same content and scaling are the same context (more repetitions of the same splits)"""
        c = self.ctx[0]
        same = x is not c and f in c.folds and (x.name, x.ser, x.scaler) == (c.name, c.ser, c.scaler) and all(np.array_equal(c.folds[f][k], x.folds[f][k]) for k in c.folds[f])
        return c.label if same else x.label

    # ----------------------------------------------------------- running operations
    def child(self, fn, crash):
        """run fn in a forked child; (outcome, value, log)"""
        side = os.path.join(self.tmp, "log")     # of processes which are not forks of the child
        r, w = os.pipe()
        lr, lw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.close(r)
            os.close(lr)
            code = 3
            try:
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                stubs.LOG = lw
                os.environ["STUB_LOG"] = side
                arm(crash)
                try:
                    val = fn()
                    out = pickle.dumps(("done", val))
                except Exception:  # noqa
                    out = pickle.dumps(("raised", traceback.format_exc()[-800:]))
                disarm()
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        os.close(lw)
        got = {}

        def reader(fd):
            with os.fdopen(fd, "rb") as f:
                got[fd] = f.read()
        ths = [threading.Thread(target=reader, args=(fd,)) for fd in (r, lr)]
        for th in ths:
            th.start()
        os.waitpid(pid, 0)
        try:    # workers left behind by a process which did not get to its end
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        for th in ths:
            th.join()
        raw = got[r]
        out, val = pickle.loads(raw) if raw else ("crash", None)
        lines = got[lr].decode().splitlines()
        if os.path.exists(side):
            with open(side) as f:
                lines += f.read().splitlines()
            os.remove(side)
        return out, val, [json.loads(x) for x in lines]

    def made(self, log):
        """the computations logged, as results"""
        out = []
        for e in log:
            found = None
            for x in ({c.label: c for c in self.ctx}).values():
                for (f, a), s in x.samp.items():
                    o = self.oss[a]
                    if e["kind"] == "s" and [o[1], o[2].get("tag", 0), o[2].get("opt")] == e["who"] and near(e["sig"], s["inp"]):
                        found = self.key("s", x, f, a)
                    elif e["kind"] == "e" and near(e["sig"], s["sig"]):
                        for b, c in enumerate(self.cls):
                            if [c[0], c[1], c[2].get("tag", 0), c[2].get("opt")] == e["who"]:
                                found = self.key("e", x, f, a, b)
                if found:
                    break
            # contexts differing only in what a result does not depend on (serialisation, name) are told apart by the request
            out.append(found or ["unknown", "", "", "", "", ""])
        return out

    def relabel(self, keys, x):
        """computations are attributed to the requested context if they agree with it"""
        res = []
        for k in keys:
            if k[0] in "se" and k[2] != self.label(x, k[3]):
                other = [c for c in self.ctx if c.label == k[2]][0]
                a = int(k[4][1:])
                s, o = x.samp.get((k[3], a)), other.samp[k[3], a]
                if s is not None and near(s["inp"] if k[0] == "s" else s["sig"], o["inp"] if k[0] == "s" else o["sig"]):
                    k = [k[0], x.name, self.label(x, k[3]), *k[3:]]
            res.append(k)
        return res

    def eval_key(self, x, res):
        """(requested result the served evaluation claims to be, is its content right)"""
        d = res["fold_descriptor"]
        f = f"{d['repeat_idx']}_{d['fold_idx']}"
        for a, o in enumerate(self.oss):
            for b, c in enumerate(self.cls):
                if (res["oversampler"] == o[1] and full(o[2]) == {k: res["oversampler_params"].get(k) for k in ("tag", "opt")}
                        and res["classifier_module"] == c[0] and res["classifier"] == c[1] and json.loads(json.dumps(c[2])) == json.loads(json.dumps(res["classifier_params"]))
                        and d["name"] == x.name and (f, a, b) in x.eval):
                    ref = x.eval[f, a, b]
                    return self.key("e", x, f, a, b), near(res["y_pred"], ref["y_pred"]) and near(res["y_test"], ref["y_test"]) and res["error"] is None
        return ["unknown", x.name, x.label, f, "", ""], False

    def samp_key(self, x, res, a):
        d = res["fold_descriptor"]
        f = f"{d['repeat_idx']}_{d['fold_idx']}"
        if (f, a) not in x.samp:
            return ["unknown", x.name, x.label, f, "", ""], False
        ref = x.samp[f, a]
        return self.key("s", x, f, a), all(near(res[k], ref[k]) for k in ("X_train", "y_train", "X_test", "y_test")) and res["error"] is None \
            and res["oversampler"].get("class_name", self.oss[a][1]) == self.oss[a][1] and full(self.oss[a][2]) == {k: res["oversampler"].get(k) for k in ("tag", "opt")}

    def served(self, x, files, a=None):
        out, right = [], True
        for fn in files:
            try:
                res = load(fn)
                k, ok = self.eval_key(x, res) if a is None else self.samp_key(x, res, a)
            except Exception:  # noqa
                k, ok = ["unreadable", "", "", "", "", ""], False
            if ok:
                self.paths[os.path.realpath(fn)] = k
                if a is None and res.get("oversampling_filname"):
                    self.paths.setdefault(os.path.realpath(res["oversampling_filname"]), ["s", *k[1:5], "none"])
            out.append(k)
            right = right and ok
        return out, right

    # ------------------------------------------------------------------- operations
    def op_run(self, o):
        x = self.ctx[o["x"] - 1]
        oi = [0, 1] if o["os"] == "all" else [self.rnd.randint(0, 1)]
        ci = [0, 1] if o["cls"] == "all" else [self.rnd.randint(0, 1)]
        want = [self.key("s", x, f, a) for f in x.folds for a in oi] + [self.key("e", x, f, a, b) for f in x.folds for a in oi for b in ci]
        crash = self.crash(o, len(want))

        def fn():
            return evaluate_oversamplers(datasets=[x.dataset()], oversamplers=copy.deepcopy([self.oss[a] for a in oi]), classifiers=copy.deepcopy([self.cls[b] for b in ci]),
                                         cache_path=self.cache, validator_params=dict(x.vp), scaler=x.scaler, serialization=x.ser, clean_up=o["clean"], n_jobs=o.get("n_jobs", 1),
                                         parse_results=False, verbosity=0)
        out, val, log = self.child(fn, crash)
        served, right = self.served(x, val) if out == "done" else ([], True)
        return dict(op="run", d=x.name, want=want, reset=[], made=self.relabel(self.made(log), x), served=served, right=right, out=out, clean=o["clean"], err=val if out == "raised" else "")

    def op_job(self, o):
        x = self.ctx[o["x"] - 1]
        f, a = self.rnd.choice(sorted(x.folds)), self.rnd.randint(0, 1)
        ci = [0, 1] if self.rnd.random() < 0.7 else [self.rnd.randint(0, 1)]
        want = [self.key("s", x, f, a)] + [self.key("e", x, f, a, b) for b in ci]
        crash = self.crash(o, len(want))
        d = os.path.join(self.cache, x.name)

        def fn():
            folding = Folding(x.dataset(), serialization=x.ser, cache_path=self.cache, validator_params=dict(x.vp))
            n = list(x.folds).index(f)
            fold = folding.folding_files()[n] if o["source"] == "file" else list(folding.fold())[n]
            s = SamplingJob(fold, self.oss[a][1], copy.deepcopy(self.oss[a][2]), scaler=x.scaler, cache_path=d, serialization=x.ser, reset=o["reset"] in ("s", "both")).do_oversampling()
            src = load(s) if o["source"] == "dict" else s
            if o["source"] == "dict":
                src = {k: (np.array(v) if k in ("X_train", "y_train", "X_test", "y_test") else v) for k, v in src.items()}
            return [s], EvaluationJob(src, copy.deepcopy([self.cls[b] for b in ci]), cache_path=d, serialization=x.ser, reset=o["reset"] in ("e", "both")).do_evaluation()
        out, val, log = self.child(fn, crash)
        served, right = [], True
        if out == "done":
            s1, r1 = self.served(x, val[0], a)
            s2, r2 = self.served(x, val[1])
            served, right = s1 + s2, r1 and r2
        return dict(op="job", d=x.name, want=want, reset={"none": [], "both": ["s", "e"]}.get(o["reset"], [o["reset"]]), made=self.relabel(self.made(log), x), served=served, right=right,
                    out=out, clean="none", err=val if out == "raised" else "")

    def op_damage(self, o):
        pat = {"s": "oversampling", "e": "evaluation", "f": "fold"}[o["kind"]]
        files = sorted(fn for c in self.ctx[:1] + ([] if self.ctx[1].name == self.ctx[0].name else self.ctx[1:])
                       for fn in (os.path.join(self.cache, c.name, b) for b in (os.listdir(os.path.join(self.cache, c.name)) if os.path.isdir(os.path.join(self.cache, c.name)) else []))
                       if os.path.basename(fn).startswith(pat))
        files = [fn for fn in files if o["kind"] == "f" or os.path.realpath(fn) in self.paths]
        if not files:
            return None
        fn = self.rnd.choice(files)
        key = self.paths.get(os.path.realpath(fn), ["fold", "", "", "", "", ""])
        if o["how"] == "delete":
            os.remove(fn)
        else:
            with open(fn, "rb") as f:
                raw = f.read()
            for trial in range(20):
                if o["how"] == "empty":
                    new = b""
                elif o["how"] == "truncate":
                    n = self.rnd.choice([1, 2, len(raw) // 2, len(raw) - 1, len(raw) - 2, self.rnd.randrange(max(1, len(raw)))])
                    new = raw[:max(0, min(n, len(raw) - 1))]
                else:
                    new = self.rnd.choice([b"garbage", b"hello", b"\x00" * 30, b"\xff\xfe\xfd", b"<html></html>", b"(((", b"not a pickle", b'{"a": ', b"cnothing\nhere\n.", b"0" * 3,
                                           b"\x80\x04" + b"\xff" * 8, b"a.", b"\x80\x09K\x01.", b"junk" + raw, b'{"y_pred": [0.5, 0.2', raw[len(raw) // 2:]])
                if not decodes(new, fn):
                    break
            else:
                new = b""
            with open(fn, "wb") as f:
                f.write(new)
            self.hurt.add(fn)
        return dict(op="damage", key=key, how=o["how"], kind=o["kind"])

    def op_clean(self, o):
        x = self.ctx[o["x"] - 1]
        d = os.path.join(self.cache, x.name)
        out, val, log = self.child(lambda: do_clean_up(d, o["what"]), None)
        names = os.listdir(d) if os.path.isdir(d) else []
        left = sum(n.startswith("oversampling") for n in names) if o["what"] != "none" else 0
        left += sum(n.startswith("fold") for n in names) if o["what"] == "all" else 0
        return dict(op="clean", d=x.name, clean=o["what"], left=left, out=out, err=val if out == "raised" else "")

    def op_folds(self, o):
        x = self.ctx[o["x"] - 1]
        out, val, log = self.child(lambda: Folding(x.dataset(), serialization=x.ser, cache_path=self.cache, validator_params=dict(x.vp)).folding_files(), None)
        served, right = [], True
        for fn in (val if out == "done" else []):
            try:
                res = load(fn)
                f = f"{res['fold_descriptor']['repeat_idx']}_{res['fold_descriptor']['fold_idx']}"
                ok = f in x.folds and all(near(res[k], x.folds[f][k]) for k in x.folds[f])
            except Exception:  # noqa
                f, ok = "unreadable", False
            served.append(f)
            right = right and ok
        return dict(op="folds", d=x.name, want=list(x.folds), served=served, right=right, out=out, err=val if out == "raised" else "")

    def op_wipe(self, o):
        x = self.ctx[o["x"] - 1]
        out, val, log = self.child(lambda: str(Folding(x.dataset(), serialization=x.ser, cache_path=self.cache, validator_params=dict(x.vp), reset=True)), None)
        return dict(op="wipe", d=x.name, out=out, err=val if out == "raised" else "")

    def torn(self):
        """files under final names which are not complete, but not because of a damage"""
        n = 0
        for d, _, names in os.walk(self.cache):
            for b in names:
                fn = os.path.join(d, b)
                if b.startswith(("fold", "oversampling", "evaluation")):
                    with open(fn, "rb") as f:
                        ok = decodes(f.read(), fn)
                    if ok:
                        self.hurt.discard(fn)
                    elif fn not in self.hurt:
                        n += 1
        return n

    def crash(self, o, n):
        if o["crash"] == "no":
            return None
        k = self.rnd.randint(1, n + 3)
        return dict(point=o["crash"], k=k if o["crash"] != "write" else self.rnd.randint(1, n), size=self.rnd.choice([0, 1, 50, 200, 400, 700, 1000, 2000, 3000]),
                    after=self.rnd.random() < 0.5)

    def run(self):
        evs = [dict(op="init")]
        try:
            for o in self.t["ops"]:
                e = getattr(self, "op_" + o["op"])(o)
                if e is not None:
                    e.update(asked=o, n=len(evs), torn=self.torn())
                    evs.append(e)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        for e in evs:
            e.update(seed=self.t["seed"], ser=self.t["ser"], variation=self.t["variation"], hist=[f"{o['op']}" for o in self.t["ops"]])
        return evs


def full(params):
    return {"tag": params.get("tag", 0), "opt": json.loads(json.dumps(params.get("opt")))}


def load(fn):
    if fn.endswith(".json"):
        with open(fn, "rt", encoding="utf-8") as f:
            return json.load(f)
    with open(fn, "rb") as f:
        return pickle.load(f)


def decodes(raw, fn):
    try:
        json.loads(raw.decode("utf-8")) if fn.endswith(".json") else pickle.loads(raw)
        return True
    except Exception:  # noqa
        return False


# ------------------------------------------------------------------------ crashes
def arm(crash):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    if crash is None:
        return
    count = {}

    def tick(what):
        count[what] = count.get(what, 0) + 1
        return count[what] == crash["k"]

    def patched(name, what, before):
        real = getattr(os, name)

        def call(*a, **k):
            hit = crash["point"] == what and tick(what)
            if hit and before:
                os._exit(77)
            res = real(*a, **k)
            if hit:
                os._exit(77)
            return res
        setattr(os, name, call)
    if crash["point"] in ("before rename", "after rename"):
        for n in ("replace", "rename", "link"):
            patched(n, crash["point"], crash["point"] == "before rename")
    if crash["point"] == "flush":
        for n in ("fsync", "fdatasync"):
            patched(n, "flush", not crash["after"])
    if crash["point"] == "remove":
        for n in ("remove", "unlink"):
            patched(n, "remove", not crash["after"])

    def hook(_kind):
        if crash["point"] in ("compute", "write") and tick("compute"):
            if crash["point"] == "compute":
                os._exit(77)
            resource.setrlimit(resource.RLIMIT_FSIZE, (crash["size"], crash["size"]))
    stubs.HOOK = hook


def disarm():
    stubs.HOOK = None


def run_case(t):
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return History(t).run()
