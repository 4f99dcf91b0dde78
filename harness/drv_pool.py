"""Driver for C14: executions of the timeout process pool with prescribed job behaviours."""
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time

import env

sv = env.load_sv()
from smote_variants.evaluation import ThreadTimeoutProcessPool, TimeoutJobBase  # noqa: E402


class Job(TimeoutJobBase):
    def __init__(self, i, beh, log, gate, token):
        self.i, self.beh, self.log, self.gate, self.token = i, beh, log, gate, token

    def note(self, op):
        with open(self.log + ".log", "a") as f:
            f.write(f"{op} {self.i} {os.getpid()}\n")
            f.flush()

    def execute(self):
        self.note("S")
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        if self.gate is not None:
            while not os.path.exists(f"{self.log}.done{self.gate}"):
                time.sleep(0.003)
        b = self.beh
        if b == "sleep":
            time.sleep(180)
        if b == "stubborn":
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
            end = time.time() + 180
            while time.time() < end:
                time.sleep(1)
        if b == "slow":
            time.sleep(0.15)
        if b == "long":
            time.sleep(3)
        res = ("own", self.i, self.token, b"")
        if b == "big":
            res = ("own", self.i, self.token, b"x" * 3000000)
        if b == "none":
            res = None
        if b == "unpicklable":
            res = ("own", self.i, self.token, lambda: 0)
        if b == "partial":   # dies while its result is on the way
            from multiprocessing import connection
            send = connection.Connection._send

            def half(conn, buf, *a, **k):
                if len(buf) > 16384:
                    send(conn, buf[:len(buf) // 2])
                    os._exit(9)
                send(conn, buf, *a, **k)
            connection.Connection._send = half
            res = ("own", self.i, self.token, b"x" * 40000)
        self.note("E")
        open(f"{self.log}.done{self.i}", "w").close()
        if b == "ValueError":
            raise ValueError("job failed")
        if b == "SystemExit":
            sys.exit(3)
        if b == "exit":
            os._exit(4)
        if b == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        return res

    def timeout(self):
        self.note("T")
        return ("fallback", self.i, self.token)


def classify(r, i, token, beh):
    if isinstance(r, tuple) and r[:3] == ("fallback", i, token):
        return "fallback"
    if beh == "none":
        return "own" if r is None else "other"
    if isinstance(r, tuple) and r[:3] == ("own", i, token) and (len(r[3]) == (3000000 if beh == "big" else 0)):
        return "own"
    return "other"


def alive(pids):
    multiprocessing.active_children()
    n = 0
    for p in pids:
        try:
            with open(f"/proc/{p}/stat") as f:
                if f.read().rsplit(")", 1)[1].split()[0] not in "ZX":
                    n += 1
        except (FileNotFoundError, ProcessLookupError):
            pass
    return n


class Task:
    """task of the function interface"""

    def __init__(self, job):
        self.job = job


def call(task):
    return task.job.execute()


def run_case(t):
    """t: rounds: [{k, kind, beh, gates}], k, timeout, apply"""
    tmp = tempfile.mkdtemp(prefix="verif_pool_")
    evs = []
    pool = ThreadTimeoutProcessPool(t["k"], t["timeout"]) if t["timeout"] != "default" else ThreadTimeoutProcessPool(t["k"])
    before = []
    try:
        for r, rd in enumerate(t["rounds"]):
            n = len(rd["kind"])
            log = os.path.join(tmp, f"r{r}")
            jobs = [Job(i + 1, rd["beh"][i], log, rd["gates"][i], f"{t['seed']}-{r}") for i in range(n)]
            ev = {"op": "pool", "seed": t["seed"], "round": r, "k": t["k"], "kind": rd["kind"], "beh": rd["beh"], "gates": [g or 0 for g in rd["gates"]], "timeout": str(t["timeout"]),
                  "apply": t["apply"], "err": "", "res": [], "log": [], "pids_ok": False, "left": 0, "kept": True}
            try:
                if t["apply"]:
                    out = pool.apply(call, [Task(j) for j in jobs])
                    out = [("fallback", i + 1, jobs[i].token) if o is None else o for i, o in enumerate(out)]
                else:
                    out = pool.execute(jobs)
                ev["res"] = [classify(o, i + 1, jobs[i].token, rd["beh"][i]) if i < n else "other" for i, o in enumerate(out)]
                lines = [x.split() for x in open(log + ".log")] if os.path.exists(log + ".log") else []
                ev["log"] = [[x[0], int(x[1])] for x in lines]
                pids = {}
                for op, i, p in lines:
                    if op in "SE":
                        pids.setdefault(int(i), set()).add(int(p))
                flat = [p for s in pids.values() for p in s]
                ev["pids_ok"] = all(len(s) == 1 for s in pids.values()) and len(set(flat)) == len(flat) and os.getpid() not in flat
                if t["apply"]:   # the fallback of the function interface is not observable, it is None
                    ev["log"] += [["T", i + 1] for i in range(n) if ev["res"][i] == "fallback"]
                for _ in range(100):
                    ev["left"] = alive(flat)
                    if not ev["left"]:
                        break
                    time.sleep(0.1)
                ev["kept"] = all(list(a) == b for a, b in before)
                before.append((out, list(out)))
            except Exception as e:  # noqa
                ev["err"] = f"{type(e).__name__}: {e}"[:200]
            evs.append(ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return evs


def run_idle(t):
    """jobs shared by pools without jobs and with more workers than jobs"""
    return run_case(t)
