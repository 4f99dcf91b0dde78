"""
Common machinery of the checks: sharded execution of drivers against the real
code, TLC runs (model checking, trace validation, behaviour generation), verdicts,
known findings, evidence.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import env  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    """Failure of the check itself (not a verdict)."""


def java_classpath():
    """The classpath used by the tlc wrapper (tla2tools + CommunityModules)."""
    jars = [os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla") if f.endswith(".jar")]
    jars.sort(key=lambda p: (not p.endswith("tla2tools.jar"), p))
    return ":".join(jars)


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = []
        self.violations = []   # list of dict(clause, case)
        self.known_hits = {}
        self.assumptions = []
        os.makedirs(EVID, exist_ok=True)
        with open(KNOWN) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "open"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ drivers
    def drive(self, module, func, tasks, nproc=None, task_timeout=240, crash_event=None, give_up=12):
        """Run harness function module.func on every task in separate worker
        processes; each returns a list of events.  A worker killed by a task (segfault, hang)
        yields crash_event(task, why) events (or is a machinery error); after give_up of them a shard
        does not run its remaining tasks."""
        nproc = min(nproc or NPROC, max(1, len(tasks)))
        shards = [[] for _ in range(nproc)]
        for i, t in enumerate(tasks):
            shards[i % nproc].append((i, t))
        procs = []
        for k, sh in enumerate(shards):
            procs.append(_Shard(self, k, module, func, sh, task_timeout, give_up))
        pend = list(procs)
        while pend:
            time.sleep(0.05)
            pend = [p for p in pend if not p.poll(crash_event)]
        events = {}
        for p in procs:
            events.update(p.results)
        out = []
        for i in range(len(tasks)):
            if i not in events:
                raise MachineryError(f"no result for task {i}: {tasks[i]}")
            if isinstance(events[i], dict) and "unobservable" in events[i]:
                # an exception of the code under test where the driver expects none
                self.violations.append({"clause": "raises where no call may fail", "case": {"driver": func, "task": tasks[i], "exception": events[i]["unobservable"]}})
                events[i] = []
            out.append(events[i])
        return out

    # ---------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env_vars=None, workers=4, extra=(), timeout=800, heap="3g", tag=None):
        """Run TLC, return (returncode, stdout)."""
        tag = tag or f"{module}_{cfg or module}_{time.time_ns()}"
        meta = os.path.join(self.work, "meta_" + re.sub(r"\W", "_", tag))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env_vars or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", java_classpath(), "tlc2.TLC",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg=None, env_vars=None, workers=4, must_hold=True, timeout=800, extra=()):
        """Exhaustive model check of the design; a violation on the design is a machinery error
        (the design is fixed in /verif), it cannot depend on /repo."""
        rc, out = self.tlc(module, cfg, env_vars, workers, timeout=timeout, extra=extra)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or m is None:
            raise MachineryError(f"model {module}/{cfg} failed rc={rc}\n" + out[-4000:])
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.models.append({"module": module, "cfg": cfg or module, "distinct": dist, "generated": gen})
        return out

    def model_fails(self, module, cfg, invariant):
        """A variant of the design lacking a mechanism, which has to break the invariant (or <>property: the model is not vacuous)."""
        rc, out = self.tlc(module, cfg)
        if f"Invariant {invariant} is violated" not in out and not (f"Temporal property {invariant[2:]} was violated" in out):
            raise MachineryError(f"variant {module}/{cfg} does not break {invariant}\n" + out[-3000:])
        self.models.append({"module": module, "cfg": cfg, "breaks": invariant})

    def simulate(self, module, cfg, num, depth, seed, marker="CASE", env_vars=None, timeout=800):
        """Long behaviours of a generator module from TLC's simulator."""
        rc, out = self.tlc(module, cfg, env_vars, workers=1, extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)), timeout=timeout)
        res = [json.loads(json.loads(m)) for m in re.findall(r'^<<"' + marker + r'", (".*")>>$', out, re.M)]
        if rc != 0 or not res:
            raise MachineryError(f"simulation {module}/{cfg} failed rc={rc}\n" + out[-3000:])
        uniq = {json.dumps(r, sort_keys=True): r for r in res}
        return [uniq[k] for k in sorted(uniq)]

    def behaviours(self, module, cfg=None, env_vars=None, marker="CASE", workers=4, extra=(), timeout=800):
        """Model check a generator module that prints its behaviours with PrintT(<<marker, ToJson(x)>>)."""
        out = self.model(module, cfg, env_vars, workers, extra=extra, timeout=timeout)
        res = []
        pat = re.compile(r'^<<"' + marker + r'", (".*")>>$')
        for line in out.splitlines():
            m = pat.match(line)
            if m:
                res.append(json.loads(json.loads(m.group(1))))
        uniq = {}
        for r in res:
            uniq.setdefault(json.dumps(r, sort_keys=True), r)
        return list(uniq.values())

    def validate(self, module, events, cfg=None, shards=None, per_shard=None, workers=1, timeout=800, heap="2500m", env_vars=None):
        """Validate recorded events with the trace specification (totally: every event is consumed and
        judged, failing clauses are printed).  Returns list of (event, [clauses])."""
        if not events:
            raise MachineryError("no events recorded")
        groups = None
        if isinstance(events[0], list):   # stateful traces: a group stays together
            groups, events = events, [e for g in events for e in g]
        n = shards or (1 if len(events) < 400 else NPROC)
        if per_shard:
            n = max(1, min(NPROC, -(-len(events) // per_shard)))
        parts = [events[i::n] for i in range(n)] if groups is None else [[e for g in groups[i::n] for e in g] for i in range(n)]
        parts = [p for p in parts if p]
        bad = []
        todo = [list(p) for p in parts]
        for attempt in range(6):
            procs = []
            for k, part in enumerate(todo):
                fn = os.path.join(self.work, f"trace_{module}_{k}_{time.time_ns()}.ndjson")
                with open(fn, "w") as f:
                    for e in part:
                        f.write(json.dumps(e) + "\n")
                meta = os.path.join(self.work, f"tm_{module}_{k}_{time.time_ns()}")
                ev = dict(os.environ)
                ev.pop("JAVA_TOOL_OPTIONS", None)
                ev["TRACE"] = fn
                ev.update(env_vars or {})
                cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseSerialGC", "-cp", java_classpath(), "tlc2.TLC", "-config",
                       os.path.join(SPEC, (cfg or module) + ".cfg"), "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                       os.path.join(SPEC, module + ".tla")]
                fo = open(fn + ".out", "w")
                procs.append((part, subprocess.Popen(cmd, cwd=SPEC, env=ev, stdout=fo, stderr=subprocess.STDOUT), fn + ".out"))
            todo = []
            for part, pr, fo in procs:
                rc = pr.wait(timeout=timeout)
                with open(fo) as f:
                    out = f.read()
                # TLC wraps long tuples over several lines
                viols = [(int(m.group(1)), sorted(re.findall(r'"([^"]+)"', m.group(2))))
                         for m in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S)]
                if rc != 0 or "No error has been found" not in out:
                    # an event the specification cannot even evaluate (values outside of its domain) breaks it
                    at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                    why = re.search(r"(Overflow when computing.*|Attempted to .*|.*was not in the domain.*|.*outside the domain.*|In computing .*|The first argument of .*)", out)
                    if not at or not why or "unsupported JSON" in out or groups is not None or int(at[-1]) > len(part):
                        raise MachineryError(f"trace validation {module} failed rc={rc}\n{out[:3000]}\n...{out[-3000:]}")
                    k = int(at[-1])
                    self.log("not evaluable:", why.group(1)[:120])
                    bad.append((part[k - 1], ["outside the domain of the specification"]))
                    bad.extend((part[i - 1], c) for i, c in viols if i < k)
                    if part[k:] and attempt < 5:
                        todo.append(part[k:])
                    continue
                m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
                if m is None or int(m.group(1)) != len(part):
                    raise MachineryError(f"trace of {len(part)} events not fully consumed: {out[-2000:]}")
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
                self.cov["states"] += dist
                self.cov["transitions"] += gen
                bad.extend((part[i - 1], c) for i, c in viols)
            if not todo:
                break
        self.cov["traces_validated_against_impl"] += len(events)
        return bad

    # ------------------------------------------------------------------ verdicts
    def report(self, bad, project=None):
        """Register rejected events, filtering the listed known findings."""
        for e, clauses in bad:
            case = project(e) if project else e
            for c in clauses:
                hit = None
                for k in self.known:
                    if matches(k["match"], case, c):
                        hit = k
                        break
                if hit is not None:
                    self.known_hits[hit["id"]] = self.known_hits.get(hit["id"], 0) + 1
                else:
                    self.violations.append({"clause": c, "case": case})

    def sample(self, obj, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    def finish(self):
        wall = time.time() - self.t0
        self.cov["models"] = self.models
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} (observed {self.known_hits.get(k['id'], 0)} times in this run)")
        rc = 0
        if self.violations:
            rp = os.path.join(EVID, f"replay_{self.pid}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": self.violations[:400]}, f, indent=1, default=str)
            for v in self.violations[:8]:
                print("  ", v["clause"], json.dumps(v["case"], default=str)[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log(f"done rc={rc} states={self.cov['states']} traces={self.cov['traces_validated_against_impl']} violations={len(self.violations)}")
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def matches(pattern, case, clause):
    """Known finding patterns: every key must match: 'clause' exactly, other keys are
    paths in the case compared for equality (or membership for lists, regex for 're:' strings)."""
    for k, want in pattern.items():
        if k == "clause":
            if isinstance(want, list):
                if clause not in want:
                    return False
            elif clause != want:
                return False
            continue
        cur = case
        for part in k.split("."):
            if not isinstance(cur, dict) or part not in cur:
                return False
            cur = cur[part]
        if isinstance(want, list):
            if cur not in want:
                return False
        elif isinstance(want, str) and want.startswith("re:"):
            if not re.search(want[3:], str(cur)):
                return False
        elif cur != want:
            return False
    return True


class _Shard:
    """A worker process executing its share of the tasks, restarted behind a killer task."""

    def __init__(self, chk, k, module, func, tasks, task_timeout, give_up):
        self.give_up = give_up
        self.crashes = 0
        self.chk, self.k, self.module, self.func = chk, k, module, func
        self.tasks = tasks
        self.task_timeout = task_timeout
        self.results = {}
        self.attempt = 0
        self.start()

    def start(self):
        self.attempt += 1
        base = os.path.join(self.chk.work, f"shard_{self.module}_{self.func}_{self.k}_{self.attempt}_{time.time_ns()}")
        self.inp, self.out, self.err = base + ".in", base + ".out", base + ".err"
        with open(self.inp, "w") as f:
            json.dump([t for t in self.tasks if t[0] not in self.results], f)
        e = dict(os.environ)
        e.update(env.ENV)
        e["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
        self.proc = subprocess.Popen([sys.executable, os.path.join(HERE, "worker.py"), self.module, self.func, self.inp, self.out],
                                     stdout=open(self.err, "w"), stderr=subprocess.STDOUT, env=e, cwd=self.chk.work, start_new_session=True)
        self.last = time.time()
        self.size = 0

    def collect(self):
        started = None
        if os.path.exists(self.out):
            with open(self.out) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    r = json.loads(line)
                    if "start" in r:
                        started = r["start"]
                    else:
                        self.results[r["i"]] = r["ev"]
                        started = None
        return started

    def poll(self, crash_event):
        rc = self.proc.poll()
        if rc is None:
            size = os.path.getsize(self.out) if os.path.exists(self.out) else 0
            if size != self.size:
                self.size, self.last = size, time.time()
            if time.time() - self.last < self.task_timeout:
                return False
            try:
                os.killpg(self.proc.pid, 9)
            except ProcessLookupError:
                pass
            self.proc.wait()
            rc = "timeout"
        started = self.collect()
        left = [t for t in self.tasks if t[0] not in self.results]
        if not left:
            return True
        why = "hang" if rc == "timeout" else f"exit {rc}"
        with open(self.err) as f:
            tail = f.read()[-1500:]
        task = [t for t in left if t[0] == started]
        if crash_event is None or not task or self.attempt > 12:
            raise MachineryError(f"worker {self.module}.{self.func} died ({why}) on {task}\n{tail}")
        self.results[started] = crash_event(task[0][1], why)
        self.crashes += 1
        if self.crashes >= self.give_up:   # the tasks left are not run
            for t in left:
                self.results.setdefault(t[0], [])
            return True
        if len(left) > 1:
            self.start()
            return False
        return True


def main(run):
    """Entry of a check: run(Check) -> verdict, exits 0/1, 2 on machinery failure."""
    pid = sys.argv[1]
    chk = Check(pid)
    try:
        run(chk)
        rc = chk.finish()
    except Exception as exc:  # noqa
        import traceback
        traceback.print_exc()
        print("MACHINERY ERROR:", exc, flush=True)
        # violations found before the failure still count
        rc = chk.finish() if chk.violations else 2
        shutil.rmtree(chk.work, ignore_errors=True)
    sys.exit(rc)
