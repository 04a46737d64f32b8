"""Shared machinery: running TLC on the specifications in /verif/specs, binding their
behaviours to the real code in /repo, and reporting verdicts / evidence.

Two bindings are used by the checks:
  * model -> code: TLC explores a specification and prints every transition as one JSON
    line (pre-state, action, post-state); `lockstep` replays them into real objects.
  * code -> model: executions of the real code are recorded as JSON and a trace
    specification steps through them; each record is judged by named clauses.
"""
import copy
import io
import json
import logging
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings
from contextlib import contextmanager, redirect_stdout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class DebuggerHit(Exception):
    """The code under test ran into one of its debugger breakpoints."""


class Hang(Exception):
    """The code under test did not come back."""


def _hang(*_a):
    raise Hang("no result within the time limit")


def _breakpoint(*_a, **_k):
    raise DebuggerHit("debugger breakpoint reached")


def prepare_python():
    """Import paths for the code under test; called once by the driver."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.breakpointhook = _breakpoint
    # A runaway in the code under test must not take the sandbox down
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.RLIM_INFINITY))
    signal.signal(signal.SIGPROF, _hang)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    for p in (REPO, os.path.join(VERIF, "stubs")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


@contextmanager
def quiet(cpu=None):
    """The code under test prints debugging lines; keep them out of the verdict stream.
    It gets a limited processor time."""
    import numpy as np

    outer = signal.getitimer(signal.ITIMER_PROF)[0]
    if not outer:
        signal.setitimer(signal.ITIMER_PROF, cpu or (3000 if THOROUGH else 500))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), redirect_stdout(io.StringIO()):
                yield
    finally:
        if not outer:
            signal.setitimer(signal.ITIMER_PROF, 0)


# --------------------------------------------------------------------------------- TLC
class TlcError(RuntimeError):
    pass


def _unlimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY,) * 2)


class TlcRun:
    def __init__(self):
        self.states = 0
        self.generated = 0
        self.json = []
        self.output = ""
        self.ok = False
        self.violated = None


def run_tlc(module, cfg, env=None, workers=1, simulate=None, depth=None, timeout=800,
            files=None, heap="4g", expect_ok=True, seed=None):
    """Run TLC on specs/<module>.tla with the configuration text `cfg`."""
    work = tempfile.mkdtemp(prefix="vf_tlc_")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), work)
        for name, data in (files or {}).items():
            with open(os.path.join(work, name), "w") as fh:
                fh.write(data if isinstance(data, str) else json.dumps(data))
        with open(os.path.join(work, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", TLA_CP,
               "tlc2.TLC", "-metadir", os.path.join(work, "meta"), "-deadlock",
               "-workers", str(workers), "-config", "run.cfg"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else SEED)]
        cmd.append(module + ".tla")
        full_env = dict(os.environ)
        full_env.pop("JAVA_TOOL_OPTIONS", None)
        full_env.update(env or {})
        p = subprocess.run(cmd, cwd=work, env=full_env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           preexec_fn=_unlimit)
        r = TlcRun()
        rest = []
        for line in p.stdout.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    r.json.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            rest.append(line)
        r.output = "\n".join(x for x in rest if not x.startswith(
            ("Parsing file", "Semantic proc", "Linting of", "Running breadth")))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.output)
        if m:
            r.generated, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"Progress: (\d+) states checked", r.output)
        if simulate and m:
            r.generated = r.states = int(m[-1])
        m = re.findall(r"(?:Invariant|Action property|property) (\S+) is violated", r.output)
        if m:
            r.violated = m[0]
        r.ok = p.returncode == 0
        if expect_ok and not r.ok:
            raise TlcError(f"TLC on {module} failed (rc={p.returncode}, "
                           f"violated={r.violated}):\n{r.output[-4000:]}")
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ----------------------------------------------------------------------------- verdicts
def _known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        return json.load(fh).get("known", [])


class Check:
    """Collects what one check covered and what it found."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.assumptions = []
        self.viol = {}
        self.parts = {}
        self.rng = random.Random(SEED * 7919 + sum(map(ord, pid)))

    # -- coverage
    def add_tlc(self, r, part=None):
        self.states += r.states
        self.transitions += r.generated
        if part:
            d = self.parts.setdefault(part, {})
            d["states"] = d.get("states", 0) + r.states
            d["transitions"] = d.get("transitions", 0) + r.generated

    def count(self, part, n=1):
        d = self.parts.setdefault(part, {})
        d["impl_steps"] = d.get("impl_steps", 0) + n
        self.steps += n

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # -- findings
    def violation(self, key, detail, replay=None):
        """`key` names clause and call site / input class; one report per key."""
        v = self.viol.setdefault(key, {"detail": detail, "replay": replay, "n": 0})
        v["n"] += 1

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        known = [k for k in _known() if k["property"] == self.pid]
        bad, seen = [], []
        for key, v in sorted(self.viol.items()):
            hit = [k for k in known if k["key"] == key]
            if hit:
                seen.append((hit[0], v))
            else:
                bad.append((key, v))
        for k, v in seen:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} [{k['key']}, "
                  f"{v['n']}x]")
        for n, (key, v) in enumerate(bad[:20]):
            path = os.path.join(EVID, "replay", f"{self.pid}_{n}.json")
            with open(path, "w") as fh:
                json.dump(jsonable({"property": self.pid, "key": key,
                                    "detail": v["detail"], "count": v["n"],
                                    "replay": v["replay"], "seed": SEED,
                                    "tier": TIER}), fh, indent=1)
            print(f"  [{key}] {str(v['detail'])[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        ev = {
            "property": self.pid, "tier": "thorough" if THOROUGH else "quick",
            "seed": SEED, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "impl_steps": self.steps, "parts": self.parts,
                "samples": self.samples or ["none"],
                "known_findings_observed": [k["key"] for k, _ in seen],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(jsonable(ev), fh, indent=1)
        print(f"{self.pid}: states={self.states} transitions={self.transitions} "
              f"traces={self.traces} impl_steps={self.steps} "
              f"violations={len(bad)} known={len(seen)} wall={ev['wall_s']}s")
        return 1 if bad else 0


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if f == f and abs(f) != float("inf") else str(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


# --------------------------------------------------------------------------- model->code
def canon(x):
    return json.dumps(x, sort_keys=True)


def lockstep(chk, part, edges, init, make, apply, project, check_state=None, walks=0,
             walk_depth=30, clone=copy.deepcopy, max_report=3):
    """Replay every transition of a dumped state graph into the implementation.

    edges:   list of dicts {pre, act, post}; pre/post are JSON states, act a JSON record.
    init:    JSON initial state.  make() builds the real object in that state.
    apply(obj, act) -> outcome (compared to act["out"] if present), may raise.
    project(obj) -> JSON-able abstraction of the object, compared to the model state.
    Each model state is represented by one real object, reached along model transitions;
    every edge is executed on a deep copy of it.
    """
    graph = {}
    for e in edges:
        graph.setdefault(canon(e["pre"]), []).append(e)
    reps = {canon(init): make(init)}
    got = project(reps[canon(init)])
    if canon(got) != canon(init):
        chk.violation(f"{part}/init", f"initial state {got} expected {init}")
        return 0
    queue = [canon(init)]
    history = {canon(init): []}
    done = 0
    nviol = 0
    stop = False  # do not wait for one hanging call after the other

    def step(obj, e, hist):
        nonlocal done, nviol, stop
        act = e["act"]
        done += 1
        try:
            with quiet(cpu=10):
                out = apply(obj, act)
        except Exception as exc:  # the model says what each operation does; apply()
            out = {"unexpected": type(exc).__name__, "msg": str(exc)[:200]}
            stop = stop or isinstance(exc, (Hang, MemoryError))
        if "out" in act and canon(out) != canon(act["out"]):
            nviol += 1
            chk.violation(f"{part}/{act['op']}/outcome",
                          f"after {hist} the call {act} gave {out}", hist + [act])
            return False
        with quiet(cpu=10):
            try:
                got = project(obj)
            except Exception as exc:
                got = {"projection failed": f"{type(exc).__name__}: {exc}"}
                stop = stop or isinstance(exc, (Hang, MemoryError))
        if canon(got) != canon(e["post"]):
            nviol += 1
            chk.violation(f"{part}/{act['op']}/state",
                          f"after {hist} the call {act} led to {got}, "
                          f"specification: {e['post']}", hist + [act])
            return False
        if check_state is not None:
            with quiet(cpu=10):
                try:
                    msg = check_state(obj, e["post"])
                except Exception as exc:
                    msg = (f"unexpected-{type(exc).__name__}", str(exc)[:300])
            if msg:
                nviol += 1
                chk.violation(f"{part}/{act['op']}/{msg[0]}", f"after {hist + [act]}: "
                              f"{msg[1]}", hist + [act])
                return False
        return True

    while queue and not stop:
        s = queue.pop(0)
        for e in graph.get(s, []):
            if stop:
                break
            obj = clone(reps[s])
            ok = step(obj, e, history[s])
            t = canon(e["post"])
            if ok and t not in reps:
                reps[t] = obj
                history[t] = history[s] + [e["act"]]
                queue.append(t)
    chk.count(part, done)
    chk.traces += done
    # long random behaviours on one object (no re-cloning in between)
    for _ in range(0 if stop else walks):
        s, obj, hist = canon(init), make(init), []
        for _k in range(walk_depth):
            succ = graph.get(s, [])
            if not succ:
                break
            e = chk.rng.choice(succ)
            if not step(obj, e, hist):
                break
            hist.append(e["act"])
            s = canon(e["post"])
        chk.traces += 1
    if nviol == 0:
        unreached = [k for k in graph if k not in reps]
        if unreached:
            raise RuntimeError(f"{part}: {len(unreached)} model states not reached")
    return done


# --------------------------------------------------------------------------- code->model
def q(x, scale=10000):
    """Quantise a float (or array) to an integer on the grid used by the trace specs."""
    import numpy as np

    a = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(a)):
        return NONFINITE if a.ndim == 0 else [q(v, scale) for v in a]
    r = np.rint(np.clip(a * scale, -2.0e9, 2.0e9)).astype(np.int64)
    return r.tolist()


NONFINITE = 2000000001


def validate(chk, part, module, records, consts=None, key=lambda rec, clause: clause,
             header=None, timeout=800, chunk=4000, workers=1):
    """Let the trace specification `module` judge recorded executions.

    The module reads the records from the JSON file named by IOEnv.TRACE and prints
    one JSON line {"i": index, "bad": [clauses]} for every rejected record, and a final
    {"accepted": n, "total": N}.
    """
    n_bad = overflows = 0
    start = 0
    while start < len(records):
        part_recs = records[start:start + chunk]
        payload = {"records": part_recs}
        payload.update(header or {})
        cfg = "SPECIFICATION TraceSpec\n"
        if consts:
            cfg += "CONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items())
            cfg += "\n"
        r = run_tlc(module, cfg, env={"TRACE": "trace.json"},
                    files={"trace.json": jsonable(payload)}, timeout=timeout,
                    workers=workers, expect_ok=False)
        chk.add_tlc(r, part)
        judged = len(part_recs)
        if not r.ok:
            # a magnitude which the specification's numbers cannot hold is no behaviour of it
            undefined = any(w in r.output for w in (
                "verflow when computing", "second argument of \\div is 0", "Attempted to "))
            if not undefined or not 0 < r.states <= judged:
                raise TlcError(f"TLC on {module} failed:\n{r.output[-4000:]}")
            judged = r.states
            overflows += 1
            n_bad += 1
            rec = part_recs[judged - 1]
            chk.violation(f"{part}/{key(rec, 'magnitude')}",
                          f"record {rec} holds a value out of any range {module} allows", rec)
        else:
            fin = [j for j in r.json if "total" in j]
            if not fin or fin[-1]["total"] != len(part_recs):
                raise TlcError(f"trace specification {module} did not consume the trace: "
                               f"{r.output[-2000:]}")
        for j in r.json:
            if "bad" not in j:
                continue
            rec = part_recs[j["i"] - 1]
            for clause in j["bad"]:
                n_bad += 1
                chk.violation(f"{part}/{key(rec, clause)}",
                              f"record {rec} rejected by clause {clause} of {module}"
                              + (f" ({j['info']})" if "info" in j else ""), rec)
        chk.count(part, judged)
        chk.traces += 1
        start += judged
        if overflows >= 5:
            break
    return n_bad
