"""Measures of the comparisons: judged by specs/MetricsTrace.tla."""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

import vf


def path(rng, n, rests=True, loops=True):
    """Positions on a grid of 1/10, with steps where the robot rests."""
    x = rng.integers(-8, 9, 2)
    out = [x]
    while len(out) < n:
        step = rng.integers(-4, 5, 2)
        if rests and rng.random() < .25:
            step = np.zeros(2, int)
        elif not step.any():
            continue
        if np.max(np.abs(out[-1] + step)) > 15:
            continue
        out.append(out[-1] + step)
    return np.array(out).T / 10


def slow(rng, n):
    """Positions with large, very small and no steps."""
    tiny = np.array([[10, 0], [0, -10], [-20, 0], [0, 40], [30, 40], [-40, 30], [60, -80]])
    x = rng.integers(-8, 9, 2) * 1000
    out = [x]
    while len(out) < n:
        kind = rng.integers(4)
        step = (rng.integers(-4, 5, 2) * 1000 if kind < 2 else
                tiny[rng.integers(len(tiny))] if kind == 2 else np.zeros(2, int))
        if np.max(np.abs(out[-1] + step)) <= 15000:
            out.append(out[-1] + step)
    return np.array(out).T / 10000


def modules():
    from nonlinear_avoidance.comparison import evaluation_trajectories as plain
    from nonlinear_avoidance.comparison import evaluation_trajectories_with_std as std

    return [("plain", plain), ("std", std)]


def measures(chk):
    rng = np.random.default_rng(vf.SEED * 31 + 1)
    recs = []
    with vf.quiet():
        for name, m in modules():
            for k in range(400 if vf.THOROUGH else 200):
                t = path(rng, int(rng.integers(4, 12)))
                while np.sum(np.any(np.diff(t), axis=0)) < 2:
                    t = path(rng, 8)
                h = float(rng.choice([.5, 1.0, 2.0]))
                base = {"t": vf.q(t.T), "h": vf.q(h), "what": name}
                keep = t.copy()
                c, rad = rng.integers(-5, 6, 2) / 10, float(rng.choice([.5, 1.0, 1.3]))
                f = {"a": rng.integers(-8, 9, (2, 2)) / 10, "b": rng.integers(-5, 6, 2) / 10}
                if k % 5 == 0:  # a field which rests at a point of the path
                    f["b"] = -f["a"] @ t[:, 1]
                fn = lambda p: np.round(f["a"] @ p + f["b"], 9)
                grid = {k: vf.q(v) for k, v in f.items()}
                recs.append({"f": "error", **base, "c": vf.q(c), "rad": vf.q(rad),
                             "out": vf.q(m.mean_squared_error_to_path(t, c, rad))})
                small = t * .25
                recs.append({"f": "acceleration", "what": name, "h": vf.q(h),
                             "t": vf.q(small.T),
                             "out": vf.q(m.mean_squared_acceleration(small, h))})
                recs.append({"f": "smoothness", **base,
                             "out": vf.q(m.dot_product_acceleration(t, h))})
                recs.append({"f": "deviation", **base, "field": grid,
                             "out": vf.q(m.mean_squared_velocity_deviation(t, fn, h))})
                recs.append({"f": "agreement", **base, "field": grid,
                             "out": vf.q(m.dot_product_velocity_deviation(t, fn, h))})
                u = slow(rng, int(rng.integers(5, 14)))
                if np.sum(np.any(np.diff(u), axis=0)) > 1:
                    recs.append({"f": "smoothness", "t": vf.q(u.T), "h": vf.q(h), "what": name,
                                 "out": vf.q(m.dot_product_acceleration(u, h))})
                v = np.diff(t if k % 2 else u)
                if not v.any():
                    v = np.diff(t)
                recs.append({"f": "unit", "what": name, "v": vf.q(v.T),
                             "out": vf.q(m.normalize_velocities(v).T)})
                if not np.array_equal(keep, t):
                    chk.violation(f"measures/{name}/argument-changed", f"{keep} became {t}")
            try:
                m.normalize_velocities(np.zeros((2, 3)))
                chk.violation(f"measures/{name}/rest-accepted", "no velocity to normalise")
            except ValueError:
                pass
    vf.validate(chk, "measures", "MetricsTrace", recs,
                key=lambda r, c: f"{r['what']}/{r['f']}/{c}")
    chk.sample({"part": "measures", "record": recs[0]})


LISTS = [("distance", "dist_to_path", "mean_squared_error_to_path"),
         ("acceleration", "squared_acceleration", "mean_squared_acceleration"),
         ("velocity", "squared_error_velocity", "mean_squared_velocity_deviation"),
         ("agreement", "dotprod_err_velocity", "dot_product_velocity_deviation"),
         ("smoothness", "dotprod_acceleration", "dot_product_acceleration")]


def summaries(chk):
    """Whole folders of trajectories."""
    from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
    from vartools.states import Pose

    rng = np.random.default_rng(vf.SEED * 31 + 2)
    recs = []
    with vf.quiet():
        for name, m in modules():
            for k in range(24 if vf.THOROUGH else 8):
                tmp = tempfile.mkdtemp(prefix="vf_metrics_")
                try:
                    data = os.path.join(tmp, "data")
                    os.makedirs(os.path.join(data, "runs"))
                    h, full = .5, 8
                    with open(os.path.join(tmp, "comparison_parameters.json"), "w") as fl:
                        json.dump({"delta_time": h, "it_max": full}, fl)
                    paths = []
                    for j in range(int(rng.integers(2, 7))):
                        t = path(rng, int(rng.choice([6, 7, 8, 9])), rests=False) * .5
                        np.savetxt(os.path.join(data, "runs", f"{j}.csv"), t.T,
                                   delimiter=",", fmt="%.10f")
                        paths.append(t)
                    limit = [0, -1, 2, 1, len(paths), len(paths) + 3][k % 6]
                    ev = m.TrajectoryEvaluator(data_folder="runs", data_path=data,
                                               **({"n_runs": limit} if limit else {}))
                    ev.run()
                    if k % 3 == 2:  # evaluated again
                        ev.run()
                    if limit > 0:
                        paths = paths[:limit]
                finally:
                    shutil.rmtree(tmp)
                # reference motion: the unit circle of radius two, as documented
                radius = 2.0 if name == "std" else None
                ds = (SimpleCircularDynamics(pose=Pose.create_trivial(2), radius=2.0)
                      if radius else SimpleCircularDynamics(dimension=2))
                args = {"distance": (np.zeros(2), 2.0), "acceleration": (h,),
                        "velocity": (ds.evaluate, h), "agreement": (ds.evaluate, h),
                        "smoothness": (h,)}
                values = [[float(getattr(m, fn)(t, *args[nm])) for t in paths]
                          for nm, _, fn in LISTS]
                names = [(nm, at) for nm, at, _ in LISTS]
                if name == "std":  # share of the half turn
                    values += [list(.5 - .5 * np.array(values[j])) for j in (3, 4)]
                    names += [("velocity-turn", "nics_err_velocity"),
                              ("acceleration-turn", "nics_acceleration")]
                recs.append({
                    "f": "summary", "what": name, "runs": ev.n_runs, "full": full,
                    "lengths": [t.shape[1] for t in paths], "finished": ev.n_converged,
                    "stuck": ev.n_local_minima, "names": [nm for nm, _ in names],
                    "values": vf.q(values),
                    "mean": [vf.q(getattr(ev, at)) for _, at in names],
                    "spread": [vf.q(getattr(ev, at + "_std")) if name == "std" else -1
                               for _, at in names]})
    vf.validate(chk, "summaries", "MetricsTrace", recs,
                key=lambda r, c: f"{r['what']}/{r['f']}/{c}")


def table(ev, r, sel):
    return {"f": "table", "sel": sel, "own": [bool(b) for b in r[:, 0] > 0],
            "runs": int(ev.n_runs), "fraction": vf.q(ev.frac_converged),
            "distance": vf.q(r[:, 1]), "free": vf.q(r[:, 2]),
            "gamma": vf.q(r[:, 3]), "dmean": vf.q(ev.distance_mean),
            "dvar": vf.q(ev.distance_var), "gmean": vf.q(ev.gammas_mean),
            "gvar": vf.q(ev.gammas_var), "omean": vf.q(ev.occupied_mean),
            "ostd": vf.q(ev.occupied_std)}


def tables(chk):
    """The table of runs of the path following comparison."""
    from nonlinear_avoidance.comparison import evaluation_path_following as m

    rng = np.random.default_rng(vf.SEED * 31 + 3)
    recs = []
    with vf.quiet():
        for k in range(80 if vf.THOROUGH else 40):
            n = int(rng.integers(5, 15))
            tmp = tempfile.mkdtemp(prefix="vf_tables_")
            try:
                evs, rows = [], []
                for j in range(3):
                    conv = (rng.random(n) < .85).astype(int)
                    conv[:3] = 1
                    data = np.column_stack([conv, rng.integers(5, 30, n) / 10,
                                            rng.integers(0, 11, n) / 10,
                                            rng.integers(10, 35, n) / 10])
                    with open(os.path.join(tmp, f"{j}.csv"), "w") as fl:
                        fl.write("run, converged, distance, free_fraction, gammas\n")
                        for r, row in enumerate(data):
                            fl.write(", ".join([str(r), str(int(row[0]))] + [
                                f"{v:.4f}" for v in row[1:]]) + "\n")
                    ev = m.TrajectoryEvaluator(f"{j}.csv")
                    ev.root_path, ev.data_path = Path(tmp).parent, Path(Path(tmp).name)
                    evs.append(ev)
                    rows.append(data)
                common = m.get_converged(evs)
                if k % 2:  # evaluators which have not read their file before
                    evs = [m.TrajectoryEvaluator(f"{j}.csv") for j in range(3)]
                    for ev in evs:
                        ev.root_path, ev.data_path = Path(tmp).parent, Path(Path(tmp).name)
                for ev in evs:
                    ev.run(common)
            finally:
                shutil.rmtree(tmp)
            sel = [bool(b) for b in np.all([r[:, 0] > 0 for r in rows], axis=0)]
            recs.append({"f": "common", "out": [bool(b) for b in common],
                         "cols": [[bool(b) for b in r[:, 0] > 0] for r in rows]})
            for ev, r in zip(evs, rows):
                recs.append(table(ev, r, sel))
    vf.validate(chk, "tables", "MetricsTrace", recs, key=lambda r, c: f"{r['f']}/{c}")


PLAIN = [("share", "n_converged"), ("share", "n_local_minima"), ("value", "dist_to_path"),
         ("value", "squared_error_velocity"), ("turn", "dotprod_err_velocity"),
         ("value", "squared_acceleration"), ("turn4", "dotprod_acceleration")]
STD = [("share", "n_converged"), ("share", "n_local_minima"), ("value", "dist_to_path"),
       ("value", "squared_error_velocity"), ("value", "nics_err_velocity"),
       ("value", "dotprod_err_velocity"), ("value", "squared_acceleration"),
       ("value4", "nics_acceleration"), ("value", "dotprod_acceleration")]
PATHS = [("percent", "frac_converged"), ("percent", "occupied_mean", "occupied_std"),
         ("value", "gammas_mean", "gammas_var"), ("value", "distance_mean", "distance_var")]


def numbers(line):
    """The numbers of each column of a printed row."""
    cols = line.split("\\\\ \\hline")[0].split(" & ")[1:]
    return [[float(x) for x in re.findall(r"-?\d+(?:\.\d+)?", c.replace("\\%", ""))] for c in cols]


def printed(chk):
    """The printed tables show the numbers of the evaluators, row by row."""
    from nonlinear_avoidance.comparison import evaluation_path_following as paths

    rng = np.random.default_rng(vf.SEED * 31 + 4)
    recs = []
    kinds = [(nm, m, m.print_table, rows) for (nm, m), rows in zip(modules(), (PLAIN, STD))]
    for k in range(80 if vf.THOROUGH else 40):
        for name, m, show, rows in kinds + [("paths", paths, paths.print_results, PATHS)]:
            evs = []
            for j in range(int(rng.integers(1, 5))):
                ev = m.TrajectoryEvaluator(f"m{j}")
                ev.n_runs = int(rng.integers(1, 40))
                for kind, *ats in rows:
                    for at in ats + ([ats[0] + "_std"] if name == "std" and kind != "share" else []):
                        top = 1 if kind in ("percent", "turn", "turn4", "value4") else 100
                        v = (int(rng.integers(0, ev.n_runs + 1)) if kind == "share"
                             else round(float(rng.uniform(0, top)), 4))
                        if kind == "value4":
                            v = round(v * .5, 4)
                        setattr(ev, at, v)
                evs.append(ev)
            buf = io.StringIO()
            with vf.quiet(), contextlib.redirect_stdout(buf):
                show(evs)
            lines = [ln for ln in buf.getvalue().splitlines() if " & " in ln]
            if len(lines) != len(rows) + 1:
                chk.violation(f"printed/{name}/rows", f"{len(lines)} rows: {lines}")
                continue
            head = lines[0].split(" \\\\")[0].split(" & ")[1:]
            if head != [f"m{j}" for j in range(len(evs))]:
                chk.violation(f"printed/{name}/header", lines[0])
            for line, (kind, *ats) in zip(lines[1:], rows):
                if name == "std" and kind != "share":
                    ats = ats + [ats[0] + "_std"]
                for ev, shown in zip(evs, numbers(line)):
                    recs.append({
                        "f": "printed", "what": name, "row": ats[0], "kind": kind,
                        "runs": ev.n_runs, "shown": [int(round(x * 100)) for x in shown],
                        "value": [getattr(ev, at) if kind == "share" else vf.q(getattr(ev, at))
                                  for at in ats]})
                if len(numbers(line)) != len(evs):
                    chk.violation(f"printed/{name}/columns", line)
    vf.validate(chk, "printed", "MetricsTrace", recs,
                key=lambda r, c: f"{r['what']}/{r['row']}/{c}")


def evaluated(chk):
    """The comparison of the three methods of path following."""
    from nonlinear_avoidance.comparison import evaluation_path_following as m

    names = ["wavy_path_switching_straight.csv", "wavy_path_switching_path.csv",
             "wavy_path_global_nonlinear.csv"]
    rng = np.random.default_rng(vf.SEED * 31 + 5)
    cls = m.TrajectoryEvaluator
    before = cls.root_path, cls.data_path
    recs = []
    try:
        for k in range(20 if vf.THOROUGH else 6):
            n = int(rng.integers(5, 12))
            tmp = tempfile.mkdtemp(prefix="vf_tables_")
            try:
                cls.root_path, cls.data_path = Path(tmp).parent, Path(Path(tmp).name)
                rows = []
                for nm in names:
                    conv = (rng.random(n) < .8).astype(int)
                    conv[:3] = 1
                    data = np.column_stack([conv, rng.integers(5, 30, n) / 10,
                                            rng.integers(0, 11, n) / 10,
                                            rng.integers(10, 35, n) / 10])
                    with open(os.path.join(tmp, nm), "w") as fl:
                        fl.write("run, converged, distance, free_fraction, gammas\n")
                        for r, row in enumerate(data):
                            fl.write(", ".join([str(r), str(int(row[0]))] + [
                                f"{v:.4f}" for v in row[1:]]) + "\n")
                    rows.append(data)
                with vf.quiet():
                    evs = m.evaluate()
            finally:
                shutil.rmtree(tmp)
            if [ev.data_file for ev in evs] != names:
                chk.violation("evaluated/methods", f"{[ev.data_file for ev in evs]}")
                continue
            sel = [bool(b) for b in np.all([r[:, 0] > 0 for r in rows], axis=0)]
            recs += [table(ev, r, sel) for ev, r in zip(evs, rows)]
    finally:
        cls.root_path, cls.data_path = before
    vf.validate(chk, "evaluated", "MetricsTrace", recs, key=lambda r, c: f"evaluated/{c}")


PARTS = [measures, summaries, tables, printed, evaluated]
