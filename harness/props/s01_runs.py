"""Simulated trajectories: specs/Simulation.tla (model -> code), specs/RunsTrace.tla."""
import json
import os
import shutil
import tempfile

import numpy as np

import vf

NOWHERE = (99, 99)


def behaviours(chk, part, unit, length, speeds, goals):
    mc = ("---- MODULE MCSimulation ----\nEXTENDS Simulation\n"
          "CGoals == {%s}\n====\n" % ", ".join(f"<<{a}, {b}>>" for a, b in goals))
    r = vf.run_tlc("MCSimulation", "SPECIFICATION Spec\nCONSTANTS Unit = "
                   f"{'TRUE' if unit else 'FALSE'} Length = {length}\n"
                   f"Speeds = {{{', '.join(map(str, speeds))}}}\nCONSTANT Goals <- CGoals\n"
                   "INVARIANTS Free Follows UnitSteps Bounded Early NotBeyond\n"
                   "PROPERTY Ends\nACTION_CONSTRAINT Emit\n",
                   files={"MCSimulation.tla": mc}, workers=1)
    chk.add_tlc(r, part)
    return r.json


class World:
    """A behaviour of the model placed somewhere in the plane or in space."""

    def __init__(self, rng, b, step, margin, dim=2, origin=None):
        self.b, self.step, self.margin, self.dim = b, step, margin, dim
        base = np.linalg.qr(rng.normal(size=(dim, dim)))[0][:, :2]
        self.base = base if rng.random() < .6 else np.eye(dim)[:, rng.permutation(dim)[:2]]
        self.origin = rng.uniform(-5, 5, dim) if origin is None else origin
        self.field = {tuple(k): v for k, v in b["field"]}
        self.wall = {tuple(k): v for k, v in b["wall"]}
        self.size = {k: float(rng.choice([1.1, 30., 1e4])) for k in sorted(self.field)}
        self.rest = {k: float(rng.choice([0, 0, .3, .9])) for k in sorted(self.field)}

    def place(self, cell):
        return self.origin + self.step * self.base @ np.array(cell, float)

    def cell(self, x):
        return tuple(int(round(v)) for v in self.base.T @ (x - self.origin) / self.step)

    def unit(self, x):
        """Velocity of any length above the margin, or rest."""
        c = self.cell(x)
        v = self.field.get(c, (1, 0))
        if v == [0, 0]:
            return self.base[:, 0] * self.margin * self.rest[c]
        return self.base @ np.array(v, float) * self.margin * self.size.get(c, 2.)

    def timed(self, x):
        return self.base @ np.array(self.field.get(self.cell(x), (1, 0)), float)

    def blocked(self, x):
        return self.wall.get(self.cell(x), False)

    def path(self):
        return np.array([self.place(c) for c in self.b["path"]]).reshape(-1, self.dim)


def judge(chk, key, world, out):
    want = world.path()
    out = np.asarray(out, float)
    if out.shape != want.shape:
        chk.violation(f"{key}/length", f"{world.b}: run of shape {out.shape}: {out.tolist()}",
                      world.b)
    elif out.size and np.max(np.abs(out - want)) > 1e-7:
        chk.violation(f"{key}/places", f"{world.b}: {out.tolist()} instead of "
                      f"{want.tolist()}", world.b)


def unit_runs(chk):
    from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as m

    rng = np.random.default_rng(vf.SEED * 67 + 1)
    todo = behaviours(chk, "unit-runs", True, 5 if vf.THOROUGH else 4, [1], [NOWHERE])
    for b in todo:
        w = World(rng, b, float(rng.choice([.01, .25, 2.])), float(rng.choice([1e-3, .05])),
                  dim=int(rng.choice([2, 2, 3])))
        start = w.place((0, 0))
        keep = start.copy()
        args = {"delta_time": w.step, "conv_margin": w.margin, "it_max": b["run"]}
        if w.step == .01 and w.margin == 1e-3 and rng.random() < .5:
            args = {"it_max": b["run"]}
        walls = any(v for v in w.wall.values())
        if walls or rng.random() < .5:
            args["collision_functor"] = w.blocked
        with vf.quiet(cpu=20):
            out = m.integrate_trajectory(w.unit, start, **args)
        judge(chk, f"unit-runs/{b['status']}", w, out.T)
        if not np.array_equal(keep, start):
            chk.violation("unit-runs/start-changed", f"{keep} became {start}", b)
    chk.count("unit-runs", len(todo))
    chk.sample({"part": "unit-runs", "behaviour": todo[len(todo) // 2]})


def timed_runs(chk):
    from nonlinear_avoidance.visualization import plot_qolo as m

    rng = np.random.default_rng(vf.SEED * 67 + 2)
    todo = behaviours(chk, "timed-runs", False, 4 if vf.THOROUGH else 3, [1, 2],
                      [NOWHERE, (0, 0), (2, 1), (-1, 0)])
    for b in todo:
        dt = float(rng.choice([.1, .5]))
        w = World(rng, b, dt, 0)
        tol = float(rng.choice([.05, .3])) * (1 if dt == .1 else 1)
        if tol >= .9 * dt:
            tol = .05
        goal = tuple(b["goal"])
        side = w.base @ np.array([np.cos(2.3), np.sin(2.3)]) * tol
        args = {"it_max": b["run"], "dt": dt}
        if goal == NOWHERE:
            # a goal which is missed by little, or none
            if rng.random() < .5:
                k = b["path"][int(rng.integers(len(b["path"])))]
                at = w.place(k) + 1.15 * side
                if min(np.linalg.norm(at - x) for x in w.path()) > 1.1 * tol:
                    args["attractor_position"] = at
        else:
            args["attractor_position"] = w.place(goal) + rng.choice([0, .8]) * side
        if tol != .05 or rng.random() < .5:
            args["tol_conv"] = tol
        with vf.quiet(cpu=20):
            out = m.integrate_with_qolo(w.place((0, 0)), w.timed, **args)
        judge(chk, f"timed-runs/{b['status']}", w, out.T)
    chk.count("timed-runs", len(todo))
    chk.sample({"part": "timed-runs", "behaviour": todo[len(todo) // 2]})


def files(chk):
    """Runs from all start positions of a file, one file for each."""
    from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as m

    rng = np.random.default_rng(vf.SEED * 67 + 3)
    todo = [b for b in behaviours(chk, "files", True, 4, [1], [NOWHERE]) if b["run"] == 4]
    done = 0
    for k in range(60 if vf.THOROUGH else 20):
        n = 1 if k % 5 == 4 else int(rng.integers(2, 13))
        step, margin = float(rng.choice([.01, .5])), 1e-3
        worlds = [World(rng, todo[int(rng.integers(len(todo)))], step, margin,
                        origin=np.array([50. * j, 7.5 * (j % 3)])) for j in rng.permutation(n)]
        for w in worlds:  # what is written to the file
            w.origin = np.array([float(f"{v:.18e}") for v in w.origin])

        def world(x):
            return min(worlds, key=lambda w: np.linalg.norm(w.origin - x))

        tmp = tempfile.mkdtemp(prefix="vf_runs_")
        try:
            data = os.path.join(tmp, "data")
            os.makedirs(data)
            with open(os.path.join(tmp, "comparison_parameters.json"), "w") as fl:
                json.dump({"it_max": 4, "delta_time": step, "conv_margin": margin}, fl)
            np.savetxt(os.path.join(data, "initial_positions.csv"),
                       np.array([w.origin for w in worlds]), header="x, y", delimiter=",")
            if k % 2:
                os.makedirs(os.path.join(data, "runs"))
            try:
                with vf.quiet(cpu=30):
                    m.evaluate_trajectories(
                        datapath=data, avoidance_functor=lambda x: world(x).unit(x),
                        outputfolder="runs", collision_functor=lambda x: world(x).blocked(x))
            except IndexError as err:
                chk.violation("files/" + ("single-start" if n == 1 else "failed"), str(err))
                continue
            names = sorted(os.listdir(os.path.join(data, "runs")))
            if names != [f"trajectory{j:03d}.csv" for j in range(n)]:
                chk.violation("files/names", f"{n} starts: {names}")
                continue
            with vf.quiet():
                for name, w in zip(names, worlds):
                    out = np.loadtxt(os.path.join(data, "runs", name), delimiter=",", ndmin=2)
                    judge(chk, f"files/{w.b['status']}", w, out.reshape(-1, 2))
                    done += 1
        finally:
            shutil.rmtree(tmp)
    chk.count("files", done)


def starts(chk):
    """Grids of free start positions."""
    from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as m

    rng = np.random.default_rng(vf.SEED * 67 + 4)

    class Circles:
        def __init__(self, circles):
            self.circles = circles

        def get_minimum_gamma(self, x):
            return min(np.linalg.norm(x - c) / r for c, r in self.circles)

    recs = []
    for k in range(60 if vf.THOROUGH else 25):
        n = int(rng.integers(2, 9))
        xl, yl = np.sort(rng.integers(-15, 16, 2)) / 10, np.sort(rng.integers(-15, 16, 2)) / 10
        if xl[0] == xl[1] or yl[0] == yl[1]:
            continue
        env = [(rng.uniform(-1.5, 1.5, 2).round(4), round(float(rng.uniform(.1, .9)), 4))
               for _ in range(int(rng.integers(1, 4)))]
        env[-1] = (env[-1][0], min(env[-1][1], .5))
        tmp = tempfile.mkdtemp(prefix="vf_runs_")
        try:
            with vf.quiet():
                m.create_start_positions(n, list(xl), list(yl), Circles(env), tmp,
                                         store_to_file=True)
                stored = os.path.join(tmp, "initial_positions.csv")
                if not os.path.exists(stored):
                    chk.violation("starts/not-stored", "no file of start positions")
                    continue
                out = np.loadtxt(stored, delimiter=",", skiprows=1, ndmin=2).reshape(-1, 2)
        finally:
            shutil.rmtree(tmp)
        recs.append({"n": n, "xlim": vf.q(xl), "ylim": vf.q(yl), "out": vf.q(out),
                     "circles": [{"x": vf.q(c), "r": vf.q(r)} for c, r in env]})
    vf.validate(chk, "starts", "RunsTrace", recs, key=lambda r, c: f"starts/{c}")


PARTS = [unit_runs, timed_runs, files, starts]
