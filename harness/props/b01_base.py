"""Avoiders use what they have now: BaseAvoider (model -> code)."""
import numpy as np

import vf
from props import _scenes as sc
from props.o01_multiobstacle import tla

PLACES = [(1, 0), (-2, 3), (0, -1)]


class Dyn:
    dimension = 2

    def __init__(self, kind, a):
        self.kind, self.attractor = kind, np.array(a, float)

    def evaluate(self, p):
        e = self.attractor - p
        return e if self.kind == 1 else np.array([2 * e[1], -2 * e[0]])


def abstract(chk):
    from nonlinear_avoidance.base_avoider import BaseAvoider

    r = vf.run_tlc("MCBaseAvoider", "SPECIFICATION Spec\nCONSTANT Places <- CPlaces\n"
                   f"CONSTANTS Obstacles = {{1, 2}} MaxLen = {2 if vf.THOROUGH else 1}\n"
                   "VIEW View\nPROPERTY Pure\nACTION_CONSTRAINT Emit\n",
                   files={"MCBaseAvoider.tla": "---- MODULE MCBaseAvoider ----\nEXTENDS "
                          f"BaseAvoider\nCPlaces == {tla(PLACES)}\n====\n"})
    chk.add_tlc(r, "abstract")

    class Unfinished(BaseAvoider):
        pass

    class Avoider(BaseAvoider):
        log = None

        def avoid(self, position, initial_velocity, obstacle_list):
            self.log.append((position, initial_velocity, list(obstacle_list)))
            n = [o for o in obstacle_list]
            p1 = sum((k + 1) * o for k, o in enumerate(n))
            p2 = sum((k + 2) * o for k, o in enumerate(n))
            return np.array([3 * initial_velocity[0] + p1 * position[1],
                             initial_velocity[1] - p2 + position[0]])

    for cls in (BaseAvoider, Unfinished):
        try:
            cls(Dyn(1, (0, 0)), [])
            chk.violation("abstract/created", "an avoider without avoid() can be created")
        except TypeError:
            pass

    def make(_):
        d = {1: Dyn(1, PLACES[0]), 2: Dyn(2, PLACES[0])}
        obs = []
        a = Avoider(d[1], obs)
        a.log = []
        return {"a": a, "d": d, "out": None}

    def apply(w, act):
        a = w["a"]
        if act["op"] == "evaluate":
            a.log = []
            p = np.array(act["p"], float)
            w["out"] = a.evaluate(p)
            if list(p) != list(map(float, act["p"])):
                raise AssertionError("position changed")
        elif act["op"] == "swap":
            a.initial_dynamics = w["d"][1 if a.initial_dynamics is w["d"][2] else 2]
        elif act["op"] == "attract":
            a.initial_dynamics.attractor = np.array(act["to"], float)
        elif act["op"] == "add":
            a.obstacle_list.append(act["o"])
        else:
            a.obstacle_list = list(act["l"])

    def ints(v):
        return [int(round(float(e))) for e in v]

    def project(w):
        a = w["a"]
        if w["out"] is None:
            last = {"at": [], "vel": [], "obs": [], "out": []}
        elif len(a.log) != 1:
            last = {"calls": len(a.log)}
        else:
            p, v, o = a.log[0]
            last = {"at": ints(p), "vel": ints(v), "obs": o, "out": ints(w["out"])}
        return {"dyn": 1 if a.initial_dynamics is w["d"][1] else 2,
                "attr": ints(a.attractor), "attrs": [ints(w["d"][k].attractor) for k in (1, 2)],
                "list": list(a.obstacle_list), "last": last}

    vf.lockstep(chk, "abstract", r.json, r.json[0]["pre"], make, apply, project,
                walks=60 if vf.THOROUGH else 20)


def avoider(chk):
    """The avoider of trees: its parts may be exchanged between evaluations."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 47)
    recs = []

    def fresh(obs, ds):
        return sc.avoider(m, sc.container(m, obs), ds)

    with vf.quiet():
        pool = [sc.ball(m, rng.uniform(-2, 2, 2), rng.uniform(.4, .9, 2), rng.uniform(0, 3))
                for _ in range(4)] + [sc.box(m, rng.uniform(-2, 2, 2), [.8, 1.2], .4)]
        dyns = [m.LinearSystem(attractor_position=np.array(a), maximum_velocity=v)
                for a, v in (((3., 1.), 1.0), ((-3., 2.), .6))]
        obs, ds = [pool[0]], dyns[0]
        own = sc.container(m, obs)  # stays with the user, too
        a = sc.avoider(m, own, ds)
        for k in range(1500 if vf.THOROUGH else 300):
            act = rng.integers(5)
            if act == 0 and len(obs) < 4:
                o = pool[rng.integers(5)]
                if o not in obs:
                    obs = obs + [o]
                    (own if k % 2 else a.obstacle_list).append(o)
            elif act == 1:
                obs = [pool[j] for j in range(5) if rng.random() < .4]
                own = sc.container(m, obs)
                a.obstacle_list = own
            elif act == 2:
                pool[rng.integers(5)].update_pose(
                    m.Pose(rng.uniform(-2, 2, 2), float(rng.uniform(0, 3))))
            elif act == 3:
                ds = dyns[rng.integers(2)]
                a.initial_dynamics = ds
                a.convergence_dynamics = fresh(obs, ds).convergence_dynamics
            while True:
                x = rng.uniform(-4, 4, 2)
                if all(o.get_gamma(x, in_global_frame=True) > 1.01 for o in obs):
                    break
            x0 = x.copy()
            with np.errstate(all="ignore"):
                v, w = a.evaluate(x), fresh(obs, ds).evaluate(x.copy())
            if not np.array_equal(x, x0):
                chk.violation("avoider/position", "the position was changed")
            if list(a.obstacle_container) != obs or list(a.obstacle_list) != obs:
                chk.violation("avoider/list", "the avoider has other obstacles")
            recs.append({"f": "same", "v": vf.q(v), "w": vf.q(w)})
            if not obs:
                recs.append({"f": "same", "v": vf.q(v), "w": vf.q(ds.evaluate(x))})
    vf.validate(chk, "avoider", "LocalConvergence", recs, key=lambda r, c: c)


PARTS = [abstract, avoider]
