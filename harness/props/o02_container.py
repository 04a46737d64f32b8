"""Container of obstacles: specs/Containers.tla replayed into MultiObstacleContainer."""
import numpy as np

import vf
from props import _scenes as sc
from props.o01_multiobstacle import ints, tla

PROBES = [(0, 0), (1, 0), (2, 1), (-1, 2), (3, 0), (5, 5)]
SPOTS = [(0, 0), (3, 0), (-1, 2)]


def container(chk):
    m = sc.mods()
    n = 4 if vf.THOROUGH else 3
    spots = SPOTS if n == 3 else SPOTS[:2]
    cfg = (f"SPECIFICATION Spec\nCONSTANTS NumObstacles = {n}\n"
           "CONSTANT Spots <- CSpots Probes <- CProbes\nVIEW View\n"
           "PROPERTY Shrinks\nACTION_CONSTRAINT Emit\n")
    mc = ("---- MODULE MCContainers ----\nEXTENDS Containers\n"
          f"CSpots == {tla(spots)}\nCProbes == {tla(PROBES)}\n====\n")
    r = vf.run_tlc("MCContainers", cfg, files={"MCContainers.tla": mc})
    chk.add_tlc(r, "container")

    def make(_):
        obs = {}
        for k in range(1, n + 1):
            o = sc.ball(m, spots[0], [1.1, 1.1])
            if k % 2 == 0:
                o.add_component(m.Ellipse(center_position=np.array([1., 0]),
                                          axes_length=np.array([1.1, 1.1])), parent_ind=0,
                                reference_position=np.array([-.5, 0]))
            obs[k] = o
        return {"c": m.MultiObstacleContainer(), "obs": obs}

    def apply(w, a):
        if a["op"] == "append":
            w["c"].append(w["obs"][a["k"]])
        else:
            w["obs"][a["k"]].update_pose(m.Pose(np.array(a["to"], float), 0.0))

    def project(w):
        c, obs = w["c"], w["obs"]
        name = {id(o): k for k, o in obs.items()}
        lists = [[name.get(id(o), "?") for o in c],
                 [name.get(id(c.get_obstacle_tree(k)), "?") for k in range(len(c))],
                 [name.get(id(c.get_tree(k)), "?") for k in range(len(c))]]
        if lists[0] != lists[1] or lists[0] != lists[2]:
            return {"lists": lists}
        free = [bool(c.is_collision_free(np.array(p, float))) for p in PROBES]
        free2 = [bool(c.is_in_free_space(np.array(p, float))) for p in PROBES]
        if free != free2:
            return {"free": free, "free space": free2}
        return {"n": len(c), "list": lists[0],
                "places": [ints(o.get_pose().position) for o in c], "free": free,
                "at": [ints(obs[k].get_pose().position) for k in sorted(obs)]}

    def check_state(w, post):
        c = w["c"]
        if len(c) == 0:
            return None
        for p in PROBES:
            p = np.array(p, float)
            g, want = c.get_gamma(p), min(o.get_gamma(p) for o in c)
            if abs(g - want) > 1e-9:
                return "gamma", f"{g} at {p}, the least of the obstacles is {want}"
        return None

    vf.lockstep(chk, "container", r.json, r.json[0]["pre"], make, apply, project,
                check_state=check_state, walks=60 if vf.THOROUGH else 20)


PARTS = [container]
