"""Obstacles of several components: Skeleton (model -> code), SkeletonTrace."""
import math

import numpy as np

import vf
from props import _scenes as sc

PROBES = [(0, 0), (1, 0), (0, 1), (2, 1), (-1, 2), (2, -2), (-3, 0), (4, 3)]
FRAMES = [(0, 0, 0), (1, 2, 1), (-2, 1, 3)]
PLACES = [(0, 0, 0), (2, 0, 1), (-1, 2, 2)]


def tla(seq):
    return "<<" + ", ".join("<<" + ", ".join(map(str, s)) + ">>" for s in seq) + ">>"


def ints(v):
    r = np.rint(np.asarray(v, float))
    if np.max(np.abs(np.asarray(v, float) - r), initial=0) > 1e-6:
        return [float(x) for x in np.asarray(v, float)]
    return [int(x) for x in r]


def place(pose):
    k = (pose.orientation or 0.0) / (math.pi / 2)
    kk = int(round(k)) % 4 if abs(k - round(k)) < 1e-6 else float(k)
    return ints(pose.position) + [kk]


def skeleton(chk):
    m = sc.mods()
    cfg = (f"SPECIFICATION Spec\nCONSTANTS MaxN = {3 if vf.THOROUGH else 3} MaxSize = "
           f"{2 if vf.THOROUGH else 2}\n"
           "CONSTANT Frames <- CFrames Places <- CPlaces Probes <- CProbes\n"
           "VIEW View\nINVARIANT Rooted\nPROPERTY Rigid\nACTION_CONSTRAINT Emit\n")
    frames, places = FRAMES, PLACES if vf.THOROUGH else PLACES[:2]
    if not vf.THOROUGH:
        frames = FRAMES[:2]
    mc = ("---- MODULE MCSkeleton ----\nEXTENDS Skeleton\n"
          f"CFrames == {tla(frames)}\nCPlaces == {tla(places)}\n"
          f"CProbes == {tla(PROBES)}\n====\n")
    r = vf.run_tlc("MCSkeleton", cfg, files={"MCSkeleton.tla": mc})
    chk.add_tlc(r, "skeleton")

    def pose(p):
        return m.Pose(np.array(p[:2], float), p[2] * math.pi / 2)

    def disc(at, size):
        return m.Ellipse(pose=pose(at), axes_length=np.array([1.1, 1.1]) * size)

    def make(_):
        return {"o": m.MultiObstacle(pose(frames[0])), "size": 1}

    def apply(w, a):
        o = w["o"]
        if a["op"] == "root":
            return int(o.set_root(disc(a["at"], a["size"])))
        if a["op"] == "add":
            try:
                return int(o.add_component(disc(a["at"], a["size"]), parent_ind=a["p"],
                                           reference_position=np.array(a["ref"], float)))
            except ValueError:
                return -1
        if a["op"] == "move":
            o.update_pose(pose(a["to"]))
        elif a["op"] == "grow":
            o.deformation_rate = 2.0
            o.update_deformation(0.5)
            w["size"] *= 2
        elif a["op"] == "push":
            o.linear_velocity = np.array(a["v"], float)
        return None

    def project(w):
        o = w["o"]
        n = o.n_components
        probes = [np.array(p, float) for p in PROBES]
        copy = o.get_pose()
        copy.position = copy.position + 7  # a copy: no effect
        comps = [o.get_component(k) for k in range(n)]
        if (len(o) != n or [id(c) for c in o] != [id(c) for c in comps]
                or any(o[k] is not comps[k] for k in range(n)) or o.dimension != 2
                or (n and o.get_root() is not comps[o.root_idx])):
            return {"inconsistent": n}
        if place(o.pose) != place(o.get_pose()):
            return {"pose": [place(o.pose), place(o.get_pose())]}
        kids = []
        for k in range(n):
            kids.append([j for j in range(n) if o.get_parent_idx(j) == k])
        return {
            "n": n, "frame": place(o.get_pose()), "vel": ints(o.linear_velocity),
            "size": w["size"],
            "poses": [place(c.pose) for c in comps],
            "refs": [ints(c.get_reference_point(in_global_frame=True)) for c in comps],
            "parents": [-1 if o.get_parent_idx(k) is None else int(o.get_parent_idx(k))
                        for k in range(n)],
            "children": kids,
            "free": [bool(o.is_collision_free(p)) for p in probes] if n else [],
            "freelocal": [bool(o.is_collision_free(p, in_global_frame=False))
                          for p in probes] if n else [],
            "except": [[bool(o.get_gamma_except_components(p, [k]) > 1) for p in probes]
                       if n > 1 else [] for k in range(n)]}

    def check_state(w, post):
        o = w["o"]
        if o.n_components == 0:
            return None
        for p in PROBES:
            p = np.array(p, float)
            g = o.get_gamma(p)
            loc = o.get_gamma(o.get_pose().transform_position_to_relative(p),
                              in_global_frame=False)
            ex = [o.get_gamma_except_components(p, [k]) for k in range(o.n_components)
                  if o.n_components > 1]
            if abs(g - loc) > 1e-6 * max(1, g):
                return "local-gamma", f"{g} and {loc} at {p}"
            if ex and abs(min(ex) - g) > 1e-9:
                return "except-gamma", f"{g} and without one component {ex} at {p}"
            if not ex:
                try:
                    o.get_gamma_except_components(p, [0])
                    return "nothing-left", "no error without components"
                except ValueError:
                    pass
        return None

    vf.lockstep(chk, "skeleton", r.json, r.json[0]["pre"], make, apply, project,
                check_state=check_state, walks=100 if vf.THOROUGH else 20)


PARTS = [skeleton]
