"""Bodies of named parts: BodyParts in lockstep, update histories judged by LimbTrace."""
import copy
import math

import numpy as np
from scipy.spatial.transform import Rotation

import vf
from props import _scenes as sc

mm, ten = sc.mm, sc.ten


def mods():
    m = sc.mods()
    from nonlinear_avoidance import multi_body_human as mb
    from nonlinear_avoidance.rigid_body import RigidBody
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
    import vartools.state_filters as filters

    m.mb, m.RigidBody, m.Full, m.filters = mb, RigidBody, EllipseWithAxes, filters
    return m


def parts(chk):
    m = mods()
    cfg = ("SPECIFICATION Spec\nCONSTANTS Names = {%s}\n Ids = {7, 0}\n MaxN = 3\n"
           "VIEW View\nINVARIANTS Tree Earlier\nPROPERTY Grows\nACTION_CONSTRAINT Emit\n"
           % ('"a", "b", "c"' if vf.THOROUGH else '"a", "b"'))
    r = vf.run_tlc("BodyParts", cfg)
    chk.add_tlc(r, "parts")

    def ball():
        return m.Full(center_position=np.zeros(3), axes_length=np.ones(3))

    def apply(w, a):
        b, u = w["b"], a.get("u")
        if a["op"] == "root":
            b.set_root(ball(), name=a["n"], update_id=None if u == -1 else u)
            return 0
        try:
            if a["op"] == "attach":
                b.add_component(ball(), name=a["n"], reference_position=[.1, 0, 0],
                                parent_name=a["p"], parent_reference_position=[0, .2, 0],
                                update_id=None if u == -1 else u)
                return 0
            return int(b.get_obstacle_id_from_name(a["n"]) if a["op"] == "by_name"
                       else b.get_obstacle_id_from_optitrackid(u))
        except IndexError:
            return -1

    def project(w):
        b = w["b"]
        n = b.n_components
        ids = [b.get_update_id(k) for k in range(n)]
        opti = list(b.optitrack_indeces)
        if [-1 if u is None else u for u in ids] != opti:
            return {"ids": [ids, opti]}
        return {"n": n, "names": [b.get_name(k) for k in range(n)],
                "parents": [-1 if b.get_parent_idx(k) is None else int(b.get_parent_idx(k))
                            for k in range(n)], "ids": opti}

    base = [e["pre"] for e in r.json if e["pre"]["n"] == 0][0]
    vf.lockstep(chk, "parts", r.json, base, lambda _: {"b": m.mb.MultiBodyObstacle()},
                apply, project, walks=60, walk_depth=20)


def axes(o, d):
    return [ten(c) for c in o.pose.rotation_matrix.T] if d == 3 or o.pose.orientation is not None \
        else [ten(c) for c in np.eye(d)]


def pose(o):
    return {"p": ten(o.pose.position), "m": axes(o, len(o.pose.position))}


def rot(rng, mode=None):
    mode = rng.integers(4) if mode is None else mode
    if mode == 0:
        return Rotation.from_euler("z", rng.uniform(-3.1, 3.1))
    if mode == 1:
        return Rotation.from_euler("xyz", [0, 0, 0])
    return Rotation.from_rotvec(rng.normal(size=3))


class Tracker:
    def __init__(self):
        self.msgs = []

    def get_messages(self):
        return list(self.msgs)


class Screen:
    def __init__(self):
        self.seen = []

    def update(self, obstacles):
        self.seen.append(list(obstacles))


class Robot:
    def __init__(self, m, rng, ident):
        self.optitrack_id = ident
        self.pose = m.Pose(rng.uniform(-.4, .4, 3), rot(rng, 2))
        self.sent = 0

    def publish_robot_transform(self):
        self.sent += 1


def limb(m, rng, d):
    kind = m.CuboidXd if rng.integers(2) else m.Full
    ori = float(rng.uniform(-3, 3)) if d == 2 else rot(rng)
    return kind(center_position=rng.uniform(-.5, .5, d), orientation=ori,
                axes_length=rng.uniform(.2, .6, d))


def tree(m, rng, d, n, ids, special=False, **kw):
    b = m.mb.MultiBodyObstacle(**kw)
    b.dimension = d
    ps, depth = [], []
    for k in range(n):
        u = int(ids[k]) if k < len(ids) and ids[k] >= 0 else None
        o = limb(m, rng, d)
        if k == 0:
            if special:
                o.pose.position, o.pose.orientation = np.array([0, 0, .2]), rot(rng, 1)
            b.set_root(o, name="part0", update_id=u)
            ps.append({"par": -1, "id": -1 if u is None else u, "ref": [0] * d, "at": [0] * d})
            depth.append(0)
            continue
        par = int(rng.choice([j for j in range(k) if depth[j] < 3]))
        depth.append(depth[par] + 1)
        ref, at = (np.round(rng.uniform(-.14, .14, d), 3) for _ in range(2))
        if special:
            at[:2] = np.round(at[:2] * 4) / 4
        b.add_component(o, name=f"part{k}", reference_position=ref if k % 2 else list(ref),
                        parent_name=f"part{par}", parent_reference_position=at, update_id=u)
        if not np.allclose(o.get_reference_point(in_global_frame=False), ref):
            ref = np.full(d, 9.)
        ps.append({"par": par, "id": -1 if u is None else u, "ref": ten(ref), "at": ten(at)})
    return b, ps


def state(b):
    return [pose(b.get_component(k)) for k in range(b.n_components)]


def histories(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 421)
    recs = []
    with vf.quiet():
        for h in range(900 if vf.THOROUGH else 270):
            special = h % 6 == 5
            n = int(rng.integers(2, 7))
            ids = rng.permutation(np.arange(10, 10 + n))
            ids[ids == 11] = 0
            ids[rng.random(n) < .4] = -1
            if h % 7 == 3 and n > 2:
                ids[1:3] = 42  # two parts of the same identifier: the first is meant
            half = bool(h % 3 == 0) and not special
            m.filters.PositionFilter.default_alpha = .5 if half else 1.
            tracker, screen = Tracker(), Screen()
            robot = None if special or h % 2 else Robot(m, rng, int(rng.choice([3, 3, 3, 99])))
            try:
                b, ps = tree(m, rng, 3, n, ids, special, pose_updater=tracker, robot=robot,
                             visualization_handler=screen)
            finally:
                m.filters.PositionFilter.default_alpha = 1.
            rb = ({"id": -1, "p": [0, 0, 0], "m": [[0] * 3] * 3} if robot is None else
                  {"id": robot.optitrack_id, **pose(robot)})
            steps = []
            for _ in range(6):
                pool = [int(i) for i in ids if i >= 0] + [3, 55]
                who = [i for i in pool if rng.random() < .6]
                if rng.integers(5) == 0 and who:
                    who.append(who[0])
                rng.shuffle(who)
                msgs = [m.RigidBody(i, rng.uniform(-.6, .6, 3),
                                    rot(rng, 0 if i == ids[0] and rng.integers(2) else None))
                        for i in who]
                if special:  # markers straight above and below the joint
                    for x in msgs:
                        k = int(np.nonzero(ids == x.obs_id)[0][0]) if x.obs_id in ids else 0
                        if k and ps[k]["par"] == 0:
                            x.position = np.array(ps[k]["at"]) / 10000 + [
                                rng.choice([0, 0, .005]), 0, .2 + rng.choice([-.7, .7])]
                    msgs = [x for x in msgs if x.obs_id != ids[0]]
                if rng.integers(3) == 0:  # something else moved a part
                    o = b.get_component(int(rng.integers(0 if not special else 1, n)))
                    o.pose.position = rng.uniform(-.5, .5, 3)
                    o.pose.orientation = rot(rng)
                before = state(b)
                # a message is not kept by reference
                tracker.msgs = msgs
                told = [(x.position.copy(), x.rotation.as_matrix()) for x in msgs]
                count = len(screen.seen), robot.sent if robot else 0
                torobot, whole = bool(rng.integers(4)), True
                mode = "track"
                if rng.integers(6) == 0:
                    mode, whole = "align", False
                    b.align_obstacle_tree()
                elif torobot:
                    b.update()
                else:
                    whole = False
                    b.update_using_optitrack(transform_to_robot_frame=False)
                if any(not np.array_equal(x.position, t[0])
                       or not np.array_equal(x.rotation.as_matrix(), t[1])
                       for x, t in zip(msgs, told)):
                    chk.violation("histories/message-changed", f"{told}")
                shown = len(screen.seen) - count[0]
                if shown and [id(o) for o in screen.seen[-1]] != [
                        id(b.get_component(k)) for k in range(n)]:
                    shown = -1
                steps.append({
                    "mode": mode, "torobot": torobot, "whole": whole, "before": before,
                    "after": state(b), "shown": shown,
                    "robot": {"p": [0, 0, 0], "m": [[0] * 3] * 3} if robot is None else pose(robot),
                    "sent": robot.sent - count[1] if robot else 0,
                    "msgs": [{"id": int(x.obs_id), "p": ten(t[0]), "m": [ten(c) for c in t[1].T]}
                             for x, t in zip(msgs, told)]})
            recs.append({"kind": "history", "half": half, "parts": ps, "robot": rb,
                         "steps": steps})
    vf.validate(chk, "histories", "LimbTrace", recs, key=lambda r, c: c, chunk=100)
    chk.sample({"part": "histories", "record": recs[0]["parts"]})


def still(chk):
    """Without a tracker parts keep their orientation, in the plane and in space."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 431)
    recs, looks = [], []
    with vf.quiet():
        for h in range(600 if vf.THOROUGH else 225):
            d = 2 + h % 2
            n = int(rng.integers(2, 7))
            robot = Robot(m, rng, 3) if h % 3 == 0 else None
            screen = Screen()
            b, ps = tree(m, rng, d, n, [], robot=robot, visualization_handler=screen)
            steps = []
            for _ in range(4):
                for k in rng.permutation(n)[:2]:
                    o = b.get_component(int(k))
                    o.pose.position = rng.uniform(-.5, .5, d)
                    o.orientation = float(rng.uniform(-3, 3)) if d == 2 else rot(rng)
                before = state(b)
                count = len(screen.seen), robot.sent if robot else 0
                b.update()
                steps.append({"mode": "align", "torobot": True, "whole": True, "before": before,
                              "after": state(b), "shown": len(screen.seen) - count[0],
                              "sent": robot.sent - count[1] if robot else 0, "msgs": [],
                              "robot": pose(robot) if robot else {"p": [0] * 3, "m": [[0] * 3] * 3}})
                x = rng.uniform(-1.5, 1.5, d)
                each = [b.get_component(k).get_gamma(x, in_global_frame=True) for k in range(n)]
                looks.append({"kind": "gamma", "got": vf.q(b.get_gamma(x, in_global_frame=True)),
                              "each": [vf.q(g) for g in each]})
            recs.append({"kind": "history", "half": False, "parts": ps, "steps": steps,
                         "robot": {"id": 3, **pose(robot)} if robot else
                         {"id": -1, "p": [0, 0, 0], "m": [[0] * 3] * 3}})
    vf.validate(chk, "still", "LimbTrace", recs + looks,
                key=lambda r, c: f"{r['kind']}/{c}", chunk=200)


def parents(b):
    return [-1 if b.get_parent_idx(k) is None else int(b.get_parent_idx(k))
            for k in range(b.n_components)]


def copies(chk):
    """The body as an obstacle with components; the ready made humans."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 433)
    recs = []

    def facts(b):
        cs = [b.get_component(k) for k in range(b.n_components)]
        return {"parents": parents(b), "poses": [pose(c) for c in cs],
                "refs": [ten(c.get_reference_point(in_global_frame=False)) for c in cs]}

    with vf.quiet():
        for h in range(300 if vf.THOROUGH else 120):
            d = 2 + h % 2
            b, _ = tree(m, rng, d, int(rng.integers(1, 7)), [])
            b.align_obstacle_tree()
            was = facts(b)
            cs = [b.get_component(k) for k in range(b.n_components)]
            if h % 4 < 2:
                at, base = np.zeros(d), None
                mat = np.eye(d)
            else:
                base = m.Pose(rng.uniform(-.8, .8, d),
                              float(rng.uniform(-3, 3)) if d == 2 else rot(rng, 2))
                at, mat = base.position.copy(), base.rotation_matrix
            if base is None:
                new = m.mb.transform_from_multibodyobstacle_to_multiobstacle(b)
            else:
                new = m.mb.transform_from_multibodyobstacle_to_multiobstacle(b, base)
            same = (new.n_components == len(cs) and
                    all(new.get_component(k) is c for k, c in enumerate(cs)))
            recs.append({"kind": "copy", "from": was, "to": facts(new), "same": bool(same),
                         "base": {"p": ten(at), "m": [ten(c) for c in mat.T]}})
        for make, top in ((m.mb.create_2d_human, 7), (m.mb.create_3d_human, 9),
                          (m.mb.create_2d_human_with_multibodyobstacle, 7)):
            o = make()
            again = make()
            if again.get_component(0) is o.get_component(0):
                chk.violation("copies/shared", make.__name__)
            for turn in range(40 if top == 9 else 1):
                cs = [o.get_component(k) for k in range(o.n_components)]
                recs.append({"kind": "human", "top": top,
                             "parts": [{"par": p, "shape": solid(c)}
                                       for p, c in zip(parents(o), cs)],
                             "refs": [mm(c.get_reference_point(in_global_frame=True))
                                      for c in cs]})
                if top == 9:
                    for c in cs:
                        c.orientation = rot(rng)
                    o.update()
    vf.validate(chk, "copies", "LimbTrace", recs, key=lambda r, c: f"{r['kind']}/{c}", chunk=500)


def solid(c):
    mat = np.eye(len(c.center_position)) if c.pose.orientation is None else c.pose.rotation_matrix
    return {"k": "box" if type(c).__name__ == "CuboidXd" else "ball", "c": mm(c.center_position),
            "ax": mm(c._semi()), "m": [ten(r) for r in mat.T]}


PARTS = [parts, histories, still, copies]
