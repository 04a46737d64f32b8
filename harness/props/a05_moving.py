"""Moving, turning and growing obstacles: MovingTrace, SurfaceTrace, ClosedLoop."""
import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, obstacles, unit
from props.a02_surface import surface_points

KINDS = ["ellipse", "box", "several", "ellipsoid", "block", "both", "arch", "tree", "offset",
         "offset3", "tilted", "bush", "branch"]


def scene(m, rng, kind):
    if not kind.startswith("offset"):
        return obstacles(m, rng, kind)
    out = []
    d = 3 if kind[-1] == "3" else 2
    for side in (-1.2, 1.2):  # the shape is off the origin of its frame
        o = m.MultiObstacle(m.Pose(rng.uniform(-.3, .3, d) + side * np.eye(d)[0],
                                   float(rng.uniform(-3, 3)) if d == 2 else None))
        o.set_root(m.Ellipse(center_position=rng.uniform(-.5, .5, d),
                             axes_length=rng.uniform(.3, .7, d)))
        out.append(o)
    return out


def set_motion(m, rng, o, kind):
    """Returns (linear, angular, growth) given to the obstacle."""
    d = o.dimension
    lin = rng.uniform(-.6, .6, d) if kind % 2 else np.zeros(d)
    ang = rng.uniform(-.6, .6, 3 if d == 3 else 1) if kind // 2 % 2 else np.zeros(
        3 if d == 3 else 1)
    grow = float(rng.uniform(-.4, .4)) if kind // 4 % 2 else 0.0
    if kind % 4 or rng.random() < .5:
        o.twist = m.Twist(linear=lin, angular=ang if d == 3 else float(ang[0]))
    if grow:
        o.deformation_rate = grow
    return lin, ang, grow


def body_velocity(o, motion, p):
    lin, ang, grow = motion
    r = p - o.get_pose().position
    turn = np.cross(ang, r) if len(r) == 3 else ang[0] * np.array([-r[1], r[0]])
    return lin + turn + grow * r


def rest(o):
    o.twist = None
    if hasattr(o, "deformation_rate"):
        del o.deformation_rate


def handed_over(chk):
    from nonlinear_avoidance.multi_obstacle_avoider import (
        compute_multiobstacle_relative_velocity as relative)

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 53)
    recs = []
    with vf.quiet():
        for t in range(900 if vf.THOROUGH else 240):
            obs = scene(m, rng, KINDS[t % len(KINDS)])
            d = obs[0].dimension
            # somewhere among the obstacles
            for _ in range(50):
                x = rng.uniform(-2.5, 2.5, d)
                g = [o.get_gamma(x, in_global_frame=True) for o in obs]
                if 1.03 < min(g) and max(g) < 8:
                    break
            else:
                continue
            cont = sc.container(m, obs)
            ds = dynamics(m, "linear", 3.5 * unit(rng, d))
            av = sc.avoider(m, cont, ds)
            v0 = av.evaluate(x)
            motions = [set_motion(m, rng, o, int(rng.integers(8))) for o in obs]
            bodies = [{"g": vf.q(o.get_gamma(x, in_global_frame=True)),
                       "at": vf.q(o.get_pose().position), "lin": vf.q(mo[0]),
                       "ang": vf.q(mo[1]), "grow": vf.q(mo[2])}
                      for o, mo in zip(obs, motions)]
            keep = [(b["at"], vf.q(o.get_pose().position)) for b, o in zip(bodies, obs)]
            v = av.evaluate(x)
            rel = relative(x, cont)
            if any(a != b for a, b in keep):
                chk.violation("handed-over/moved", "evaluating moves the obstacles")
            recs.append({"f": "moving", "x": vf.q(x), "bodies": bodies, "v0": vf.q(v0),
                         "v": vf.q(v), "rel": vf.q(rel), "tol": 40, "what": KINDS[t % len(KINDS)]})
    vf.validate(chk, "handed_over", "MovingTrace", recs, key=lambda r, c: f"{r['what']}/{c}")
    chk.sample({"part": "handed_over", "record": recs[0]})


def touched(chk):
    """On its surface the robot gives way to the obstacle."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 53 + 1)
    recs, scenes = [], []
    with vf.quiet():
        for t in range(480 if vf.THOROUGH else 120):
            kind = KINDS[t % len(KINDS)]
            obs = scene(m, rng, kind)
            cont = sc.container(m, obs)
            d = obs[0].dimension
            ds = dynamics(m, rng.choice(["linear", "wavy", "spiral"]) if d == 2
                          else "linear", 3.5 * unit(rng, d))
            av = sc.avoider(m, cont, ds)
            motions = {id(o): set_motion(m, rng, o, 1 + int(rng.integers(7))) for o in obs}
            scenes.append(sc.describe(cont))
            owner = [o for o in obs for _ in o]
            for p, shape, depth, single in surface_points(m, rng, obs, 6):
                if depth > .01 or depth < 0:
                    continue  # where the obstacle alone has the say
                o = owner[shape - 1]
                v = av.evaluate(p)
                recs.append({
                    "f": "surface", "scene": len(scenes), "shape": shape, "x": sc.mm(p),
                    "depth": int(round(depth * 1000)), "v": vf.q(v), "single": single,
                    "body": vf.q(body_velocity(o, motions[id(o)], p)),
                    "s0": vf.q(np.linalg.norm(ds.evaluate(p))), "what": kind})
    vf.validate(chk, "touched", "SurfaceTrace", recs, header={"scenes": scenes},
                chunk=10 ** 9, key=lambda r, c: f"{r['what']}/{c}")


def passing(chk):
    """The robot lets a moving obstacle pass and goes on to its attractor."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 53 + 2)
    recs, scenes = [], []
    dt = .01
    plan = ["ellipse", "box", "ellipsoid", "arch", "tree", "ellipse", "block", "box"]
    run = 0
    with vf.quiet():
        for kind in plan * (4 if vf.THOROUGH else 1):
            o = obstacles(m, rng, kind)[0]
            d = o.dimension
            a = unit(rng, d)
            x, attr = 4 * a, -4 * a
            ds = dynamics(m, "linear", attr)
            across = unit(rng, d)
            across -= across.dot(a) * a
            across /= np.linalg.norm(across)
            lin = .5 * across + .2 * a
            ang = rng.uniform(-.7, .7, 3 if d == 3 else 1)
            if d == 3:
                ang = np.zeros(3)  # poses in space are not turned here
            # meets the robot half way
            o.update_pose(m.Pose(-3.5 * lin + .3 * unit(rng, d), .3 if d == 2 else None))
            o.twist = m.Twist(linear=lin, angular=ang if d == 3 else float(ang[0]))
            cont = sc.container(m, [o])
            av = sc.avoider(m, cont, ds)
            for k in range(2200):
                if k % 4 == 0 or k == 2199:
                    scenes.append(sc.describe(cont))
                v = av.evaluate(x)
                near = np.linalg.norm(x - attr) < .06
                r = np.linalg.norm(x - o.get_pose().position)
                s0 = (np.linalg.norm(ds.evaluate(x)) + np.linalg.norm(lin)
                      + np.linalg.norm(ang) * r)
                if k % 4 == 0 or near:
                    if near and k % 4:
                        scenes.append(sc.describe(cont))
                    recs.append({"run": run, "k": 0 if k == 0 else 1, "x": sc.mm(x),
                                 "v": vf.q(v), "s0": vf.q(s0), "dt": int(dt * 1000),
                                 "scene": len(scenes), "tree": o.n_components > 1,
                                 "last": bool(near), "attr": sc.mm(attr), "within": 70,
                                 "what": kind, "jump": 3})
                if near or not np.all(np.isfinite(v)):
                    break
                x = x + dt * v
                p = o.get_pose()
                o.update_pose(m.Pose(p.position + dt * lin, p.orientation + dt * ang[0]
                                     if d == 2 else None))
            else:
                recs[-1]["last"] = kind not in ("arch", "tree")
            run += 1
    vf.validate(chk, "passing", "ClosedLoop", recs, header={"scenes": scenes},
                chunk=10 ** 9, key=lambda r, c: f"{r['what']}/{c}")
    chk.traces += run - 1


PARTS = [handed_over, touched, passing]
