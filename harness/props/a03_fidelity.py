"""Fidelity to the initial dynamics and independence of frame, order and history."""
import copy
import math

import numpy as np
from scipy.spatial.transform import Rotation

import vf
from props import _scenes as sc
from props.a01_closedloop import obstacles, unit

KINDS = ["ellipse", "box", "several", "ellipsoid", "block", "both", "arch", "tree",
         "tilted", "bush", "branch"]


def make_dynamics(m, kind, attr, Q, speed=1.0):
    """The dynamics of that kind as seen in the frame turned by Q."""
    from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
    from vartools.dynamical_systems import ConstantValue

    d = attr.shape[0]
    if kind == "wavy":
        return WavyLinearDynamics(attractor_position=attr, maximum_velocity=speed)
    if kind == "constant":
        return ConstantValue(Q @ (np.arange(1, d + 1) / 3.0))
    A = np.eye(d)
    if kind == "stretched":
        A[0, 0] = 2.0
    if kind == "spiral":
        A[0, 1], A[1, 0] = .6, -.6
    return m.LinearSystem(attractor_position=attr, A_matrix=-Q @ A @ Q.T,
                          maximum_velocity=speed)


def turned(m, obs, Q, shift):
    out = copy.deepcopy(obs)
    for o in out:
        pose = o.get_pose()
        if len(shift) == 2:
            orient = (pose.orientation or 0.0) + math.atan2(Q[1, 0], Q[0, 0])
        else:
            orient = Rotation.from_matrix(Q @ pose.rotation_matrix)
        o.update_pose(m.Pose(Q @ pose.position + shift, orient))
    return out


def free_position(rng, cont, d, lim=4.0):
    while True:
        x = rng.uniform(-lim, lim, d)
        if cont.get_gamma(x) > 1.02:
            return x


def scenes(n, rng, m):
    for t in range(n):
        kind = KINDS[t % len(KINDS)]
        obs = obstacles(m, rng, kind)
        d = obs[0].dimension
        dyn = str(rng.choice(["linear", "stretched", "spiral", "wavy", "constant"]
                             if d == 2 else ["linear", "stretched", "spiral", "constant"]))
        while True:
            attr = rng.uniform(2, 5) * unit(rng, d)
            if sc.container(m, obs).get_gamma(attr) > 1.1:
                break
        kw = {"convergence_radius": float(rng.uniform(1.6, 3.0))} if t % 3 == 0 else {}
        yield kind, dyn, obs, d, attr, kw


def frames(chk):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 17 + 3)
    recs = []
    with vf.quiet():
        for kind, dyn, obs, d, attr, kw in scenes(320 if vf.THOROUGH else 160, rng, m):
            cont = sc.container(m, obs)
            av = sc.avoider(m, cont, make_dynamics(m, dyn, attr, np.eye(d)), **kw)
            if d == 2:
                Q = sc.rot(rng.uniform(0, 6.28))
            else:
                Q = Rotation.random(random_state=int(rng.integers(1 << 30))).as_matrix()
            shift = rng.uniform(-3, 3, d)
            there = sc.container(m, turned(m, obs, Q, shift))
            av2 = sc.avoider(m, there, make_dynamics(m, dyn, Q @ attr + shift, Q), **kw)
            for _ in range(4):
                x = free_position(rng, cont, d)
                recs.append({"f": "turned", "v": vf.q(av.evaluate(x)),
                             "w": vf.q(av2.evaluate(Q @ x + shift)),
                             "m": [vf.q(r) for r in Q], "what": f"{kind}/{dyn}",
                             "x": x.tolist()})
            if d == 2 and kind in ("ellipse", "box", "several") and dyn != "wavy":
                # mirrored at the first axis
                F = np.diag([1.0, -1.0])
                mir = copy.deepcopy(obs)
                for o in mir:
                    p = o.get_pose()
                    o.update_pose(m.Pose(F @ p.position, -(p.orientation or 0.0)))
                av3 = sc.avoider(m, sc.container(m, mir),
                                 make_dynamics(m, dyn, F @ attr, F), **kw)
                for _ in range(3):
                    x = free_position(rng, cont, d)
                    recs.append({"f": "turned", "v": vf.q(av.evaluate(x)),
                                 "w": vf.q(av3.evaluate(F @ x)),
                                 "m": [vf.q(r) for r in F], "what": f"mirror-{kind}/{dyn}",
                                 "x": x.tolist()})
    vf.validate(chk, "frames", "FidelityTrace", recs,
                key=lambda r, c: f"{r['what']}/{c}")
    chk.sample({"part": "frames", "record": recs[0]})


def histories(chk):
    """The answer depends on the scene only: not on the order of the obstacles, earlier
    evaluations or on how the avoider was created."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 19 + 5)
    recs = []
    with vf.quiet():
        for kind, dyn, obs, d, attr, kw in scenes(192 if vf.THOROUGH else 96, rng, m):
            ds = make_dynamics(m, dyn, attr, np.eye(d))
            cont = sc.container(m, obs)
            av = sc.avoider(m, cont, ds, **kw)
            perm = sc.avoider(m, sc.container(m, [obs[k] for k in rng.permutation(
                len(obs))]), ds, **kw)
            others = [("order", perm)]
            if dyn != "constant":
                direct = m.MultiObstacleAvoider(
                    obstacle_container=cont, initial_dynamics=ds,
                    create_convergence_dynamics=True, **kw)
                others.append(("created-directly", direct))
                if len(obs) == 1:
                    others.append(("single-obstacle", m.MultiObstacleAvoider(
                        obstacle=obs[0], initial_dynamics=ds,
                        create_convergence_dynamics=True, **kw)))
            xs = [free_position(rng, cont, d) for _ in range(4)]
            first = [av.evaluate(x) for x in xs]
            keep = [x.copy() for x in xs]
            for k in (2, 0, 3, 1):
                recs.append({"f": "same", "v": vf.q(first[k]), "w": vf.q(av.evaluate(xs[k])),
                             "what": f"again-{kind}/{dyn}"})
                recs.append({"f": "same", "v": vf.q(first[k]),
                             "w": vf.q(av.evaluate_sequence(xs[k])),
                             "what": f"sequence-{kind}/{dyn}"})
                for name, other in others:
                    recs.append({"f": "same", "v": vf.q(first[k]),
                                 "w": vf.q(other.evaluate(xs[k])),
                                 "what": f"{name}-{kind}/{dyn}"})
            if any(not np.array_equal(a, b) for a, b in zip(xs, keep)):
                chk.violation("histories/argument-changed", f"{keep} became {xs}")
            # a scene which is changed behaves as a new scene
            extra = sc.ball(m, 8 * unit(rng, d), [.5] * d)
            cont.append(extra)
            fresh = sc.avoider(m, sc.container(m, obs + [extra]), ds, **kw)
            recs.append({"f": "same", "v": vf.q(fresh.evaluate(xs[0])),
                         "w": vf.q(av.evaluate(xs[0])), "what": f"appended-{kind}/{dyn}"})
            shift = .2 * unit(rng, d)
            moved = turned(m, obs, np.eye(d), shift)
            for o in obs:
                o.update_pose(m.Pose(o.get_pose().position + shift,
                                     o.get_pose().orientation))
            fresh = sc.avoider(m, sc.container(m, moved + [extra]), ds, **kw)
            x = xs[1] + shift
            if cont.get_gamma(x) > 1.02:
                recs.append({"f": "same", "v": vf.q(fresh.evaluate(x)),
                             "w": vf.q(av.evaluate(x)), "what": f"moved-{kind}/{dyn}"})
    vf.validate(chk, "histories", "FidelityTrace", recs,
                key=lambda r, c: f"{r['what']}/{c}")


def free(chk):
    """Without obstacles, at the attractor and far from all obstacles."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 23 + 9)
    recs = []
    with vf.quiet():
        for kind, dyn, obs, d, attr, kw in scenes(384 if vf.THOROUGH else 192, rng, m):
            speed = float(rng.choice([.5, 1.0, 2.0]))
            ds = make_dynamics(m, dyn, attr, np.eye(d), speed)
            empty = sc.avoider(m, m.MultiObstacleContainer(), ds, **kw)
            av = sc.avoider(m, sc.container(m, obs), ds, **kw)
            for x in [rng.uniform(-4, 4, d), attr + .1 * unit(rng, d), attr + 3 * unit(rng, d)]:
                recs.append({"f": "free", "v": vf.q(empty.evaluate(x)),
                             "v0": vf.q(ds.evaluate(x)), "what": f"empty/{dyn}"})
            x = rng.choice([200., 400.]) * unit(rng, d)
            recs.append({"f": "far", "v": vf.q(av.evaluate(x)), "v0": vf.q(ds.evaluate(x)),
                         "tree": obs[0].n_components if len(obs) == 1 else 1,
                         "speed": vf.q(speed if dyn != "constant" else 2.0),
                         "what": f"far-{kind}/{dyn}"})
            for _ in range(3):
                x = free_position(rng, sc.container(m, obs), d)
                recs.append({"f": "speed", "v": vf.q(av.evaluate(x)),
                             "s0": vf.q(np.linalg.norm(ds.evaluate(x))),
                             "what": f"speed-{kind}/{dyn}"})
            if dyn != "constant":
                for a in (empty, av):
                    recs.append({"f": "attractor", "v": vf.q(a.evaluate(attr.copy())),
                                 "what": f"attractor/{dyn}"})
    vf.validate(chk, "free", "FidelityTrace", recs, key=lambda r, c: f"{r['what']}/{c}")


PARTS = [frames, histories, free]
