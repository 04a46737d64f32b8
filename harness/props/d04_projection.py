"""The dynamics around an obstacle: recorded results judged by ProjectionTrace."""
import copy
import math

import numpy as np
from scipy.spatial.transform import Rotation

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, unit


def body(m, rng, d):
    """A single obstacle whose reference point is its centre."""
    c = rng.uniform(-1, 1, d)
    angle = float(rng.uniform(-3, 3)) if d == 2 else Rotation.from_rotvec(rng.uniform(-1, 1, 3))
    kind = m.Ellipse if rng.integers(2) else m.CuboidXd
    ax = rng.uniform(.3, .8, d) * (1 if kind is m.Ellipse else 2)
    return kind(center_position=c, axes_length=ax, orientation=angle)


def projector(attr, ds=None, obstacle=None):
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics

    return ProjectedRotationDynamics(attractor_position=attr, initial_dynamics=ds,
                                     obstacle=obstacle)


def shells(chk):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 3)
    recs = []
    with vf.quiet():
        for k in range(2000 if vf.THOROUGH else 900):
            d = int(rng.choice([2, 2, 3]))
            o = body(m, rng, d)
            pr = projector(np.ones(d) * 3, obstacle=o)
            local = bool(rng.integers(2))
            p = rng.uniform(.05, 2) * unit(rng, d)
            w = float(rng.choice([1, 1, .5, .8]))
            at = p if local else p + o.center_position
            r = o.get_local_radius(at, in_global_frame=not local)
            if abs(np.linalg.norm(p) - r) < .02:
                continue
            keep = at.copy()
            out = pr._get_position_after_deflating_obstacle(
                at, in_obstacle_frame=local, deflation_weight=w)
            back = pr._get_position_after_inflating_obstacle(
                out, in_obstacle_frame=local, deflation_weight=w)
            if not np.array_equal(keep, at):
                chk.violation("shells/argument-modified", f"{keep} became {at}")
            zero = 0 if local else o.center_position
            recs.append({"kind": "shell", "p": vf.q(p), "r": vf.q(r), "w": vf.q(w),
                         "out": vf.q(out - zero), "back": vf.q(back - zero)})
    vf.validate(chk, "shells", "ProjectionTrace", recs)


def folds(chk):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 5)
    recs = []
    with vf.quiet():
        while len(recs) < (3000 if vf.THOROUGH else 1200):
            d = int(rng.choice([2, 2, 3, 3]))
            o = body(m, rng, d)
            local = bool(rng.integers(2))
            arm = rng.uniform(.6, 1.5) * unit(rng, d)
            if rng.integers(3) == 0:
                arm = float(rng.uniform(.6, 1.5)) * np.eye(d)[rng.integers(d)] * rng.choice([-1, 1])
            attr = -arm if local else o.center_position - arm
            pr = projector(attr + 5, obstacle=o)
            rel = unit(rng, d) * np.linalg.norm(arm) * rng.uniform(.3, 2.2)
            if rng.integers(6) == 0:
                rel = arm * rng.uniform(.4, 2)
            c = rel @ arm / np.linalg.norm(rel) / np.linalg.norm(arm)
            if c < -.75 or c > .9995 and c < .999999:
                continue
            x = attr + rel
            keep = (x.copy(), attr.copy())
            f = pr._get_folded_position_opposite_kernel_point(x, attr, in_obstacle_frame=local)
            back = pr._get_unfolded_position_opposite_kernel_point(
                f, attr, in_obstacle_frame=local)
            if not (np.array_equal(keep[0], x) and np.array_equal(keep[1], attr)):
                chk.violation("folds/argument-modified", f"{keep} became {x} {attr}")
            f = f - (0 if local else o.center_position)
            recs.append({"kind": "fold", "o": vf.q(arm), "p": vf.q(rel), "f": vf.q(f),
                         "back": vf.q(back - attr)})
    vf.validate(chk, "folds", "ProjectionTrace", recs)
    chk.sample({"part": "folds", "record": recs[0]})


def moved(o, Q, shift):
    o = copy.deepcopy(o)
    if len(shift) == 2:
        o.pose.orientation = o.pose.orientation + math.atan2(Q[1, 0], Q[0, 0])
    else:
        o.pose.orientation = Rotation.from_matrix(Q) * o.pose.orientation
    o.pose.position = Q @ o.pose.position + shift
    return o


def weights(chk):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 7)
    recs = []
    with vf.quiet():
        while len(recs) < (6000 if vf.THOROUGH else 2700):
            d = int(rng.choice([2, 2, 3]))
            o = body(m, rng, d)
            attr = o.center_position + rng.uniform(1.5, 3) * unit(rng, d)
            if o.get_gamma(attr, in_global_frame=True) < 1.05:
                continue
            pr = projector(attr)
            x = o.center_position + rng.uniform(.1, 3) * unit(rng, d)
            g = o.get_gamma(x, in_global_frame=True)
            if abs(g - 1) < .01 or np.linalg.norm(x - attr) < .1:
                continue
            w = pr.evaluate_projected_weight(x, o)
            if g < 1:
                recs.append({"kind": "one", "w": vf.q(w)})
            else:
                pr.obstacle = o
                px = pr.get_projected_position(x)
                pg = o.get_gamma(px, in_global_frame=True)
                if pg < 4 and g < 4:
                    recs.append({"kind": "weight", "g": vf.q(g), "pg": vf.q(pg), "w": vf.q(w)})
                # the surface remains the surface, the centre of the dynamics is kept
                away = -o.get_reference_direction(x, in_global_frame=True)
                s = o.get_intersection_with_surface(o.center_position, away, in_global_frame=True)
                on = s + (s - o.center_position) * 1e-9
                recs.append({"kind": "one", "w": vf.q(pr.evaluate_projected_weight(on, o))})
            Q = Rotation.from_rotvec(rng.uniform(-2, 2, 3)).as_matrix() if d == 3 else sc.rot(
                rng.uniform(-3, 3))
            shift = rng.uniform(-5, 5, d)
            w2 = projector(Q @ attr + shift).evaluate_projected_weight(Q @ x + shift,
                                                                      moved(o, Q, shift))
            recs.append({"kind": "same", "a": vf.q(w), "b": vf.q(w2)})
        for k in range(360 if vf.THOROUGH else 180):
            # around the attractor of a disc
            r = rng.uniform(.3, .7)
            c = rng.uniform(-2, 2, 2)
            arm = rng.uniform(1.2, 2.5)
            way = rng.uniform(-3, 3)
            o = m.Ellipse(center_position=c, axes_length=np.array([r, r]), orientation=0.)
            attr = c - arm * np.array([math.cos(way), math.sin(way)])
            pr = projector(attr)
            rho = arm * rng.uniform(.5, 1.8)
            side = rng.choice([-1, 1])
            ws = [pr.evaluate_projected_weight(
                attr + rho * np.array([math.cos(way + side * t), math.sin(way + side * t)]), o)
                for t in np.linspace(0, math.pi - 1e-3, 25)]
            recs.append({"kind": "order", "ws": [vf.q(w) for w in ws]})
    vf.validate(chk, "weights", "ProjectionTrace", recs)


def turns(chk):
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 11)
    recs = []
    with vf.quiet():
        for k in range(4000 if vf.THOROUGH else 1500):
            d = int(rng.choice([2, 2, 3]))
            o = body(m, rng, d)
            attr = o.center_position + rng.uniform(1, 3) * unit(rng, d)
            kinds = ["linear", "wavy", "stretched", "spiral"] if d == 2 else ["linear"]
            ds = dynamics(m, str(rng.choice(kinds)), attr)
            pr = projector(attr, ds)
            x = o.center_position + rng.uniform(.2, 3) * unit(rng, d)
            special = rng.integers(8)
            if special == 0:
                x = attr.copy()
            elif special == 1:
                attr = pr.attractor_position = np.round(attr)
                ds.attractor_position = attr
                o.center_position = attr + np.eye(d)[0] * 2
                x = attr - np.eye(d)[0]
            b = attr - o.center_position
            if not np.linalg.norm(b):
                continue
            b = b / np.linalg.norm(b)
            a = attr - x
            if np.linalg.norm(a):
                a = a / np.linalg.norm(a)
            if special > 1 and not -.85 < a @ b < .998:
                continue
            probe = unit(rng, d)
            for way in range(2):
                rot = (pr.evaluate_rotation_position_to_transform(x, o) if way else
                       pr.evaluate_rotation_start_to_end(x, o.center_position, center=attr))
                recs.append({"kind": "turn", "a": vf.q(a), "b": vf.q(b), "w": vf.q(probe),
                             "none": rot is None, "v": vf.q(
                                 probe if rot is None else rot.rotate(probe))})
            # around the shrunk obstacle
            if special > 1:
                pr.obstacle = o
                sx = pr._get_position_after_deflating_obstacle(x, in_obstacle_frame=False)
                sa = pr._get_position_after_deflating_obstacle(attr, in_obstacle_frame=False)
                u, v = sa - sx, sa - o.center_position
                if min(np.linalg.norm(u), np.linalg.norm(v)) > .05:
                    u, v = u / np.linalg.norm(u), v / np.linalg.norm(v)
                    if -.85 < u @ v < .998:
                        rot = projector(attr, ds).evaluate_rotation_shrunkposition_to_transform(
                            x, o)
                        recs.append({"kind": "turn", "a": vf.q(u), "b": vf.q(v),
                                     "w": vf.q(probe), "none": rot is None,
                                     "v": vf.q(probe if rot is None else rot.rotate(probe))})
            # the dynamics around the obstacle
            v0 = ds.evaluate(x)
            vo = ds.evaluate(o.center_position)
            if special < 2:
                same = pr.evaluate_convergence_around_obstacle(x, o)
                if not np.array_equal(same, v0):
                    chk.violation("turns/no-transform", f"{same} is not {v0} at {x}")
                continue
            w = pr.evaluate_projected_weight(x, o)
            res = pr.evaluate_convergence_around_obstacle(x, o)
            if d == 2:
                recs.append({"kind": "blend", "a": vf.q(a), "b": vf.q(b), "v0": vf.q(v0),
                             "vo": vf.q(vo), "w": vf.q(w), "v": vf.q(res)})
                init = evaluate_dynamics_sequence(x, ds)
                end = pr.compute_obstacle_convergence_sequence(x, o, init).get_end_vector()
                recs.append({"kind": "chain", "base": vf.q(a), "init": vf.q(unit_of(v0)),
                             "b": vf.q(b), "vo": vf.q(unit_of(vo)), "w": vf.q(w),
                             "v": vf.q(end)})
            around = pr.evaluate_convergence_sequence_around_obstacle(
                x, o, evaluate_dynamics_sequence(x, ds))
            start, end = around.basis_array[:, 0, 0], around.get_end_vector()
            if not (np.allclose(start, a) and np.allclose(end, unit_of(vo))
                    and around.n_rotations == 2):
                chk.violation("turns/sequence-around", f"from {start} to {end} instead of "
                              f"from {a} to {vo} in {around.n_rotations} turns")
            base = pr.get_base_convergence(x)
            if not np.allclose(base, a):
                chk.violation("turns/base", f"{base} at {x} with attractor {attr}")
    vf.validate(chk, "turns", "ProjectionTrace", recs)


def unit_of(v):
    return v / np.linalg.norm(v)


PARTS = [shells, folds, weights, turns]
