"""Circular, spiraling and wavy dynamics, judged by CycleTrace."""
import math

import numpy as np
from scipy.spatial.transform import Rotation

import vf
from props import _scenes as sc
from props.a01_closedloop import unit


def mods():
    m = sc.mods()
    from nonlinear_avoidance.dynamics import circular_dynamics as cd
    from nonlinear_avoidance.dynamics import constant_value as cv
    from nonlinear_avoidance.dynamics import spiral_dynamics as sd
    from nonlinear_avoidance.dynamics import wavy_attractor_dynamics as wd

    from vartools.states import ObjectPose
    m.__dict__.update({k: v for k, v in locals().items() if k != "m"})
    return m


def circle(m, rng, d):
    """Circular dynamics, the matrix from its frame and its centre."""
    c = rng.uniform(-3, 3, d)
    R = float(rng.uniform(.4, 1.6))
    vmax = float(rng.uniform(.4, 2))
    if d == 2:
        a = float(rng.uniform(-3, 3))
        return m.cd.SimpleCircularDynamics(
            pose=m.ObjectPose(c.copy(), a), radius=R, maximum_velocity=vmax), sc.rot(a), c, R, vmax
    Q = Rotation.from_rotvec(rng.uniform(-2, 2, 3))
    if rng.integers(2):
        ds = m.cd.SimpleCircularDynamics(pose=m.ObjectPose(c.copy(), Q), radius=R,
                                         maximum_velocity=vmax)
    else:
        ds = m.cd.SimpleCircularDynamics(base_matrix=Q.as_matrix(), radius=R,
                                         pose=m.ObjectPose(c.copy()), maximum_velocity=vmax)
    return ds, Q.as_matrix(), c, R, vmax


def circles(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 103)
    recs = []
    with vf.quiet():
        for k in range(10000 if vf.THOROUGH else 3000):
            d = int(rng.choice([2, 2, 3]))
            ds, Q, c, R, vmax = circle(m, rng, d)
            p = unit(rng, d) * R * rng.uniform(.05, 1.7)
            if rng.integers(5) == 0:
                p = np.append(R * unit(rng, 2), np.zeros(d - 2))
            x = c + Q @ p
            keep = x.copy()
            v = Q.T @ ds.evaluate(x)
            if not np.array_equal(keep, x) or not np.array_equal(ds.pose.position, c):
                chk.violation("circles/argument-changed", f"{keep} became {x}")
            recs.append({"kind": "circle", "p": vf.q(p), "rad": vf.q(R), "vmax": vf.q(vmax),
                         "v": vf.q(v)})
            if k % 10 == 0:
                recs.append({"kind": "rest", "v": vf.q(ds.evaluate(c.copy()))})
    vf.validate(chk, "circles", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "circles", "record": recs[0]})


def turning(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 107)
    recs = []
    with vf.quiet():
        for k in range(8000 if vf.THOROUGH else 2400):
            R = float(rng.uniform(.5, 1.5))
            fin, fout = (float(f) for f in rng.uniform(.5, 4, 2))
            side = int(rng.choice([-1, 1]))
            speed = float(rng.uniform(.4, 2))
            kw = {}
            c = np.zeros(2)
            if rng.integers(2):
                c = rng.uniform(-2, 2, 2)
                kw["pose"] = m.ObjectPose(c.copy(), 0.)
            B = np.eye(2)
            if rng.integers(2):
                kw["base_matrix"] = B = sc.rot(rng.uniform(-3, 3))
            ds = m.cd.CircularRotationDynamics(
                radius=R, constant_velocity=speed, inside_approaching_factor=fin,
                outside_approaching_factor=fout, direction=side, **kw)
            p = unit(rng, 2) * R * rng.choice([rng.uniform(.25, 2.2), 1])
            x = c + B @ p
            recs.append({"kind": "turning", "p": vf.q(p), "rad": vf.q(R), "fin": vf.q(fin),
                         "fout": vf.q(fout), "side": side, "speed": vf.q(speed),
                         "v": vf.q(B.T @ ds.evaluate(x))})
            if k % 10 == 0:
                recs.append({"kind": "rest", "v": vf.q(ds.evaluate(c.copy()))})
                for far in (1e4, 1e-4):  # straight in from far away, straight out in the middle
                    v = B.T @ ds.evaluate(c + B @ p * far)
                    out = np.sign(.5 - (far > 1)) * p / np.linalg.norm(p) * speed
                    recs.append({"kind": "same", "v": vf.q(v), "w": vf.q(out)})
    vf.validate(chk, "turning", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def spirals(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 109)
    recs = []
    with vf.quiet():
        for k in range(6000 if vf.THOROUGH else 1600):
            c, direction = rng.uniform(-2, 2, 3), unit(rng, 3) * rng.uniform(.4, 1.5)
            R, speed = float(rng.uniform(.5, 1.5)), float(rng.uniform(.3, 2))
            ds = m.sd.SpiralingDynamics3D.create_from_direction(
                c.copy(), direction.copy(), radius=R, speed=speed)
            E = ds.pose.rotation_matrix
            if not np.allclose(E[:, 0], direction / np.linalg.norm(direction)):
                chk.violation("spirals/axis", f"{E[:, 0]} is not the axis {direction}")
            across = unit(rng, 2) * R * rng.uniform(.1, 1.7)
            x = c + E[:, 0] * rng.uniform(-3, 3) + E[:, 1:] @ across
            recs.append({"kind": "spiral", "e": [vf.q(E[:, 1]), vf.q(E[:, 2])],
                         "p": vf.q(across), "rad": vf.q(R), "dir": vf.q(direction),
                         "speed": vf.q(speed), "v": vf.q(ds.evaluate(x))})
            recs.append({"kind": "same", "v": vf.q(ds.evaluate_convergence_around_obstacle(
                x, None)), "w": vf.q(direction)})
            # moved along with its centre
            shift = rng.uniform(-3, 3, 3)
            other = m.sd.SpiralingDynamics3D.create_from_direction(
                c + shift, direction.copy(), radius=R, speed=speed)
            recs.append({"kind": "same", "v": vf.q(ds.evaluate(x)),
                         "w": vf.q(other.evaluate(x + shift))})
            v = rng.uniform(-2, 2, 3)
            const = m.cv.ConstantValueWithSequence(v)
            s = const.evaluate_dynamics_sequence(x)
            recs.append({"kind": "same", "v": vf.q(const.evaluate(x)), "w": vf.q(v)})
            recs.append({"kind": "same", "v": vf.q(s.get_end_vector()),
                         "w": vf.q(v / np.linalg.norm(v))})
    vf.validate(chk, "spirals", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def waves(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 113)
    recs = []
    with vf.quiet():
        for k in range(6000 if vf.THOROUGH else 1600):
            attr = rng.uniform(-2, 2, 2)
            kw, stretch, most = {}, 1., math.pi * .3
            if rng.integers(2):
                kw["distance_strech_factor"] = stretch = float(rng.uniform(.3, 3))
            if rng.integers(2):
                kw["maximum_deviation"] = most = float(rng.uniform(0, 1.5))
            vmax = float(rng.uniform(.5, 2))
            ds = m.wd.WavyLinearDynamics(attractor_position=attr, maximum_velocity=vmax, **kw)
            x = attr + unit(rng, 2) * rng.uniform(.1, 3.8)
            lin = m.LinearSystem(attractor_position=attr, maximum_velocity=vmax)
            v = ds.evaluate(x)
            recs.append({"kind": "wavy", "l": vf.q(lin.evaluate(x)),
                         "dist": vf.q(np.linalg.norm(x - attr)), "stretch": vf.q(stretch),
                         "most": vf.q(most), "v": vf.q(v)})
            if most < 1.5 and v @ (attr - x) <= 0:
                chk.violation("waves/away", f"{v} leads away from the attractor at {x - attr}")
            if k % 10 == 0:
                recs.append({"kind": "rest", "v": vf.q(ds.evaluate(attr.copy()))})
    vf.validate(chk, "waves", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def bases(chk):
    """The base of dynamics moves along its own dynamics while the robot is near."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 127)
    recs = []
    with vf.quiet():
        for k in range(4000 if vf.THOROUGH else 1200):
            c = rng.uniform(-2, 2, 2)
            R, f = float(rng.uniform(.4, 1.3)), float(rng.uniform(1, 8))
            main = m.cd.SimpleCircularDynamics(pose=m.ObjectPose(c.copy(), 0.))
            own = m.cd.SimpleCircularDynamics(pose=m.ObjectPose(np.zeros(2), 0.), radius=2.)
            ds = m.cd.DynamicDynamics(main, own, influence_radius=R, frequency=f)
            if rng.integers(2):
                ds.decent_factor = float(rng.uniform(1.5, 2.5))
            for _ in range(3):
                a = ds.position.copy()
                x = a + unit(rng, 2) * R * rng.uniform(.1, 3)
                vel = own.evaluate(a)
                before = ds.evaluate(x)
                ds.update_base(x)
                recs.append({"kind": "base", "from": vf.q(a), "at": vf.q(ds.position),
                             "x": vf.q(x), "rad": vf.q(R), "dec": vf.q(ds.decent_factor),
                             "vel": vf.q(vel), "dt": vf.q(1 / f)})
                # the dynamics move along with their base
                recs.append({"kind": "same", "v": vf.q(before),
                             "w": vf.q(ds.evaluate(x + ds.position - a))})
    vf.validate(chk, "bases", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def orbits(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 131)
    recs = []
    dt = .004
    with vf.quiet():
        for k in range(60 if vf.THOROUGH else 12):
            d = int(rng.choice([2, 3]))
            ds, Q, c, R, vmax = circle(m, rng, d)
            p = unit(rng, d) * R * rng.uniform(.4, 2)
            x = c + Q @ p
            rs, turns = [], []
            old = None
            for t in range(6000):
                if t % 60 == 0:
                    p = Q.T @ (x - c)
                    rs.append(np.linalg.norm(p[:2]) - R)
                    a = math.atan2(p[1], p[0])
                    if old is not None:
                        turns.append((a - old + math.pi) % (2 * math.pi) - math.pi)
                    old = a
                x = x + dt * ds.evaluate(x)
            if d == 3 and abs((Q.T @ (x - c))[2]) > .01:
                chk.violation("orbits/plane", f"{Q.T @ (x - c)} off the plane of the circle")
            if vmax * 60 * dt / R > 2.5 / .6:
                turns = []
            recs.append({"kind": "orbit", "rs": vf.q(rs), "turns": vf.q(turns) if d == 2 else [],
                         "slack": vf.q(.012 * vmax)})
    vf.validate(chk, "orbits", "CycleTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


PARTS = [circles, turning, spirals, waves, bases, orbits]
