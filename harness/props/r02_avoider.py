"""The rotational avoider of single obstacles, judged by AvoiderTrace and ClosedLoop."""
import math

import numpy as np
from scipy.spatial.transform import Rotation

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, unit
from props.d04_projection import body, moved


def mods():
    m = sc.mods()
    from nonlinear_avoidance.avoidance import RotationalAvoider, obstacle_avoidance_rotational
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
    from nonlinear_avoidance.nonlinear_rotation_avoider import (
        ConvergenceDynamicsWithoutSingularity, NonlinearRotationalAvoider)
    from nonlinear_avoidance.rotation_container import RotationContainer
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence

    from vartools.linalg import get_orthogonal_basis

    from dynamic_obstacle_avoidance.utils import compute_weights
    m.__dict__.update({k: v for k, v in locals().items() if k != "m"})
    return m


def plane_dir(a):
    return np.array([math.cos(a), math.sin(a)])


def some(m, rng, n, d=2, shift=True):
    """n separate obstacles, some with the reference point off the centre."""
    out = []
    while len(out) < n:
        o = body(m, rng, d)
        o.center_position = o.center_position * 2.2
        if any(np.linalg.norm(o.center_position - p.center_position) < 1.7 for p in out):
            continue
        if shift and d == 2 and rng.integers(3) == 0:  # slim: normals far off the centre
            o = m.Ellipse(center_position=o.center_position, axes_length=np.array(
                [rng.uniform(.2, .3), rng.uniform(.8, .95)]), orientation=float(rng.uniform(-3, 3)))
        if shift and rng.integers(3) == 0:
            o.set_reference_point(o.center_position + .15 * unit(rng, d), in_global_frame=True)
        out.append(o)
    return out


def environment(m, obs):
    c = m.RotationContainer()
    for o in obs:
        c.append(o)
    return c


def seen(m, obs, x, cut=1e6):
    """Description of the obstacles which have a say at x."""
    close, gs, at = [], [], []
    for k, o in enumerate(obs):
        g = max(1.0, o.get_gamma(x, in_global_frame=True))
        if g < cut:
            close.append(o)
            gs.append(g)
            at.append(k)
    iw = m.compute_weights(np.array(gs))
    out = []
    for o, g, w, k in zip(close, gs, iw, at):
        n = o.get_normal_direction(x, in_global_frame=True)
        ref = o.get_reference_direction(x, in_global_frame=True)
        if o.is_boundary:
            ref = -ref
        out.append({"g": vf.q(min(g, 50.)), "n": vf.q(n), "b": vf.q(-n), "ref": vf.q(ref),
                    "iw": vf.q(w), "at": k})
    return out


def place(rng, obs, d=2, far=2.5, near=1.03):
    for _ in range(200):
        if rng.integers(2):
            o = obs[rng.integers(len(obs))]
            away = unit(rng, d)
            s = o.get_intersection_with_surface(o.center_position, away, in_global_frame=True)
            x = s + away * rng.uniform(.03, 1)
        else:
            x = rng.uniform(-far, far, d)
        g = [o.get_gamma(x, in_global_frame=True) for o in obs]
        if min(g) > near and max(g) < 40:
            return x
    return None


def spatial(rng, obs2):
    """The same discs as balls in a plane in space."""
    Q = Rotation.from_rotvec(rng.uniform(-2, 2, 3)).as_matrix()
    shift = rng.uniform(-3, 3, 3)

    def lift(p, point=True):
        v = Q @ np.append(p, 0.)
        return v + shift if point else v

    out = []
    for o in obs2:
        c = type(o)(center_position=lift(o.center_position),
                    axes_length=np.ones(3) * o.axes_length[0])
        out.append(c)
    return lift, Q, out


def velocities(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 61)
    recs = []
    with vf.quiet():
        while len(recs) < (8000 if vf.THOROUGH else 900):
            n = int(rng.choice([1, 1, 2, 3]))
            lifted = rng.integers(4) == 0
            if lifted:
                obs = []
                while len(obs) < n:
                    c = rng.uniform(-2, 2, 2)
                    if all(np.linalg.norm(c - o.center_position) > 1.7 for o in obs):
                        obs.append(m.Ellipse(center_position=c, orientation=0.,
                                             axes_length=np.ones(2) * rng.uniform(.3, .8)))
            else:
                obs = some(m, rng, n)
            wall = not lifted and n == 1 and rng.integers(4) == 0
            if wall:
                obs[0].is_boundary = True
            for _ in range(4):
                x = place(rng, obs)
                if x is None:
                    continue
                if wall:
                    c = obs[0].center_position
                    x = c + unit(rng, 2) * rng.uniform(.12, .26)
                    if not 1.03 < obs[0].get_gamma(x, in_global_frame=True) < 20:
                        continue
                cut = float(rng.choice([1e6, 1e6, 2.]))
                ob = seen(m, obs, x, cut)
                if not ob:
                    continue
                if wall:
                    ob[0]["b"] = [-k for k in ob[0]["n"]]
                v0 = plane_dir(rng.uniform(-3.1, 3.1)) * rng.uniform(.5, 2)
                conv = plane_dir(rng.uniform(-3.1, 3.1)) * rng.uniform(.5, 2)
                if rng.integers(2):  # mostly towards the obstacle
                    turn = sc.rot(rng.uniform(-1.2, 1.2))
                    conv = turn @ (obs[0].center_position - x)
                    if wall:
                        conv = -conv
                rad = float(rng.choice([math.pi / 2, math.pi / 2, 2., 2.6, 3., 1.2]))
                tail = bool(rng.integers(2))
                sticky = bool(rng.integers(3))
                p = float(rng.choice([.3, .3, .6, 1.]))
                rel = np.zeros(2)
                if rng.integers(4) == 0 and not lifted:
                    lin = rng.uniform(-.5, .5, 2)
                    for o in obs:
                        o.linear_velocity = lin
                    rel = lin * sum(o["iw"] for o in ob) / 10000
                else:
                    for o in obs:
                        o.linear_velocity = np.zeros(2)
                v0rel = v0 - rel
                if np.linalg.norm(v0rel) < .2:
                    continue
                if lifted:
                    lift, Q, balls = spatial(rng, obs)
                    av = m.RotationalAvoider(obstacle_environment=environment(m, balls),
                                             cut_off_gamma=cut, tail_rotation=tail,
                                             convergence_radius=rad)
                    args = [lift(x), lift(v0, False), lift(conv, False)]
                else:
                    av = m.RotationalAvoider(obstacle_environment=environment(m, obs),
                                             cut_off_gamma=cut, tail_rotation=tail,
                                             convergence_radius=rad)
                    args = [x, v0, conv]
                av.smooth_continuation_power = p
                for o in ob:
                    o["rad"] = vf.q(rad)
                if rng.integers(4) == 0:  # every obstacle has its own
                    rads = [float(rng.choice([math.pi / 2, 2., 2.6, 1.2])) for _ in obs]
                    av.obstacle_environment.convergence_radiuses = rads
                    for o in ob:
                        o["rad"] = vf.q(rads[o["at"]])
                keep = [a.copy() for a in args]
                v = av.avoid(args[0], args[1], convergence_velocity=args[2],
                             sticky_surface=sticky)
                if not all(np.array_equal(a, b) for a, b in zip(args, keep)):
                    chk.violation("velocities/argument-changed", f"{keep} became {args}")
                if lifted:
                    w = Q.T @ v
                    if abs(w[2]) > 2e-3:
                        chk.violation("velocities/leaves-plane", f"{w} out of the plane")
                    v = w[:2]
                recs.append({"kind": "avoid", "v0": vf.q(v0rel), "rel": vf.q(rel),
                             "s0": vf.q(np.linalg.norm(v0)),
                             "conv": vf.q(conv / np.linalg.norm(conv)),
                             "p": vf.q(p), "tail": tail, "sticky": sticky, "v": vf.q(v),
                             "obs": ob, "what": "wall" if wall else n})
    vf.validate(chk, "velocities", "AvoiderTrace", recs, key=lambda r, c: c)
    chk.sample({"part": "velocities", "record": recs[0]})


def sequence(m, base, end):
    return m.VectorRotationSequence.create_from_vector_array(np.vstack((base, end)).T)


def sequences(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 67)
    recs = []
    with vf.quiet():
        while len(recs) < (8000 if vf.THOROUGH else 800):
            n = int(rng.choice([1, 1, 2, 3]))
            obs = some(m, rng, n)
            for _ in range(4):
                x = place(rng, obs)
                if x is None:
                    continue
                a0 = rng.uniform(-3, 3)
                base, init = plane_dir(a0), plane_dir(a0 + rng.uniform(-2.5, 2.5))
                conv = plane_dir(a0 + rng.uniform(-2.5, 2.5))
                rad = float(rng.choice([math.pi / 2, math.pi / 2, 2., 2.6, 3., 1.2]))
                tail, defaults = bool(rng.integers(2)), bool(rng.integers(2))
                p = float(rng.choice([.3, .3, .6, 1.]))
                av = m.RotationalAvoider(obstacle_environment=environment(m, obs),
                                         tail_rotation=tail, convergence_radius=rad)
                av.smooth_continuation_power = p
                s = av.avoid_sequence(x, sequence(m, base, init), sequence(m, base, conv),
                                      convergence_default=defaults)
                recs.append({"kind": "sequence", "base": vf.q(base), "init": vf.q(init),
                             "conv": vf.q(conv), "p": vf.q(p), "tail": tail,
                             "defaults": defaults, "v": vf.q(s.get_end_vector()),
                             "obs": [dict(o, rad=vf.q(rad)) for o in seen(m, obs, x)]})
                if not np.allclose(s.basis_array[:, 0, 0], base):
                    chk.violation("sequences/base", f"{s.basis_array[:, 0, 0]} instead of {base}")
    with vf.quiet():
        av = m.RotationalAvoider(obstacle_environment=environment(m, []))
        init = sequence(m, base, init)
        if av.avoid_sequence(x, init, sequence(m, base, conv)) is not init:
            chk.violation("sequences/free", "changed without obstacles")
    vf.validate(chk, "sequences", "AvoiderTrace", recs, key=lambda r, c: c)


def around(chk):
    """Convergence around every obstacle, shared among the obstacles."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 71)
    recs = []
    with vf.quiet():
        while len(recs) < (9000 if vf.THOROUGH else 1100):
            obs = some(m, rng, int(rng.choice([1, 2, 3])), shift=False)
            attr = 4 * unit(rng, 2)
            ds = dynamics(m, str(rng.choice(["linear", "wavy", "stretched", "spiral"])), attr)
            lin = m.LinearSystem(attractor_position=attr, maximum_velocity=1.0)
            plain = bool(rng.integers(2))
            local = (m.ConvergenceDynamicsWithoutSingularity(lin, ds) if plain else
                     m.ProjectedRotationDynamics(attractor_position=attr, initial_dynamics=ds))
            own = local if plain or rng.integers(2) else None
            av = m.NonlinearRotationalAvoider(
                initial_dynamics=ds, obstacle_environment=environment(m, obs),
                obstacle_convergence=own)
            for _ in range(3):
                x = place(rng, obs, near=1.06)
                if x is None:
                    continue
                if rng.integers(6) == 0:
                    x = obs[0].center_position + .2 * unit(rng, 2)
                elif rng.integers(6) == 0:  # exactly on the surface
                    obs[0] = m.Ellipse(center_position=np.round(obs[0].center_position),
                                       axes_length=np.ones(2))
                    x = obs[0].center_position + [[1, 0], [0, -1.]][int(rng.integers(2))]
                    av.obstacle_environment[0] = obs[0]
                gs = [o.get_gamma(x, in_global_frame=True) for o in obs]
                if any((.95 < g < 1.06 and g != 1) or abs(g - 10) < .05 for g in gs):
                    continue
                v0 = ds.evaluate(x)
                close = av.compute_gamma_weights(x)
                recs.append({"kind": "weights", "gs": vf.q(gs), "cut": 100000,
                             "ws": vf.q(av.weights), "free": len(close) == 0})
                locs = [local.evaluate_convergence_around_obstacle(x, o) for o in obs]
                if plain:
                    for o, l in zip(obs, locs):
                        recs.append({"kind": "same", "v": vf.q(l),
                                     "w": vf.q(ds.evaluate(o.center_position))})
                        g = o.get_gamma(x, in_global_frame=True)
                        pw = local.evaluate_projected_weight(x, o)
                        recs.append({"kind": "same", "v": [vf.q(pw)],
                                     "w": [vf.q(min(1, 1 / g))]})
                keep = x.copy()
                mean = av.evaluate_weighted_dynamics(x, v0)
                if not np.array_equal(x, keep):
                    chk.violation("around/argument-changed", f"{keep} became {x}")
                recs.append({"kind": "mean", "v0": vf.q(v0), "gs": vf.q(gs), "cut": 100000,
                             "locals": [vf.q(l / np.linalg.norm(l)) for l in locs],
                             "v": vf.q(mean)})
                init = m.evaluate_dynamics_sequence(x, ds)
                ws, turns = [], []
                for o in obs:
                    w = local.evaluate_projected_weight(x, o)
                    if w <= 0:
                        continue
                    s = local.evaluate_convergence_sequence_around_obstacle(x, o, init)
                    ws.append(vf.q(w))
                    turns.append([vf.q(b) for b in s.basis_array[:, 0, :].T]
                                 + [vf.q(s.get_end_vector())])
                if plain and len(obs) and turns:
                    pass  # begins at the direction of each obstacle, not that of the position
                elif turns:
                    mean_seq = av.evaluate_weighted_dynamics_sequence(x, init)
                    recs.append({"kind": "meanseq", "base": vf.q(init.basis_array[:, 0, 0]),
                                 "init": vf.q(v0 / np.linalg.norm(v0)), "ws": ws,
                                 "turns": turns, "v": vf.q(mean_seq.get_end_vector())})
                    inner = m.RotationalAvoider(
                        initial_dynamics=ds, obstacle_environment=environment(m, obs),
                        cut_off_gamma=10)
                    end = inner.avoid_sequence(x, init, mean_seq, convergence_default=False)
                    recs.append({"kind": "same", "v": vf.q(av.evaluate_sequence(x)),
                                 "w": vf.q(end.get_end_vector() * np.linalg.norm(v0))})
                # the whole: avoidance with this direction of convergence
                if rng.integers(2):
                    for o in obs:
                        o.linear_velocity = rng.uniform(-.4, .4, 2)
                inner = m.RotationalAvoider(
                    initial_dynamics=ds, obstacle_environment=environment(m, obs),
                    cut_off_gamma=10)
                for v in (av.evaluate(x), av.avoid(x, v0)):
                    recs.append({"kind": "same", "v": vf.q(v), "w": vf.q(
                        inner.avoid(x, v0, convergence_velocity=mean))})
                for o in obs:
                    o.linear_velocity = np.zeros(2)
            for y in (attr,):
                for v in (av.evaluate(y), av.evaluate_sequence(y)):
                    recs.append({"kind": "keep", "v": vf.q(v), "w": [0, 0]})
    vf.validate(chk, "around", "AvoiderTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def identities(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 73)
    recs = []

    def keep(v, w):
        recs.append({"kind": "keep", "v": vf.q(v), "w": vf.q(w)})

    def same(v, w):
        recs.append({"kind": "same", "v": vf.q(v), "w": vf.q(w)})

    with vf.quiet():
        for k in range(1500 if vf.THOROUGH else 250):
            d = int(rng.choice([2, 2, 3]))
            obs = some(m, rng, int(rng.integers(1, 4)), d)
            x = place(rng, obs, d)
            if x is None:
                continue
            attr = 3.5 * unit(rng, d)
            ds = dynamics(m, str(rng.choice(["linear", "wavy"])) if d == 2 else "linear", attr)
            lin = m.LinearSystem(attractor_position=attr, maximum_velocity=1.0)
            v0 = rng.uniform(.5, 1.5) * unit(rng, d)
            conv = attr - x
            av = m.RotationalAvoider(ds, environment(m, []))
            keep(av.avoid(x, v0), v0)
            keep(av.evaluate(x), ds.evaluate(x))
            gs = [o.get_gamma(x, in_global_frame=True) for o in obs]
            free = m.RotationalAvoider(ds, environment(m, obs), cut_off_gamma=min(gs) * .999)
            keep(free.avoid(x, v0), v0)
            cut = float(rng.uniform(min(gs), max(gs) + .1))
            if any(abs(g - cut) < 1e-3 for g in gs):
                continue
            some_close = [o for o, g in zip(obs, gs) if g < cut]
            a = m.RotationalAvoider(ds, environment(m, obs), cut_off_gamma=cut)
            b = m.RotationalAvoider(ds, environment(m, some_close))
            same(a.avoid(x, v0), b.avoid(x, v0))
            # whatever is not given comes from the dynamics
            av = m.RotationalAvoider(ds, environment(m, obs), convergence_system=lin)
            v = av.avoid(x)
            same(av.evaluate(x), v)
            same(av.avoid(x, ds.evaluate(x), convergence_velocity=lin.evaluate(x)), v)
            same(av.avoid(x, obstacle_list=environment(m, obs)), v)
            same(m.RotationalAvoider(ds, environment(m, obs)).avoid(x),
                 m.RotationalAvoider(ds, environment(m, obs)).avoid(
                     x, convergence_velocity=ds.evaluate(x)))
            rad = float(rng.uniform(1.6, 2.8))
            same(m.RotationalAvoider(ds, environment(m, obs), convergence_radius=rad).avoid(x),
                 m.RotationalAvoider(ds, environment(m, obs)).avoid(x, convergence_radius=rad))
            same(av.avoid(x, v0, convergence_velocity=conv),
                 av.avoid(x, v0, convergence_velocity=conv * 3))
            same(av.avoid(x, v0 * 2, convergence_velocity=conv) / 2,
                 av.avoid(x, v0, convergence_velocity=conv))
            v = av.avoid(x, v0, convergence_velocity=conv)
            # the function without avoider takes the directions of the container
            env = environment(m, obs)
            env.set_convergence_directions(converging_dynamics=lin)
            same(m.obstacle_avoidance_rotational(x, v0, env), m.RotationalAvoider().avoid(
                x, v0, environment(m, obs), convergence_velocity=lin.evaluate(x)))
            # a tangent is within a right angle unless something else is asked for
            o = obs[0]
            toward = dict(
                convergence_vector=conv, nonlinear_velocity=v0, gamma=gs[0],
                reference_vector=o.get_reference_direction(x, in_global_frame=True),
                base=-m.get_orthogonal_basis(o.get_normal_direction(x, in_global_frame=True)))
            same(m.RotationalAvoider().directional_convergence_summing(**toward),
                 m.RotationalAvoider().directional_convergence_summing(
                     convergence_radius=math.pi / 2, **toward))
            # order, frame
            perm = rng.permutation(len(obs))
            same(m.RotationalAvoider(ds, environment(m, [obs[j] for j in perm])).avoid(
                x, v0, convergence_velocity=conv), v)
            Q = Rotation.from_rotvec(rng.uniform(-2, 2, 3)).as_matrix() if d == 3 else sc.rot(
                rng.uniform(-3, 3))
            shift = rng.uniform(-5, 5, d)
            w = m.RotationalAvoider(obstacle_environment=environment(
                m, [moved(o, Q, shift) for o in obs])).avoid(
                    Q @ x + shift, Q @ v0, convergence_velocity=Q @ conv)
            same(Q.T @ w, v)
            # all obstacles moving alike: as seen from them
            u = rng.uniform(-.5, .5, d)
            for o in obs:
                o.linear_velocity = u
            tot = sum(m.compute_weights(np.array(gs)))
            same(av.avoid(x, v0 + tot * u, convergence_velocity=conv), v + tot * u)
            for o in obs:
                o.linear_velocity = np.zeros(d)
            # no direction of convergence, no turn
            w = av.avoid(x, v0, convergence_velocity=np.zeros(d))
            if np.linalg.norm(w) > 1e-3:
                same(w / np.linalg.norm(w), v0 / np.linalg.norm(v0))
            keep(av.avoid(x, np.zeros(d), convergence_velocity=conv), np.zeros(d))
    vf.validate(chk, "identities", "AvoiderTrace", recs)


def walls(chk):
    """On the surface nobody moves farther in, and none is stuck where convergence leads away."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 79)
    recs = []
    with vf.quiet():
        for k in range(6000 if vf.THOROUGH else 1000):
            d = int(rng.choice([2, 2, 3]))
            obs = some(m, rng, int(rng.integers(1, 4)), d)
            o = obs[0]
            away = unit(rng, d)
            s = o.get_intersection_with_surface(o.center_position, away, in_global_frame=True)
            inside = float(rng.choice([1e-9, 1e-4, -1e-4, -1e-3]))
            x = s - (s - o.center_position) / np.linalg.norm(s - o.center_position) * inside
            if any(p.get_gamma(x, in_global_frame=True) < 1.1 for p in obs[1:]):
                continue
            n = o.get_normal_direction(x, in_global_frame=True)
            if isinstance(o, m.CuboidXd):
                loc = o.pose.transform_position_to_relative(x) / o._semi()
                if np.sort(np.abs(loc))[-2] > .97:
                    continue
            u = rng.uniform(-.5, .5, d) * (k % 2)
            o.linear_velocity = u
            v0 = rng.uniform(.3, 1.5) * unit(rng, d)
            conv = unit(rng, d)
            if abs(conv @ o.get_reference_direction(x, in_global_frame=True)) > .98:
                continue
            av = m.RotationalAvoider(obstacle_environment=environment(m, obs))
            sticky = bool(rng.integers(4))
            if not sticky:  # their speed is kept, so only those at rest
                o.linear_velocity = u = np.zeros(d)
                if inside < -1e-4:
                    continue
            v = av.avoid(x, v0, convergence_velocity=conv, sticky_surface=sticky)
            if not sticky and v @ n < 0 and inside < 0:
                continue
            rel = v - u
            recs.append({"kind": "wall", "v": vf.q(rel), "n": vf.q(n),
                         "s0": vf.q(np.linalg.norm(v0) + np.linalg.norm(u)),
                         "tol": 250 if inside < -2e-4 else 40,
                         "what": "inside" if inside > 0 else "outside"})
            # no jump where the surface begins
            if inside < 0:
                r = o.center_position
                y = s - (s - r) / np.linalg.norm(s - r) * 1e-9
                w = av.avoid(y, v0, convergence_velocity=conv)
                v = av.avoid(s + (s - r) * 1e-9, v0, convergence_velocity=conv)
                recs.append({"kind": "same", "v": vf.q(v), "w": vf.q(w), "what": "edge"})
    vf.validate(chk, "walls", "AvoiderTrace", recs, key=lambda r, c: f"{r['what']}/{c}")


def runs(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 83)
    recs, scenes = [], []
    dt = .03
    plan = ["linear", "wavy", "linear3", "nonlinear", "spiral", "nonlinear"]
    plan = plan * (6 if vf.THOROUGH else 1)
    with vf.quiet():
        for run, kind in enumerate(plan):
            d = 3 if kind[-1] == "3" else 2
            obs = some(m, rng, 3, d, shift=False)
            while True:
                a = unit(rng, d)
                x = 4.4 * a
                b = -a + .3 * unit(rng, d)
                attr = 4.4 * b / np.linalg.norm(b)
                if all(o.get_gamma(p, in_global_frame=True) > 1.3 for o in obs
                       for p in (x, attr)):
                    break
            if kind == "nonlinear":
                ds = dynamics(m, "wavy", attr)
                av = m.NonlinearRotationalAvoider(
                    initial_dynamics=ds, obstacle_environment=environment(m, obs),
                    obstacle_convergence=m.ProjectedRotationDynamics(
                        attractor_position=attr, initial_dynamics=ds))
            else:
                ds = dynamics(m, kind[:-1] if d == 3 else kind, attr)
                av = m.RotationalAvoider(
                    ds, environment(m, obs), convergence_system=m.LinearSystem(
                        attractor_position=attr, maximum_velocity=1.0))
            scenes.append([{"k": "box" if isinstance(o, m.CuboidXd) else "ball",
                            "c": sc.mm(o.center_position), "ax": sc.mm(o._semi()),
                            "m": [sc.ten(r) for r in o.pose.rotation_matrix.T], "tree": j,
                            "comp": 0} for j, o in enumerate(obs)])
            steps = 1500
            for k in range(steps):
                v = av.evaluate(x)
                near = np.linalg.norm(x - attr) < .05
                recs.append({"run": run, "k": k, "x": sc.mm(x), "v": vf.q(v),
                             "s0": vf.q(np.linalg.norm(ds.evaluate(x))), "dt": int(dt * 1000),
                             "scene": len(scenes), "tree": False,
                             "last": bool(near or k == steps - 1),
                             "attr": sc.mm(attr), "within": 60, "what": kind})
                if near or not np.all(np.isfinite(v)):
                    break
                x = x + dt * v
    vf.validate(chk, "runs", "ClosedLoop", recs, header={"scenes": scenes}, chunk=10 ** 9,
                key=lambda r, c: f"{r['what']}/{c}")
    chk.traces += len(plan) - 1


PARTS = [velocities, sequences, around, identities, walls, runs]
