"""Closed loop runs of the avoider among static obstacles, judged by ClosedLoop."""
import math

import numpy as np

import vf
from props import _scenes as sc

DT = 0.03


def unit(rng, d):
    v = rng.normal(size=d)
    return v / np.linalg.norm(v)


def turn(rng):
    from scipy.spatial.transform import Rotation

    return Rotation.from_rotvec(unit(rng, 3) * rng.uniform(.2, 2.9))


def obstacles(m, rng, kind):
    u = rng.uniform
    if kind == "ellipse":
        return [sc.ball(m, u(-.5, .5, 2), u(.5, 1.5, 2), u(0, 3))]
    if kind == "box":
        return [sc.box(m, u(-.5, .5, 2), u(.8, 2.5, 2), u(0, 3))]
    if kind == "several":
        return [sc.ball(m, [-1, 1.2] + u(-.2, .2, 2), u(.4, .8, 2), u(0, 3)),
                sc.box(m, [1, -.9] + u(-.2, .2, 2), u(.8, 1.6, 2), u(0, 3)),
                sc.ball(m, [-1, -1.6] + u(-.2, .2, 2), u(.3, .6, 2), u(0, 3))]
    if kind == "ellipsoid":
        return [sc.ball(m, u(-.5, .5, 3), u(.5, 1.5, 3))]
    if kind == "block":
        return [sc.box(m, u(-.5, .5, 3), u(.8, 2.5, 3))]
    if kind == "both":
        return [sc.ball(m, [-1, 1.2, 0] + u(-.2, .2, 3), u(.4, .8, 3)),
                sc.box(m, [1, -.9, .3] + u(-.2, .2, 3), u(.8, 1.6, 3))]
    if kind == "arch":
        return [m.create_arch_obstacle(.5, np.array([2., 3.]),
                                       m.Pose(np.zeros(2), u(0, 6.3)))]
    if kind == "tilted":
        new, size = (m.Ellipse, u(.4, .9, 3)) if rng.random() < .5 else (m.CuboidXd, u(.7, 1.7, 3))
        o = m.MultiObstacle(m.Pose(u(-.5, .5, 3), turn(rng)))
        o.set_root(new(center_position=u(-.1, .1, 3), axes_length=size, orientation=turn(rng)))
        return [o]
    if kind == "bush":
        o = m.MultiObstacle(m.Pose(u(-.3, .3, 3), turn(rng)))
        o.set_root(m.Ellipse(center_position=np.zeros(3), axes_length=np.array([.9, .5, .6])))
        box = m.CuboidXd(center_position=np.array([.8, .2, .1]), orientation=turn(rng),
                         axes_length=np.array([.9, 1., 1.1]))
        o.add_component(box, 0, reference_position=box.orientation.inv().apply(
            np.array([.4, .1, .05]) - box.center_position))
        o.add_component(m.Ellipse(center_position=np.array([-.2, .7, 0]),
                                  axes_length=np.array([.4, .8, .5])), 0,
                        reference_position=np.array([0, -.5, 0]))
        return [o]
    if kind == "branch":
        o = m.MultiObstacle(m.Pose(u(-.3, .3, 2), u(0, 6.3)))
        o.set_root(m.CuboidXd(center_position=np.zeros(2), axes_length=np.array([.8, 1.4])))
        o.add_component(m.Ellipse(center_position=np.array([.7, .5]), orientation=.3,
                                  axes_length=np.array([.7, .35])), 0,
                        reference_position=np.array([-.5, 0]))
        o.add_component(m.CuboidXd(center_position=np.array([1.5, .9]), orientation=.5,
                                   axes_length=np.array([.8, .6])), 1,
                        reference_position=np.array([-.25, 0]))
        return [o]
    o = m.MultiObstacle(m.Pose(np.zeros(2), u(0, 6.3)))
    o.set_root(m.Ellipse(center_position=np.zeros(2), axes_length=np.array([.9, .5])))
    o.add_component(m.Ellipse(center_position=np.array([.8, .7]),
                              axes_length=np.array([.4, .8])), 0,
                    reference_position=np.array([-.1, -.5]))
    return [o]


def dynamics(m, kind, attr):
    from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics

    if kind == "wavy":
        return WavyLinearDynamics(attractor_position=attr, maximum_velocity=1.0)
    if kind == "stretched":
        return m.LinearSystem(attractor_position=attr, A_matrix=-np.diag([1, 2.]),
                              maximum_velocity=1.0)
    if kind == "spiral":
        return m.LinearSystem(attractor_position=attr, maximum_velocity=1.0,
                              A_matrix=-np.array([[1, .6], [-.6, 1.]]))
    return m.LinearSystem(attractor_position=attr, maximum_velocity=1.0)


def drive(m, rng, scene, run, obs, ds_kind, steps, promise, recs, scenes, **kw):
    d = obs[0].dimension
    a = unit(rng, d)
    x = 4 * a
    b = -a + .3 * unit(rng, d)
    attr = 4 * b / np.linalg.norm(b)
    ds = dynamics(m, ds_kind, attr)
    cont = sc.container(m, obs)
    av = sc.avoider(m, cont, ds, **kw)
    scenes.append(sc.describe(cont))
    tree = any(o.n_components > 1 for o in obs)
    near = False
    for k in range(steps):
        v = av.evaluate(x)
        near = np.linalg.norm(x - attr) < .05
        last = promise and (near or k == steps - 1)
        recs.append({"run": run, "k": k, "x": sc.mm(x), "v": vf.q(v),
                     "s0": vf.q(np.linalg.norm(ds.evaluate(x))), "dt": int(DT * 1000),
                     "scene": len(scenes), "tree": tree, "last": bool(last),
                     "attr": sc.mm(attr), "within": 60, "what": scene})
        if near or not np.all(np.isfinite(v)):
            break
        x = x + DT * v


def play(chk, part, plan, steps, promise):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 100 + len(part))
    recs, scenes = [], []
    with vf.quiet():
        for run, (kind, ds, kw) in enumerate(plan):
            drive(m, rng, f"{kind}/{ds}", run, obstacles(m, rng, kind), ds, steps, promise,
                  recs, scenes, **kw)
    # one behaviour per run: never split a run over two validations
    vf.validate(chk, part, "ClosedLoop", recs, header={"scenes": scenes}, chunk=10 ** 9,
                key=lambda r, c: f"{r['what']}/{c}")
    chk.traces += len(plan) - 1
    chk.sample({"part": part, "record": recs[len(recs) // 2]})


def rep(plan):
    return plan * (6 if vf.THOROUGH else 1)


def planar(chk):
    play(chk, "planar", rep([
        ("ellipse", "linear", {}), ("box", "linear", {}), ("several", "linear", {}),
        ("several", "wavy", {}), ("several", "stretched", {}), ("ellipse", "spiral", {}),
        ("several", "linear", {"convergence_radius": 2.2})]), 2500, True)


def spatial(chk):
    play(chk, "spatial", rep([
        ("ellipsoid", "linear", {}), ("block", "linear", {}), ("both", "linear", {}),
        ("tilted", "linear", {}), ("tilted", "linear", {})]),
        2500, True)


def concave(chk):
    """Trees of several components: no way out of a pocket is promised."""
    play(chk, "concave", rep([("arch", "linear", {}), ("arch", "wavy", {}),
                              ("tree", "linear", {}), ("arch", "linear", {}),
                              ("bush", "linear", {}), ("branch", "linear", {}),
                              ("bush", "linear", {}), ("branch", "spiral", {})]), 500, False)


PARTS = [planar, spatial, concave]
