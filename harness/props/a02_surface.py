"""Velocity on, just outside and inside obstacles at rest, judged by SurfaceTrace."""
import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, obstacles, unit


def surface_points(m, rng, obs, n):
    """(position, shape index, depth, single) clear of all other components."""
    comps = [(o, c) for o in obs for c in o]
    out = []
    for _ in range(n):
        j = int(rng.integers(len(comps)))
        o, c = comps[j]
        depth = float(rng.choice([-.001, .0001, .0005, .002, .1, .3, .5]))
        d = c.dimension
        loc = c._surface_from_center(unit(rng, d))
        if isinstance(c, m.CuboidXd) and np.sort(np.abs(loc) / c._semi())[-2] > .9:
            continue  # the normal jumps at the corners
        if isinstance(c, m.CuboidXd) and depth > .01:
            gaps = np.abs(loc * (1 - depth)) - c._semi()
            if (np.argmax(gaps) != np.argmax(np.abs(loc) / c._semi())
                    or np.diff(np.sort(gaps)[-2:])[0] < .02):
                continue  # the face ahead has to be the closest one
        n0 = c._local_normal(loc * (1 - 1e-9))
        p = c.pose.transform_position_from_relative(
            loc - depth * n0 if depth < .01 else loc * (1 - depth))
        # neither the point nor the surface it is pushed to may be in an overlap
        out_of = c.pose.position, c.get_reference_point(in_global_frame=True)
        ahead = [p] + [c.get_intersection_with_surface(q, p - q, in_global_frame=True)
                       for q in out_of]
        if any(q.get_gamma(x, in_global_frame=True) < 1.05
               for x in ahead for _, q in comps if q is not c):
            continue
        if isinstance(c, m.CuboidXd) and any(
                np.dot(c.get_normal_direction(x + 1e-6 * (x - q), in_global_frame=True),
                       c.get_normal_direction(p, in_global_frame=True)) < .9
                for x, q in zip(ahead[1:], out_of)):
            continue  # pushed to another face than the closest one
        out.append((p, j + 1, depth, o.n_components == 1))
    return out


def points(chk):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 31 + 7)
    recs, scenes = [], []
    with vf.quiet():
        for t in range(900 if vf.THOROUGH else 450):
            kind = ["ellipse", "box", "several", "ellipsoid", "block", "both", "arch",
                    "tree", "tilted", "bush", "branch"][t % 11]
            obs = obstacles(m, rng, kind)
            cont = sc.container(m, obs)
            d = obs[0].dimension
            attr = 3.5 * unit(rng, d)
            ds = dynamics(m, rng.choice(["linear", "wavy", "spiral"]) if d == 2
                          else "linear", attr)
            kw = {"convergence_radius": 2.0} if t % 5 == 0 else {}
            av = sc.avoider(m, cont, ds, **kw)
            scenes.append(sc.describe(cont))
            for p, shape, depth, single in surface_points(m, rng, obs, 6):
                keep = p.copy()
                v = av.evaluate(p)
                if not np.array_equal(p, keep):
                    chk.violation("points/argument-changed", f"{keep} became {p}")
                recs.append({
                    "f": "surface", "scene": len(scenes), "shape": shape, "x": sc.mm(p),
                    "depth": int(round(depth * 1000)), "v": vf.q(v), "single": single,
                    "body": [0] * d, "s0": vf.q(np.linalg.norm(ds.evaluate(p))),
                    "what": kind})
    vf.validate(chk, "points", "SurfaceTrace", recs, header={"scenes": scenes},
                chunk=10 ** 9, key=lambda r, c: f"{r['what']}/{c}")
    chk.sample({"part": "points", "record": recs[0]})


def touching(chk):
    """Exactly on the surface, where the distance value is one to the last digit."""
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 37 + 3)
    recs, scenes = [], []
    with vf.quiet():
        for t in range(120 if vf.THOROUGH else 40):
            d = 2 + t % 2
            c = np.round(rng.uniform(-2, 2, d))
            o = m.MultiObstacle(m.Pose(c, 0. if d == 2 else None))
            o.set_root(m.Ellipse(center_position=np.zeros(d), axes_length=np.ones(d)) if t % 4 < 2
                       else m.CuboidXd(center_position=np.zeros(d), axes_length=2 * np.ones(d)))
            cont = sc.container(m, [o])
            ds = dynamics(m, "linear", c + 4 * unit(rng, d))
            av = sc.avoider(m, cont, ds)
            scenes.append(sc.describe(cont))
            for k in range(2 * d):
                x = c.copy()
                x[k // 2] += (-1) ** k
                if o.get_gamma(x, in_global_frame=True) != 1:
                    continue
                recs.append({
                    "f": "surface", "scene": len(scenes), "shape": 1, "x": sc.mm(x),
                    "depth": 0, "v": vf.q(av.evaluate(x)), "single": True, "body": [0] * d,
                    "s0": vf.q(np.linalg.norm(ds.evaluate(x))), "what": "exact"})
    vf.validate(chk, "touching", "SurfaceTrace", recs, header={"scenes": scenes},
                chunk=10 ** 9, key=lambda r, c: f"{r['what']}/{c}")


PARTS = [points, touching]
