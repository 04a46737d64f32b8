"""Rays, spanned planes, outlines and overlaps, judged by GeometryTrace."""
import math

import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import unit


def mods():
    m = sc.mods()
    from nonlinear_avoidance import geometry, multi_hull_and_obstacle, utils

    m.geo, m.hull, m.utils = geometry, multi_hull_and_obstacle, utils
    return m


def rays(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 401)
    recs = []
    with vf.quiet():
        while len(recs) < (20000 if vf.THOROUGH else 6000):
            d = int(rng.choice([2, 3, 4]))
            a, b, p = (rng.uniform(-1.5, 1.5, d) * (.75 if d == 4 else 1) for _ in range(3))
            if rng.integers(10) == 0:
                b = a.copy()
            elif np.linalg.norm(b - a) < .3:
                continue
            if rng.integers(10) == 0:
                p = a + rng.uniform(-1, 2) * (b - a)
            ray = np.vstack((a, b)).T
            keep = ray.copy(), p.copy()
            got = m.utils.project_point_onto_ray(p, ray)
            if not (np.array_equal(keep[0], ray) and np.array_equal(keep[1], p)):
                chk.violation("rays/argument-changed", f"{keep}")
            recs.append({"kind": "ray", "a": vf.q(a), "b": vf.q(b), "p": vf.q(p), "got": vf.q(got)})
            u, v = unit(rng, d), unit(rng, d)
            near = rng.integers(4)
            if near == 0:
                u = np.eye(d)[rng.integers(d)] * rng.choice([-1, 1])
            if near < 3:
                v = v if near else u * rng.choice([-1, 1])
            elif rng.integers(2):
                v = u * rng.choice([-1, 1])
            if np.linalg.norm(v - (u @ v) * u) < .02 and abs(u @ v) < 1 - 1e-12:
                continue
            B = m.utils.get_orthonormal_spanning_basis(u, v)
            recs.append({"kind": "span", "a": vf.q(u), "b": vf.q(v),
                         "got": [vf.q(B[:, 0]), vf.q(B[:, 1])]})
    vf.validate(chk, "rays", "GeometryTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "rays", "record": recs[0]})


def solid(m, rng, at=1.):
    kind = [m.Full, m.CuboidXd, m.Ellipse][rng.integers(3)]
    size = rng.uniform(.3, 1.2, 2)
    margin = float(rng.choice([0, 0, .1, .25]))
    o = kind(center_position=rng.uniform(-at, at, 2), orientation=float(rng.uniform(-3, 3)),
             axes_length=size if kind is m.Ellipse else 2 * size, margin_absolut=margin)
    return o, {"k": "box" if kind is m.CuboidXd else "ball", "c": sc.mm(o.center_position),
               "ax": sc.mm(size + margin), "m": sc.ten(o.pose.rotation_matrix.T)}


def well_inside(o, x):
    return o.get_gamma(x, in_global_frame=True) < .93


def overlaps(chk):
    m = mods()
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
    m.Full = EllipseWithAxes
    rng = np.random.default_rng(vf.SEED * 409)
    recs = []
    with vf.quiet():
        while len(recs) < (8000 if vf.THOROUGH else 2400):
            (a, sa), (b, sb) = solid(m, rng, 1.2), solid(m, rng, 1.2)
            got, twin = (m.geo.get_intersection_of_obstacles(*pair) for pair in ((a, b), (b, a)))
            seen = []
            for _ in range(60):
                x = rng.uniform(-2, 2, 2)
                if well_inside(a, x) and well_inside(b, x):
                    seen = sc.mm(x)
                    break
            recs.append({"kind": "overlap", "a": sa, "b": sb, "seen": seen,
                         "got": [] if got is None else sc.mm(got),
                         "twin": [] if twin is None else sc.mm(twin)})
            if sa["k"] == "ball":
                pts = np.array(m.geo.create_shapely_ellipse(a).exterior.coords)
                recs.append({"kind": "outline", "shape": sa, "pts": [sc.mm(p) for p in pts]})
        for o in (m.CuboidXd(center_position=np.zeros(2), axes_length=np.ones(2)),
                  m.Ellipse(center_position=np.zeros(3), axes_length=np.ones(3))):
            try:
                m.geo.create_shapely_ellipse(o)
                word = "made"
            except NotImplementedError:
                word = "refused"
            recs.append({"kind": "word", "word": word, "want": "refused"})
    vf.validate(chk, "overlaps", "GeometryTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def hulls(chk):
    """A block with rooms: doors, walls and free space."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 419)
    recs = []
    with vf.quiet():
        while len(recs) < (8000 if vf.THOROUGH else 2400):
            outer = m.CuboidXd(center_position=rng.uniform(-1, 1, 2),
                               axes_length=rng.uniform(1, 3, 2), orientation=float(rng.uniform(-1, 1)))
            rooms = [m.CuboidXd(center_position=outer.center_position + rng.uniform(-1, 1, 2),
                                axes_length=rng.uniform(.4, 1.6, 2), is_boundary=True)
                     for _ in range(int(rng.integers(1, 4)))]
            if rng.integers(4) == 0:
                l, h, w = rng.uniform(2, 4), rng.uniform(1.5, 3), rng.uniform(.2, .6)
                hull = m.hull.create_u_shape_obstacle(l, h, w)
                outer, rooms = hull.outer_obstacle, hull.inner_obstacles
                for _ in range(10):  # walls left, right and below
                    x = rng.uniform(-1, 1, 2) * [.6 * l, .6 * h]
                    wall = bool(abs(x[0]) < l / 2 and abs(x[1]) < h / 2 and
                                not (abs(x[0]) < l / 2 - w and x[1] > w - h / 2))
                    recs.append({"kind": "hull", "outer": wall, "rooms": [],
                                 "got": bool(hull.is_inside(x))})
            else:
                hull = m.hull.MultiHullAndObstacle(inner_obstacles=rooms, outer_obstacle=outer)
            for _ in range(10):
                x = outer.center_position + rng.uniform(-1, 1, 2) * 2
                inside = [bool(r.get_gamma(x, in_global_frame=True) > 1) for r in rooms]
                o = float(outer.get_gamma(x, in_global_frame=True))
                recs.append({"kind": "hull", "outer": o <= 1, "rooms": inside,
                             "got": bool(hull.is_inside(x))})
                g = float(rooms[0].get_gamma(x, in_global_frame=True))
                if np.linalg.norm(x - outer.center_position) < .1:
                    continue
                edge = outer.get_point_on_surface(x, in_global_frame=True)
                e = float(rooms[0].get_gamma(edge, in_global_frame=True))
                if min(abs(g - 1), abs(o - 1), abs(e - 1)) < .01:
                    continue
                kw = {"power_factor": float(rng.uniform(.5, 3))} if rng.integers(2) else {}
                w = m.hull.get_boundary_intersection_weight(x, rooms[0], outer, **kw)
                recs.append({"kind": "door", "inner": vf.q(min(g, 10)), "outer": vf.q(min(o, 10)),
                             "edge": vf.q(min(e, 10)), "pow": vf.q(kw.get("power_factor", 1.5)),
                             "w": vf.q(float(w))})
                if e > 10:
                    recs.pop()
    vf.validate(chk, "hulls", "GeometryTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


PARTS = [rays, overlaps, hulls]
