"""Composed obstacles: arches, joined components and trees of ellipses."""
import math

import numpy as np

import vf
from props import _scenes as sc

mm, ten = sc.mm, sc.ten


def shape(o):
    kind = "box" if type(o).__name__ == "CuboidXd" else "ball"
    return {"k": kind, "c": mm(o.center_position), "ax": mm(o._semi()),
            "m": [ten(r) for r in o.pose.rotation_matrix.T]}


def joins(chk):
    """add_component without a reference point finds one in both components."""
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 41 + 1)
    recs = []

    def part(at):
        kind = int(rng.integers(3))
        ax = rng.uniform(.4, 1.2, 2)
        pose = m.Pose(np.array(at, float), float(rng.uniform(-3, 3)))
        o = [m.Ellipse, EllipseWithAxes, m.CuboidXd][kind](
            pose=pose, axes_length=ax * (1 if kind == 0 else 2))
        return o, min(ax), math.hypot(*ax) if kind == 2 else max(ax)

    with vf.quiet():
        for k in range(800 if vf.THOROUGH else 400):
            o = m.MultiObstacle(m.Pose(rng.uniform(-3, 3, 2), float(rng.uniform(-3, 3))))
            a, small, big = part(rng.uniform(-1, 1, 2))
            loc = a.pose.position.copy()
            o.set_root(a)
            b, small2, big2 = part([0, 0])
            apart = k % 4 == 0
            dist = (1.05 * (big + big2) if apart else .9 * (small + small2) * rng.random())
            ang = rng.uniform(0, 6.28)
            b.pose.position = loc + dist * np.array([math.cos(ang), math.sin(ang)])
            before = (o.n_components, len(list(o)))
            try:
                o.add_component(b, parent_ind=0)
                ok = True
            except ValueError:
                ok = False
            if apart:
                recs.append({"f": "apart", "ok": ok,
                             "kept": before == (o.n_components, len(list(o)))})
            else:
                ref = (b.get_reference_point(in_global_frame=True) if ok
                       else np.zeros(2))
                recs.append({"f": "join", "ok": ok, "a": shape(a), "b": shape(b),
                             "ref": mm(ref)})
    vf.validate(chk, "joins", "BuildTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "joins", "record": recs[1]})


def arches(chk):
    from nonlinear_avoidance.arch_obstacle import BlockArchObstacle, create_arch_obstacle

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 41 + 2)
    recs = []
    with vf.quiet():
        for k in range(400 if vf.THOROUGH else 200):
            w = round(float(rng.uniform(.2, .8)), 2)
            a = np.round(rng.uniform(2.5 * w + .5, 4 * w + 3, 2), 2)
            e = round(float(rng.choice([0, 0, .1])), 2)
            if e and a[1] < 2 * w + 4 * e:
                e = 0
            scale = 1.0
            pose = m.Pose(rng.uniform(-3, 3, 2), float(rng.uniform(-3.1, 3.1)))
            block = k % 3 == 0
            if block:
                o = BlockArchObstacle(wall_width=w, axes_length=a.copy(), pose=pose,
                                      margin_absolut=e)
            else:
                scale = float(rng.choice([1.0, 5.0]))
                o = create_arch_obstacle(wall_width=w, axes_length=a.copy(), pose=pose,
                                         margin_absolut=e, distance_scaling=scale)
            if k % 2:  # moved after it was built
                pose = m.Pose(rng.uniform(-3, 3, 2), float(rng.uniform(-3.1, 3.1)))
                if block:
                    o.pose = pose
                    o.update_obstacles(.1)
                else:
                    o.update_pose(pose)
            probes = []
            for j in range(40):
                x = np.array([rng.uniform(-.5 * w - .6, a[0] - .5 * w + .6),
                              rng.uniform(-.5 * a[1] - .6, .5 * a[1] + .6)])
                p = pose.transform_position_from_relative(x)
                free = bool(o.is_collision_free(p))
                g, gl = o.get_gamma(p), o.get_gamma(x, in_global_frame=False)
                if (g > 1) != free or abs(g - gl) > 1e-6 * max(1, abs(g)):
                    chk.violation(f"arches/{'block' if block else 'factory'}/gamma",
                                  f"gamma {g}, local {gl}, free {free} at {p}")
                probes.append({"p": mm(p), "free": free})
            n = o.n_components
            comps = [o.get_component(j) for j in range(n)]
            if list(o) != comps or len(o) != n or o.get_root() is not comps[0]:
                chk.violation("arches/components", "components listed inconsistently")
            recs.append({
                "f": "arch", "what": "block" if block else "factory",
                "frame": {"c": mm(pose.position), "m": [ten(v) for v in
                                                       pose.rotation_matrix.T]},
                "a": mm(a), "w": mm(w), "e": mm(e), "scale": vf.q(scale),
                "probes": probes, "parts": [shape(c) for c in comps],
                "parents": [-1 if o.get_parent_idx(j) is None else int(o.get_parent_idx(j))
                            for j in range(n)],
                "refs": [mm(c.get_reference_point(in_global_frame=True)) for c in comps],
                "margins": [mm(c.margin_absolut) for c in comps],
                "scales": [vf.q(c.distance_scaling) for c in comps]})
    vf.validate(chk, "arches", "BuildTrace", recs, key=lambda r, c: f"{r['what']}/{c}")


def ellipses(chk):
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
    from nonlinear_avoidance.multi_ellipse_obstacle import MultiEllipseObstacle

    n = 4 if vf.THOROUGH else 3
    r = vf.run_tlc("EllipseTree", f"SPECIFICATION Spec\nCONSTANT MaxN = {n}\nVIEW View\n"
                   "INVARIANT OneParent\nACTION_CONSTRAINT Emit\n")
    chk.add_tlc(r, "ellipses")

    def element(k):
        return EllipseWithAxes(center_position=np.array([k * 1.5, .1 * k]),
                               axes_length=np.array([2.0, 1.4]), orientation=.3 * k)

    def apply(o, a):
        try:
            if a["op"] == "append":
                o.append(element(o.n_components))
            elif a["op"] == "root":
                o.set_root(a["k"])
            else:
                o.set_parent(a["k"], a["p"])
        except (NotImplementedError, ValueError):
            return "refused"
        return "ok"

    def project(o):
        k = o.n_components
        par = [o.get_parent_idx(j) for j in range(k)]
        return {"n": k, "root": -1 if o.root_idx is None else int(o.root_idx),
                "par": [-9 if p is None else int(p) for p in par]}

    def check_state(o, post):
        for j, p in enumerate(post["par"]):
            if p >= 0:
                ref = o.get_component(j).get_reference_point(in_global_frame=True)
                for c in (j, p):
                    g = o.get_component(c).get_gamma(ref, in_global_frame=True)
                    if not g <= 1.0 + 1e-6:
                        return "reference", f"reference point of {j} outside of {c}"
        for x in ([0, 0], [1.4, .2], [3, 1.0], [-2, -2.0]):
            if post["n"]:
                x = np.array(x, float)
                g = min(c.get_gamma(x, in_global_frame=True) for c in
                        (o.get_component(k) for k in range(post["n"])))
                if abs(o.get_gamma(x, in_global_frame=True) - g) > 1e-9:
                    return "gamma", f"not the least of the components at {x}"
                if abs(g - 1) > 1e-6 and bool(o.is_inside(x, in_global_frame=True)) != (g < 1):
                    return "inside", f"at {x}"
        return None

    vf.lockstep(chk, "ellipses", r.json, r.json[0]["pre"],
                lambda _: MultiEllipseObstacle(), apply, project, check_state=check_state,
                walks=40)


PARTS = [joins, arches, ellipses]
