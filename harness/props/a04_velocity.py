"""The velocity among obstacle trees: recorded scenes judged by PlanarVelocity and
SpatialVelocity."""
import math

import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, unit


def chain(m, rng, n, line=False):
    """A tree of overlapping ellipses and boxes."""
    o = m.MultiObstacle(m.Pose(rng.uniform(-1, 1, 2), float(rng.uniform(-3, 3))))
    at = rng.uniform(-.3, .3, 2)
    places = [at]
    for k in range(n):
        if rng.random() < .5:
            c = m.Ellipse(center_position=at, axes_length=rng.uniform(.5, .9, 2),
                          orientation=float(rng.uniform(-3, 3)))
        else:
            c = m.CuboidXd(center_position=at, axes_length=rng.uniform(.9, 1.6, 2),
                           orientation=float(rng.uniform(-3, 3)))
        c.tail_effect = bool(rng.integers(2))
        if k == 0:
            o.set_root(c)
            parent = 0
        else:
            try:
                o.add_component(c, parent_ind=parent, reference_position=sc.rot(
                    -c.pose.orientation) @ ((base + at) / 2 - at))
            except ValueError:
                break
            places.append(at)
        parent = len(places) - 1 if line else int(rng.integers(len(places)))
        base = places[parent]
        at = base + rng.uniform(.5, .8) * unit(rng, 2)
        if line:
            way = way + rng.uniform(-.5, .5) if k else rng.uniform(-3, 3)
            at = base + rng.uniform(.3, .6) * np.array([math.cos(way), math.sin(way)])
    return o


def turned(rng):
    from scipy.spatial.transform import Rotation

    return Rotation.from_rotvec(unit(rng, 3) * rng.uniform(.2, 2.9)) if rng.integers(4) else None


def spatial_chain(m, rng, n, line=False):
    """A tree of overlapping ellipsoids and boxes in space."""
    o = m.MultiObstacle(m.Pose(rng.uniform(-1, 1, 3), turned(rng)))
    places = []
    for k in range(n):
        if k == 0:
            at = rng.uniform(-.3, .3, 3)
        else:
            parent = len(places) - 1 if line else int(rng.integers(len(places)))
            base = places[parent]
            at = base + rng.uniform(.5, .8) * unit(rng, 3)
        new = m.Ellipse if rng.random() < .5 else m.CuboidXd
        size = rng.uniform(.5, .9, 3) if new is m.Ellipse else rng.uniform(.9, 1.6, 3)
        c = new(center_position=at, axes_length=size, orientation=turned(rng))
        c.tail_effect = bool(rng.integers(2))
        if k == 0:
            o.set_root(c)
        else:
            try:
                o.add_component(c, parent_ind=parent, reference_position=np.array(
                    c.pose.rotation_matrix).T @ ((base + at) / 2 - at))
            except ValueError:
                break
        places.append(at)
    return o


def normal_of(m, comp, at, distance):
    if isinstance(comp, m.CuboidXd):
        d = at - comp.center_position
        at = at + d / np.linalg.norm(d) * distance
    return comp.get_normal_direction(at, in_global_frame=True)


def branch(m, tree, k, x, parents):
    """Inward directions from component k to the root, and the normal of k."""
    comp = tree[k]
    ref = comp.get_reference_direction(x, in_global_frame=True)
    if comp.get_gamma(x, in_global_frame=True) > 1:
        hit = comp.get_intersection_with_surface(comp.global_reference_point, -ref,
                                                 in_global_frame=True)
        dist = np.linalg.norm(x - hit)
    else:
        hit = comp.get_intersection_with_surface(x, -ref, in_global_frame=True)
        dist = 0.0
    normal = normal_of(m, comp, hit, dist)
    refs = [ref]
    while parents[k] is not None:
        base = tree[k].global_reference_point
        k = parents[k]
        hit = tree[k].get_intersection_with_surface(base, hit - base, in_global_frame=True)
        refs.append(tree[k].get_reference_direction(hit, in_global_frame=True))
    return refs, normal


def describe(m, tree, x):
    parents = [tree.get_parent_idx(k) for k in range(tree.n_components)]
    comps = []
    for k in range(tree.n_components):
        comp = tree[k]
        g = comp.get_gamma(x, in_global_frame=True)
        refs, n = branch(m, tree, k, x, parents)
        og, dotp = 1.0, 0.0
        if parents[k] is not None:
            way = refs[0] if g >= 1 else -refs[0]
            hit = comp.get_intersection_with_surface(x, way, in_global_frame=True)
            par = tree[parents[k]]
            og = min(1.0, par.get_gamma(hit, in_global_frame=True))
            a = x - comp.global_reference_point
            b = par.global_reference_point - comp.global_reference_point
            dotp = a @ b / np.linalg.norm(a) / max(np.linalg.norm(b), 1e-9)
        depth = 1.0
        if g < 1:
            c = comp.center_position
            depth = np.linalg.norm(x - c) / np.linalg.norm(comp.get_intersection_with_surface(
                c, x - c, in_global_frame=True) - c)
        comps.append({"g": vf.q(g), "og": vf.q(og), "dotp": vf.q(dotp), "n": vf.q(n),
                      "refs": [vf.q(r) for r in refs], "tail": bool(comp.tail_effect),
                      "depth": vf.q(depth)})
    root = tree.get_root()
    return {"rn": vf.q(root.get_normal_direction(x, in_global_frame=True)),
            "rref": vf.q(root.get_reference_direction(x, in_global_frame=True)),
            "comps": comps}


def velocities(chk, part, count, sizes, depth=False, line=False, dim=2):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 59 + len(part))
    recs = []
    with vf.quiet():
        while len(recs) < count:
            trees = [(chain if dim == 2 else spatial_chain)(m, rng, int(n), line) for n in sizes[rng.integers(len(sizes))]]
            cont = sc.container(m, trees)
            attr = 4 * unit(rng, dim)
            ds = dynamics(m, rng.choice(["linear", "wavy", "spiral", "stretched"][:1 if dim == 3 else 4]), attr)
            kw = {}
            if rng.integers(3) == 0:
                kw["convergence_radius"] = float(rng.uniform(1.6, 2.6))
            if rng.integers(3) == 0:
                kw["smooth_continuation_power"] = float(rng.choice([.5, 1.0]))
            if rng.integers(3) == 0:
                kw["gamma_maximum_repulsion"] = float(rng.choice([.5, .6, .7]))
            av = sc.avoider(m, cont, ds, **kw)
            for _ in range(6):
                x = rng.uniform(-3, 3, dim) * (1 if dim == 2 else .7)
                gs = [c.get_gamma(x, in_global_frame=True) for t in trees for c in t]
                if min(abs(g - 1) for g in gs) < .04 or min(gs) < .1 or max(gs) > 9:
                    continue
                if (min(gs) < 1) != depth:
                    continue
                conv = np.array(av.compute_convergence_direction(x), float)
                conv /= np.linalg.norm(conv)
                v = av.evaluate(x)
                avg, g = av.compute_averaged_normal_and_gamma(x)
                recs.append({"avg": vf.q(avg), "g": vf.q(g), "gs": vf.q(gs), "ns": [
                    vf.q(c.get_normal_direction(x, in_global_frame=True))
                    for t in trees for c in t]})
                recs.append({
                    "conv": vf.q(conv), "s0": vf.q(np.linalg.norm(ds.evaluate(x))),
                    "rad": vf.q(av.convergence_radius), "p": vf.q(av.smooth_continuation_power),
                    "rep": vf.q(av.gamma_maximum_repulsion), "v": vf.q(v),
                    "trees": [describe(m, t, x) for t in trees], "what": len(gs)})
    vf.validate(chk, part, "PlanarVelocity" if dim == 2 else "SpatialVelocity", recs, key=lambda r, c: c)
    chk.sample({"part": part, "record": recs[0]})


def single(chk):
    velocities(chk, "single", 4000 if vf.THOROUGH else 1400, [[1], [1, 1], [1, 1, 1]])


def trees(chk):
    velocities(chk, "trees", 4000 if vf.THOROUGH else 1400, [[2], [3], [2, 1], [4], [2, 3]])


def inside(chk):
    velocities(chk, "inside", 2000 if vf.THOROUGH else 600, [[1], [2], [1, 1], [3]], depth=True)


def deep(chk):
    velocities(chk, "deep", 300 if vf.THOROUGH else 96, [[11], [12], [13]], line=True)


def space(chk):
    velocities(chk, "space", 1500 if vf.THOROUGH else 600,
               [[1], [1, 1], [2], [3], [2, 1], [1, 1, 1]], dim=3)


def space_inside(chk):
    velocities(chk, "space-inside", 600 if vf.THOROUGH else 160, [[1], [2], [1, 1]], depth=True,
               dim=3)


PARTS = [single, trees, inside, deep, space, space_inside]
