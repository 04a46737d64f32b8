"""The direction of convergence among obstacle trees judged by ConvergenceTrace
and SpatialConvergence."""
import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import dynamics, unit
from props.a04_velocity import chain, spatial_chain, turned


def wide(u, w):
    """Directions closer than some degrees to opposition leave the turn open."""
    return u @ w > -.996


def unit_of(v):
    return v / np.linalg.norm(v)


def motion(m, rng, kinds, attr):
    if len(attr) == 2:
        return dynamics(m, str(rng.choice(kinds)), attr)
    skew = np.cross(np.eye(3), unit(rng, 3)) * rng.choice([0, .6, 1.])
    return m.LinearSystem(attractor_position=attr, maximum_velocity=1.0,
                          A_matrix=-(np.diag(rng.uniform(.7, 1.6, 3)) + skew))


def scenes(chk, part, count, sizes, line=False, dim=2):
    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 61 + len(part))
    recs = []
    with vf.quiet():
        while len(recs) < count:
            trees = [(chain if dim == 2 else spatial_chain)(m, rng, int(n), line) for n in sizes[rng.integers(len(sizes))]]
            for t in trees:
                t.update_pose(m.Pose(rng.uniform(-2, 2, dim), float(rng.uniform(-3, 3)) if dim == 2
                                     else turned(rng)))
            cont = sc.container(m, trees)
            attr = rng.uniform(.5, 4) * unit(rng, dim)
            ds = motion(m, rng, ["linear", "wavy", "spiral", "stretched"], attr)
            kw, at_root = {}, ds
            if rng.integers(4) == 0:
                at_root = motion(m, rng, ["linear", "spiral"], attr)
                kw["default_dynamics"] = at_root
            av = sc.avoider(m, cont, ds, **kw)
            for _ in range(5):
                x = rng.uniform(-3.5, 3.5, dim) * (1 if dim == 2 else .75)
                r = describe(m, av, trees, attr, ds, at_root, x)
                if r is not None:
                    recs.append(r)
    vf.validate(chk, part, "ConvergenceTrace" if dim == 2 else "SpatialConvergence", recs)
    chk.sample({"part": part, "record": recs[0]})


def describe(m, av, trees, attr, ds, at_root, x):
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

    to = lambda p: unit_of(attr - p)  # noqa: E731
    base, init = to(x), unit_of(ds.evaluate(x))
    pairs = [(base, init)]
    told = []
    for t in trees:
        ref = t.get_root().global_reference_point
        vel = unit_of(at_root.evaluate(ref))
        g = t.get_gamma(attr, in_global_frame=True)
        rw = av.convergence_dynamics.evaluate_projected_weight(x, t.get_root())
        pairs += [(base, to(ref)), (to(ref), vel)]
        comps = []
        for k in range(t.n_components):
            if k == t.root_idx:
                continue
            w = av.convergence_dynamics.evaluate_projected_weight(x, t[k])
            way, j = [], k
            while j is not None:
                way.append(to(t[j].global_reference_point))
                j = t.get_parent_idx(j)
            pairs += list(zip([base] + way, way))
            if .0095 < w < .0105:
                return None
            comps.append({"w": vf.q(w), "way": [vf.q(u) for u in way]})
        ws = [rw] + [c["w"] / 10000 for c in comps]
        if any(.97 < w < 1 for w in ws) or any(0 < w < 2e-4 for w in ws) or abs(g - 1) < .01:
            return None
        told.append({"g": vf.q(min(g, 10)), "rw": vf.q(rw), "vel": vf.q(vel), "b": vf.q(to(ref)),
                     "comps": comps})
    if not all(wide(u, w) for u, w in pairs):
        return None
    s = av.compute_convergence_sequence(x, evaluate_dynamics_sequence(x, ds))
    v = s.get_end_vector()
    if not np.allclose(av.compute_convergence_direction(x), v):
        return {"base": vf.q(base), "init": vf.q(init), "v": [0, 0], "trees": told}
    return {"base": vf.q(base), "init": vf.q(init), "v": vf.q(v), "trees": told}


def single(chk):
    scenes(chk, "single", 2000 if vf.THOROUGH else 800, [[1], [1, 1], [1, 1, 1]])


def several(chk):
    scenes(chk, "several", 2000 if vf.THOROUGH else 800, [[2], [3], [2, 1], [4], [2, 3]])


def deep(chk):
    scenes(chk, "deep", 300 if vf.THOROUGH else 80, [[8], [12]], line=True)


def space(chk):
    scenes(chk, "space", 2000 if vf.THOROUGH else 800, [[1], [1, 1], [2], [3], [2, 1]], dim=3)


PARTS = [single, several, deep, space]
