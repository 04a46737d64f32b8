"""Obstacles made of gaussians, judged by GaussForest and GaussTrace."""
import math

import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import unit


def mods():
    class m:
        pass

    from sklearn.mixture import GaussianMixture
    from sklearn.mixture._gaussian_mixture import _compute_precision_cholesky
    from nonlinear_avoidance.gmm_obstacle import GmmObstacle

    m.Mixture, m.Gmm, m.cholesky = GaussianMixture, GmmObstacle, _compute_precision_cholesky
    return m


def frame(rng, d):
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    return q


def build(m, means, frames, axes, weights=None, factor=2.):
    """axes: half axes of the ellipses"""
    n = len(means)
    g = m.Gmm(n_gmms=n, variance_factor=factor) if factor != 2. else m.Gmm(n_gmms=n)
    mix = m.Mixture(n_components=n, covariance_type="full")
    mix.means_ = np.array(means, float)
    mix.covariances_ = np.array([q @ np.diag((np.asarray(a) / factor) ** 2) @ q.T
                                 for q, a in zip(frames, axes)])
    mix.weights_ = np.ones(n) / n if weights is None else np.array(weights)
    mix.precisions_cholesky_ = m.cholesky(mix.covariances_, "full")
    g._gmm = mix
    g.shapes = [{"k": "ball", "c": vf.q(c), "ax": vf.q(a), "m": [vf.q(x) for x in q.T]}
                for c, q, a in zip(means, frames, axes)]
    return g


def make(m, rng, n, d, chain=True):
    axes = [rng.uniform(.3, .9, d) for _ in range(n)]
    frames = [frame(rng, d) for _ in range(n)]
    means = [rng.uniform(-.6, .6, d)]
    for i in range(1, n):
        means.append(means[int(rng.integers(len(means)))] + unit(rng, d) * rng.uniform(.3, 1.)
                     if chain else rng.uniform(-1.3, 1.3, d))
    means = [c * min(1., 1.9 / np.linalg.norm(c)) for c in means]
    weights = None
    if rng.integers(2):
        weights = rng.uniform(.5, 2, n)
        weights /= weights.sum()
    factor = float(rng.choice([2., 2., 1.5, 2.5]))
    g = build(m, means, frames, axes, weights, factor)
    g.axes = axes
    return g


def at(rng, d):
    while True:
        p = rng.uniform(-2.2, 2.2, d)
        if np.linalg.norm(p) < 2.4:
            return p


def level(g, p, k):
    d = p - g._gmm.means_[k]
    return math.sqrt(d @ np.linalg.inv(g._gmm.covariances_[k]) @ d) / g.variance_factor


def parents(g):
    out = []
    for k in range(g.n_gmms):
        p = g.gmm_index_graph.get_parent(k)
        out.append(0 if p is None else int(p) + 1)
    return out


def forest(chk):
    """All orders of the odds of three components, replayed."""
    m = mods()
    ranks = "{<<<<0, a[1], a[2]>>, <<a[3], 0, a[4]>>, <<a[5], a[6], 0>>>> : a \\in Perms}"
    mc = "\n".join(["---- MODULE MCGaussForest ----", "EXTENDS GaussForest, FiniteSetsExt",
                    "Perms == {a \\in [1..6 -> 1..6] : \\A x, y \\in 1..6 : x # y => a[x] # a[y]}",
                    "CRanks == " + ranks, "===="])
    r = vf.run_tlc("MCGaussForest", "SPECIFICATION Spec\nCONSTANTS N = 3\nRanks <- CRanks\n"
                   "INVARIANTS Rooted OneRoot Loose Suited Show\nCHECK_DEADLOCK FALSE\n",
                   files={"MCGaussForest.tla": mc}, workers=4)
    chk.add_tlc(r, "forest")
    ends = [j for j in r.json if "odds" in j]
    if len(ends) != 2160:
        raise vf.TlcError(f"{len(ends)} ends instead of 2160")
    place = {0: [(0., 0.), (1., 0.), (-1., .2)], 1: [(1., 0.), (0., 0.), (-1., .2)],
             2: [(1., 0.), (-1., .2), (0., 0.)]}
    for e in ends:
        root = e["root"] - 1
        g = build(m, np.array(place[root]), [np.eye(2)] * 3, [np.array([.8, .7])] * 3)
        odds = np.array(e["odds"], float)
        real = g._gmm

        def predict_proba(points, odds=odds, real=real):
            rows = [int(np.argmin(np.linalg.norm(real.means_ - p, axis=1))) for p in points]
            out = odds[rows] / 10.
            for a, k in enumerate(rows):
                out[a, k] = 1.
            return out

        real.predict_proba = predict_proba
        with vf.quiet():
            g.evaluate_hirarchy_and_reference_points()
        got = parents(g)
        chk.count("forest", 1)
        if got != e["parent"] or [int(x) for x in g.gmm_index_graph.roots] != [root]:
            chk.violation("forest/parents", f"{e}: {got}", e)
    chk.sample({"part": "forest", "record": ends[0]})


def components(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 1711)
    recs = []
    with vf.quiet():
        for run in range(3000 if vf.THOROUGH else 350):
            d = int(rng.integers(2, 4))
            g = make(m, rng, int(rng.integers(1, 4)), d)
            g.evaluate_axes_length_and_direction()
            for _ in range(4):
                k = int(rng.integers(g.n_gmms))
                how = int(rng.integers(8))
                c = g._gmm.means_[k]
                p = at(rng, d)
                if how == 0:
                    p = c.copy()
                elif how < 3:
                    p = c + (p - c) / level(g, p, k) * rng.choice([.3, .7, .999, 1.001, 1.3])
                keep = p.copy()
                out = {"kind": "comp", "shape": g.shapes[k], "p": vf.q(p),
                       "level": vf.q(g.get_gamma_proportional(p, k), 1000),
                       "got": vf.q(min(max(g.get_gamma(p, k), -90.), 90.)),
                       "n": vf.q(g.get_normal_direction(p, k)),
                       "ref": vf.q(g.get_reference_direction(p, k))}
                out["circle"] = vf.q(g.transform_position_to_unitcircle_frame(p, k))
                out["back"] = vf.q(g.transform_position_from_unitcircle_frame(
                    g.transform_position_to_unitcircle_frame(p, k), k))
                if how:
                    out["proj"] = vf.q(g.project_point_on_surface(p, k))
                    rise = [g.get_gamma_derivative(p, k, *a) for a in ((), (5,), (2,))]
                    out["rise"] = [vf.q(x / np.linalg.norm(x)) for x in rise]
                else:
                    out["proj"], out["rise"] = vf.q(c), []
                recs.append(out)
                if not np.array_equal(keep, p):
                    chk.violation("components/argument-changed", f"{keep} -> {p}")
                q = c + frame(rng, d) @ (unit(rng, d) * rng.uniform(0, .29))
                if level(g, q, k) < .9 and np.linalg.norm(p - q) > .3:
                    got = g.project_point_on_surface_with_offcenter_point(p, q, k)
                    if np.linalg.norm(got - q) > .1:
                        recs.append({"kind": "off", "shape": g.shapes[k], "q": vf.q(q),
                                     "p": vf.q(p), "got": vf.q(got)})
    vf.validate(chk, "components", "GaussTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "components", "record": recs[0]})


def trees(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 1721)
    recs = []
    with vf.quiet():
        for run in range(3000 if vf.THOROUGH else 400):
            d = int(rng.integers(2, 4))
            g = make(m, rng, int(rng.integers(1, 6)), d, chain=bool(rng.integers(5)))
            if run % 5 == 0:
                g.evaluate_axes_length_and_direction()
            g.evaluate_hirarchy_and_reference_points()
            root = int(g.gmm_index_graph.roots[0])
            refs = g.kernel_points
            base = {"shapes": g.shapes, "root": root + 1, "parent": parents(g),
                    "refs": [vf.q(x) for x in refs.T]}
            recs.append({"kind": "tree", "lw": vf.q(np.log(g._gmm.weights_)),
                         "factor": int(round(g.variance_factor * 100)), **base})
            if any(x != y for x, y in zip(
                    [vf.q(g.get_kernel_point(k)) for k in range(g.n_gmms)], base["refs"])) \
                    or g.dimension != d:
                chk.violation("trees/kernel-point", f"{refs}")
            for k in range(g.n_gmms):
                if not np.allclose(g.get_center_position(k), g._gmm.means_[k]):
                    chk.violation("trees/centre", f"{k}")
            inner = all(level(g, refs[:, k], k) < .97 and
                        (base["parent"][k] == 0 or level(g, refs[:, k], base["parent"][k] - 1) < .97)
                        for k in range(g.n_gmms))
            if inner:
                turn = g.get_relative_orientation_of_ellipses(None)
                recs.append({"kind": "turn", "got": [[] if t is None else vf.q(
                    np.asarray(t.as_angle())) for t in turn], **base})
                for _ in range(4):
                    p = at(rng, d)
                    how = int(rng.integers(6))
                    k = int(rng.integers(g.n_gmms))
                    if how == 0:
                        # beyond the passage to the parent
                        q = base["parent"][k] - 1 if base["parent"][k] else k
                        c = g._gmm.means_[q] - refs[:, k]
                        p = refs[:, k] + c * rng.uniform(.5, 4) + rng.normal(size=d) * .3
                    elif how == 1:
                        p = refs[:, k] + rng.normal(size=d) * .1
                    if np.linalg.norm(p) > 2.5 or np.min(np.linalg.norm(refs.T - p, axis=1)) < .05:
                        continue
                    keep = p.copy()
                    g.evaluate_gamma_weights(p)
                    w = np.array(g.relative_weights)
                    hits = [vf.q(g.project_point_on_surface_with_offcenter_point(p, refs[:, j], j))
                            if base["parent"][j] else base["refs"][j] for j in range(g.n_gmms)]
                    recs.append({"kind": "share", "hits": hits, "p": vf.q(p), "w": vf.q(w), **base})
                    if np.min(np.linalg.norm(g._gmm.means_ - p, axis=1)) > .1:
                        g.evalute_weighted_reference_and_normal_offset(p)
                        recs.append({"kind": "mean", "p": vf.q(p), "w": vf.q(w),
                                     "ref": vf.q(g.mean_reference), "n": vf.q(g.mean_normal), **base})
                    if not np.array_equal(keep, p):
                        chk.violation("trees/argument-changed", f"{keep} -> {p}")
            for _ in range(3):
                p = at(rng, d)
                c = refs[:, root].copy()
                if rng.integers(3) == 0:
                    c = c + unit(rng, d) * .2
                    g.set_kernel_point(c, root)
                    if not np.allclose(g.get_kernel_point(root), c):
                        chk.violation("trees/kernel-point-set", f"{c}")
                if np.linalg.norm(p - c) < .3:
                    continue
                v = unit(rng, d) * rng.uniform(.2, 2)
                kind = int(rng.integers(4))
                if kind == 0:
                    v = (c - p) / np.linalg.norm(c - p)
                elif kind == 1:
                    v = (p - c) / np.linalg.norm(c - p) * 1.3
                keep = p.copy(), v.copy()
                got = g.get_root_rotation_direction(p, v)
                recs.append({"kind": "lead", "c": vf.q(c), "p": vf.q(p), "v": vf.q(v), "got": vf.q(got)})
                if not (np.array_equal(keep[0], p) and np.array_equal(keep[1], v)):
                    chk.violation("trees/argument-changed", f"{keep}")
            if d == 2:
                env = g.transform_to_analytic_ellipses()
                if len(env) != g.n_gmms:
                    chk.violation("trees/ellipses", f"{len(env)}")
                for s, o in zip(g.shapes, env):
                    recs.append({"kind": "axes", "shape": s, "other": {
                        "k": "ball", "c": vf.q(o.center_position), "ax": vf.q(o._semi()),
                        "m": [vf.q(x) for x in o.pose.rotation_matrix.T]}})
            else:
                try:
                    g.transform_to_analytic_ellipses()
                    chk.violation("trees/ellipses", "no refusal in three dimensions")
                except NotImplementedError:
                    pass
    for r in recs:
        if r["kind"] in ("lead", "axes"):
            r.setdefault("parent", [])
    vf.validate(chk, "trees", "GaussTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "trees", "record": recs[0]})


def fits(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 1723)
    recs = []
    with vf.quiet():
        for run in range(60 if vf.THOROUGH else 12):
            d = int(rng.integers(2, 4))
            n = int(rng.integers(1, 4))
            np.random.seed(int(rng.integers(1 << 30)))
            centres, data, clusters = [], [], []
            while len(centres) < n:
                c = rng.uniform(-1.5, 1.5, d)
                if all(np.linalg.norm(c - o) > 1.3 for o in centres):
                    centres.append(c)
            for c in centres:
                q, s = frame(rng, d), rng.uniform(.06, .16, d)
                data.append(c[:, None] + q @ (rng.normal(size=(d, 700)) * s[:, None]))
                pts = [c + x for a, b in zip(q.T, s) for x in (a * b, -a * b)]
                clusters.append({"c": vf.q(c), "pts": [vf.q(x) for x in pts]})
            data = np.hstack(data)
            factor = float(rng.choice([1.5, 2., 3.]))
            g = m.Gmm(n_gmms=n, variance_factor=factor)
            g.fit(data[:, rng.permutation(data.shape[1])])
            shapes = []
            for k in range(n):
                vals, vecs = np.linalg.eigh(g._gmm.covariances_[k])
                shapes.append({"k": "ball", "c": vf.q(g.get_center_position(k)),
                               "ax": vf.q(np.sqrt(vals) * factor), "m": [vf.q(x) for x in vecs.T]})
            recs.append({"kind": "fit", "shapes": shapes, "clusters": clusters,
                         "factor": int(round(factor * 100))})
            g.shapes = shapes
            for _ in range(4):
                k = int(rng.integers(n))
                c = g.get_center_position(k)
                p = c + unit(rng, d) * rng.uniform(.15, 1.)
                g.evaluate_axes_length_and_direction()
                rise = g.get_gamma_derivative(p, k)
                if level(g, p, k) > 7:
                    continue
                recs.append({"kind": "comp", "shape": shapes[k], "p": vf.q(p),
                             "level": vf.q(g.get_gamma_proportional(p, k), 1000),
                             "got": vf.q(min(max(g.get_gamma(p, k), -90.), 90.)),
                             "n": vf.q(g.get_normal_direction(p, k)),
                             "ref": vf.q(g.get_reference_direction(p, k)),
                             "circle": vf.q(g.transform_position_to_unitcircle_frame(p, k)),
                             "back": vf.q(g.transform_position_from_unitcircle_frame(
                                 g.transform_position_to_unitcircle_frame(p, k), k)),
                             "proj": vf.q(g.project_point_on_surface(p, k)),
                             "rise": [vf.q(rise / np.linalg.norm(rise))]})
    vf.validate(chk, "fits", "GaussTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "fits", "record": recs[0]})


PARTS = [forest, components, trees, fits]
