"""Walls and graph of a learned mixture (MixtureGraph, MixtureTrace)."""
import contextlib
import io
import itertools
import os
import tempfile
import types

import numpy as np

import vf
from props.l01_learned import demonstrations


@contextlib.contextmanager
def silent():
    with vf.quiet(), contextlib.redirect_stdout(io.StringIO()):
        yield


def graph_of(means, covs, priors, attractor, table=None):
    """A graph over the given Gaussians (position, velocity and direction)."""
    from vartools.dynamical_systems import LinearSystem
    from nonlinear_avoidance.gmm_learner.graph import GraphGMM
    from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM

    class Given(DirectionalGMM):
        def load_data_from_mat(self, file_name=None, **kwargs):
            self.pos_attractor = np.array(attractor, dtype=float)
            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
            self.dim_gmm = 5

        def regress(self, n_gaussian=None, **kwargs):
            self.dpgmm = types.SimpleNamespace(
                means_=np.array(means), covariances_=np.array(covs), weights_=np.array(priors),
                covariance_type="full")

        def get_mixing_weights(self, X, *args, **kwargs):
            if table is None:
                return super().get_mixing_weights(X, *args, **kwargs)
            return np.array(table, dtype=float).T  # [Gaussian, end point]

    return GraphGMM(file_name="given", n_gaussian=len(means), LearnerType=Given)


def tables(chk):
    """Every table of preferences and every root."""
    rng = np.random.default_rng(vf.SEED * 17 + 1)
    rows = []
    for p in itertools.permutations(range(1, 7)):
        w = np.zeros((3, 3), dtype=int)
        w[~np.eye(3, dtype=bool)] = p
        rows.append(w.tolist())
    for n, count in ((2, 2), (4, 500), (5, 300), (6, 120)):
        for _ in range(count * (4 if vf.THOROUGH else 1)):
            w = np.zeros((n, n), dtype=int)
            w[~np.eye(n, dtype=bool)] = rng.permutation(n * (n - 1)) + 1
            rows.append(w.tolist())
    r = vf.run_tlc("MixtureGraph", "SPECIFICATION Spec\nINVARIANTS Rooted Same\n"
                   "PROPERTIES Wanted Grows Done\n", env={"TABLES": "tables.json"},
                   files={"tables.json": {"tables": rows}}, workers=4)
    chk.add_tlc(r, "tables")
    seen = 0
    for j in r.json:
        if "parent" not in j:
            continue
        w, root, want = np.array(j["w"]), j["root"] - 1, j["parent"]
        n = len(w)
        ang = 2 * np.pi * np.arange(n) / n
        radius = np.full(n, 1.5)
        radius[root] = .3
        means = np.zeros((n, 5))
        means[:, 0], means[:, 1] = radius * np.cos(ang), radius * np.sin(ang)
        covs = [np.eye(5) * .003] * n
        seen += 1
        with silent():
            try:
                g = graph_of(means, covs, np.full(n, 1 / n), [0.0, 0.0], table=w)
                if seen % 2:
                    g.create_graph_from_gaussians()
                else:
                    g.create_learned_boundary()
                if seen % 3 == 0:  # once more
                    g.create_graph_from_gaussians()
                got = [int(g.get_parent(k)) + 1 for k in range(n)]
                kids = [sorted(int(c) + 1 for c in g.get_children(k)) for k in range(n)]
            except vf.Hang:
                raise
        want_kids = [[c + 1 for c in range(n) if want[c] == p + 1] for p in range(n)]
        if got != want:
            chk.violation(f"tables/parents-{n}",
                          f"weights {w.tolist()}, root {root + 1}: parents {got}, not {want}", j)
        elif kids != want_kids:
            chk.violation("tables/children", f"children {kids}, not {want_kids}", j)
    chk.count("tables", seen)
    chk.sample({"part": "tables", "end": r.json[0]})


def mixture(rng, n):
    covs = []
    for _ in range(n):
        B = rng.uniform(-.3, .3, (5, 5))
        cov = B @ B.T * .4 + np.diag(np.hstack((rng.uniform(.04, .2, 2), [.2, .2, .2])))
        th = rng.uniform(0, np.pi)
        R = np.eye(5)
        R[:2, :2] = [[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]
        covs.append(np.round(R @ cov @ R.T, 4))
    if rng.random() < .3:  # along the axes
        covs[0] = np.diag(rng.permutation([.06, .15, .2, .2, .2]))
    means = np.hstack((rng.uniform(-1, 1, (n, 2)), rng.uniform(-.5, .5, (n, 2)),
                       rng.uniform(-1.4, 1.4, (n, 1))))
    prior = rng.integers(2, 9, n)
    return np.round(means, 3), np.array(covs), prior / prior.sum()


def describe(g, rng, factor, recs):
    from vartools.linalg import get_orthogonal_basis

    n = g.n_components
    means, covs = g.gmm.means_, g.gmm.covariances_
    ends = np.array([g.get_end_point(k) for k in range(n)])
    target = np.array(g.pos_attractor)
    weights = g.get_mixing_weights(X=ends, weight_factor=2, feat_in=np.arange(2),
                                   feat_out=np.arange(0)).T
    off = weights[~np.eye(n, dtype=bool)]
    parent = [int(g.get_parent(k)) + 1 for k in range(n)]
    ranks = np.zeros((n, n), dtype=int)
    if n > 1:
        order = np.sort(off)
        ranks[~np.eye(n, dtype=bool)] = np.searchsorted(order, off) + 1
        clear = order[0] > 1e-200 and np.all(np.diff(order) > 1e-9 * order[1:])
    else:
        clear = True
    dist = np.linalg.norm(ends - target, axis=1)
    if np.max(dist) < 4.4:
        recs.append({"f": "graph", "w": ranks.tolist(), "clear": bool(clear), "ends": vf.q(ends),
                     "attractor": vf.q(target), "parent": parent,
                     "root": int(np.argmin(dist)) + 1 if n < 2 or np.diff(np.sort(dist))[0] > .001
                     else int(g.get_root()) + 1,
                     "children": [[int(c) + 1 for c in g.get_children(k)] for k in range(n)],
                     "levels": [int(k) for k in g.get_level_numbers()],
                     "branches": int(g.number_of_branches),
                     "roots": [int(k) + 1 for k in g.get_root(return_multi_values=True)]})
    local = []
    for k in range(n):
        cov, mean = covs[k][:2, :2], means[k, :2]
        null = target - mean
        if np.linalg.norm(null) < .05:
            local.append(None)
            continue
        solve = lambda p: np.linalg.solve(cov, p - mean)
        common = {"mean": vf.q(mean), "cov": vf.q(cov)}
        if np.max(np.abs(solve(ends[k]))) < 12:
            recs.append({"f": "end", **common, "end": vf.q(ends[k]), "u": vf.q(solve(ends[k])),
                         "base": vf.q(get_orthogonal_basis(null).T), "angle": vf.q(means[k, 4])})
        pts, us = [], []
        for th in rng.uniform(0, 2 * np.pi, 4):
            p = g[k].get_intersection_with_surface(
                start_position=g[k].center_position, direction=np.array([np.cos(th), np.sin(th)]),
                in_global_frame=True)
            if np.max(np.abs(solve(p))) < 12 and np.max(np.abs(p)) < 4:
                pts.append(p), us.append(solve(p))
        if pts:
            recs.append({"f": "wall", **common, "points": vf.q(np.array(pts)),
                         "us": vf.q(np.array(us)), "size2": vf.q(factor**2),
                         "boundary": bool(g[k].is_boundary),
                         "center": vf.q(g[k].center_position)})
        # where the wall leads to
        rng_pts = mean + rng.uniform(-1, 1, (3, 2))
        form = null @ np.linalg.solve(cov, null)
        inside = 2 if abs(form / (2 * factor**2) - 1) < .01 else int(form < 2 * factor**2)
        spot = g.get_intersection_position(k)
        local.append(spot)
        if np.max(np.abs(solve(spot))) < 12 and np.max(np.abs(spot)) < 4:
            recs.append({"f": "target", **common, "out": vf.q(spot), "attractor": vf.q(target),
                         "inside": inside, "is_root": parent[k] == 0, "size2": vf.q(factor**2),
                         "u": vf.q(solve(spot)), "end": vf.q(ends[k]),
                         "parent_mean": vf.q(means[parent[k] - 1, :2])})
        for p in rng_pts:
            v = g.get_convergence_direction(position=p, it_obs=k)
            if np.linalg.norm(spot - p) > .4 and np.max(np.abs(spot - p)) < 3:
                recs.append({"f": "pull", "x": vf.q(p), "target": vf.q(spot),
                             "out": vf.q(v / np.linalg.norm(v))})


def walls(chk):
    rng = np.random.default_rng(vf.SEED * 17 + 2)
    recs = []
    with silent():
        for _ in range(400 if vf.THOROUGH else 110):
            n = int(rng.integers(1, 6))
            means, covs, priors = mixture(rng, n)
            apart = rng.random() < .15
            if apart:  # so far apart that they do not share anything
                n = int(rng.integers(3, 6))
                means, _, priors = mixture(rng, n)
                means[:, :2] *= 1.8
                covs = np.array([np.eye(5) * .001] * n)
                if rng.random() < .5:
                    means[1, :2] = means[0, :2] + [.1, .05]
            k = int(rng.integers(n)) if not apart or rng.random() < .4 else 0
            attractor = means[k, :2] + rng.uniform(-.4, .4, 2)
            g = graph_of(means, covs, priors, attractor)
            factor = 2.0
            if rng.random() < .5:
                g.create_learned_boundary()
            else:
                factor = float(rng.choice([1.2, 1.5]))
                g.create_learned_boundary(oversize_factor=factor)
            if rng.random() < .4:
                g.set_convergence_directions(NonlinearDynamcis=g)  # twice is as once
            g.set_convergence_directions(NonlinearDynamcis=g)
            describe(g, rng, factor, recs)
    vf.validate(chk, "walls", "MixtureTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "walls", "record": recs[0]})


def learned(chk):
    """The graph of motions which were demonstrated."""
    from nonlinear_avoidance.gmm_learner.graph import GraphGMM

    rng = np.random.default_rng(vf.SEED * 17 + 3)
    recs = []
    state = np.random.get_state()
    with silent(), tempfile.TemporaryDirectory() as scratch:
        for k in range(12 if vf.THOROUGH else 5):
            path = os.path.join(scratch, f"set{k}.mat")
            demonstrations(rng, 3, path, None)
            np.random.seed(100 * vf.SEED + k)
            g = GraphGMM(file_name=path, n_gaussian=int(rng.integers(2, 5)))
            g.create_learned_boundary()
            g.set_convergence_directions(NonlinearDynamcis=g)
            describe(g, rng, 2.0, recs)
            x = rng.uniform(-1, 1, 2)
            if hasattr(g, "_Learner") and not np.allclose(g.evaluate(x), g._Learner.predict(x)):
                chk.violation("learned/field", f"evaluation at {x} is not the learned one")
    np.random.set_state(state)
    vf.validate(chk, "learned", "MixtureTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "learned", "record": recs[0]})


PARTS = [tables, walls, learned]
