"""Weighted mean of direction trees: RotationTree.tla (plane, exact) and TreeTrace.tla."""
import itertools

import numpy as np

import vf
from props import _tree
from props.v01_rotation import rand_dir


def quarters(n):
    out = []
    for c in itertools.product(range(5), repeat=n):
        if sum(c) == 4:
            out.append(list(c))
    return out


def plane(chk):
    ws = quarters(1) + quarters(2) + quarters(3)
    _tree.explore(chk, "plane", 24, 3, [0, 7, 15] if vf.THOROUGH else [0, 11], ws, False, 40)


def plane_deep(chk):
    ws = ([w for w in quarters(4) if max(w) <= 2] + [[0, 0, 4], [0, 4], [4]]
          + [[0, 0, 0, 4, 0], [0, 1, 1, 0, 2], [1, 0, 1, 1, 1], [0, 0, 2, 2, 0],
             [2, 0, 0, 0, 2], [0, 1, 0, 3, 0]])
    _tree.explore(chk, "plane-deep", 24, 5 if vf.THOROUGH else 4, [3, 13], ws, False, 60)


def random_tree(rng, dim, n):
    dirs = [rand_dir(rng, dim, rng.choice(["axis", "free"]))]
    par = [0]
    while len(dirs) < n:
        p = int(rng.integers(len(dirs)))
        d = dirs[p].copy() if rng.integers(8) == 0 else rand_dir(
            rng, dim, rng.choice(["axis", "free"]))
        c = d.dot(dirs[p])
        if -0.9 < c < 0.97 or c > 0.9999999:
            dirs.append(d)
            par.append(p + 1)
    return dirs, par


def build(dirs, par, scale=None):
    from nonlinear_avoidance.vector_rotation import VectorRotationTree

    t = VectorRotationTree(root_idx=1, root_direction=dirs[0])
    for k in range(1, len(dirs)):
        f = 1.0 if scale is None else scale[k]
        t.add_node(node_id=k + 1, parent_id=par[k], direction=dirs[k] * f)
    return t


def general(chk):
    rng = np.random.default_rng(vf.SEED + 2)
    recs = []
    with vf.quiet():
        for k in range(1500 if vf.THOROUGH else 300):
            dim = int(rng.choice([2, 3, 3, 4, 5]))
            n = int(rng.integers(1, 7))
            dirs, par = random_tree(rng, dim, n)
            hot = 0
            mode = rng.integers(5)
            if mode == 0:
                hot = int(rng.integers(n)) + 1
                w = np.zeros(n)
                w[hot - 1] = 1.0
            elif mode == 1:
                w = rng.dirichlet(np.ones(n)) * (rng.random(n) < 0.5)
                if w.sum() < 0.05:
                    w = np.ones(n)
                w = np.rint(w / w.sum() * 1e4)
                w[np.argmax(w)] += 1e4 - w.sum()
                w /= 1e4
            elif mode == 2:
                a, b = rng.integers(n, size=2)
                w = np.zeros(n)
                w[a] += 0.5
                w[b] += 0.5
            elif mode == 3:
                # almost everything on one node
                w = rng.integers(0, 5, n) * 150.0
                w[int(rng.integers(n))] += 1e4 - w.sum()
                w /= 1e4
            else:
                w = np.rint(rng.dirichlet(np.ones(n)) * 1e4)
                w[np.argmax(w)] += 1e4 - w.sum()
                w /= 1e4
            ids = list(range(1, n + 1))
            t = build(dirs, par)
            w_keep = np.array(w)
            mean = t.get_weighted_mean(ids, w)
            if not np.array_equal(w, w_keep):
                chk.violation("general/weights-modified", f"{w_keep} became {w}")
            perm = rng.permutation(dim)
            sign = rng.choice([-1, 1], dim)
            shuf = rng.permutation(n)
            seq = t.reduce_weighted_to_sequence(ids, w)
            framed = build([d[perm] * sign for d in dirs], par)
            scaled = build(dirs, par, rng.choice([0.3, 1.0, 2.5], n))
            after = [t.graph.nodes[j]["direction"] for j in ids]
            same = all(np.allclose(x, y) for x, y in zip(after, dirs))
            recs.append({
                "dirs": [vf.q(d) for d in dirs], "par": par, "w": vf.q(w), "hot": hot,
                "mean": vf.q(mean),
                "shuffled": vf.q(t.get_weighted_mean([ids[s] for s in shuf],
                                                     [w[s] for s in shuf])),
                "framed": vf.q(framed.get_weighted_mean(ids, w)),
                "perm": [int(p) + 1 for p in perm], "sign": [int(s) for s in sign],
                "send": vf.q(seq.get_end_vector()),
                "sapplied": vf.q(seq.rotate(dirs[0])),
                "scaled": vf.q(scaled.get_weighted_mean(ids, w)),
                "unchanged": int(same)})
    vf.validate(chk, "general", "TreeTrace", recs)
    chk.sample({"part": "general", "record": recs[0]})


PARTS = [plane, plane_deep, general]
