"""Sharing influence among obstacles: WeightGrid (model -> code), WeightTrace."""
import types

import numpy as np

import vf


def functions():
    from nonlinear_avoidance import multi_obstacle_avoider as m
    from nonlinear_avoidance._base_multiobstacle import BaseMulitObstacle

    class Fixed:
        def __init__(self, gamma):
            self.gamma = gamma

        def get_gamma(self, position, in_global_frame=False):
            assert in_global_frame
            return self.gamma

    class Multi(BaseMulitObstacle):
        def __init__(self, gammas):
            self.all_obstacles = [Fixed(g) for g in gammas]
            self.n_elements = len(gammas)

    def outside(gammas):
        obs = Multi(gammas)
        obs._evaluate_weights(np.zeros(2))
        return obs.weights

    av = m.MultiObstacleAvoider
    return types.SimpleNamespace(
        limited=m.get_limited_weights_to_max_sum, gamma=m.compute_gamma_weights,
        dist=av.compute_weights_from_distances, occl=av.evaluate_occlusion_array,
        outside=outside, avoider=av)


def near(a, b, tol=3e-3):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))


def grid(chk):
    f = functions()
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n"
           "Grid = {0, 1000, 4000, 5000, 9000, 10000, 13000}\n"
           "Distances = {5000, 10000, 12000, 12500, 15000, 20000, 45000}\n"
           f"MaxLen = {4 if vf.THOROUGH else 3}\n"
           "INVARIANTS LimitedKeeps ClosenessKeeps OcclusionKeeps\nACTION_CONSTRAINT Emit\n")
    r = vf.run_tlc("WeightGrid", cfg)
    chk.add_tlc(r, "grid")

    def same(name, lst, got, want):
        if not near(got, np.asarray(want) / 1e4):
            chk.violation(f"grid/{name}", f"{lst} gave {got}, specification: {want}",
                          {"list": lst, "got": got, "want": want})

    with vf.quiet():
        for e in r.json:
            x = [v / 1e4 for v in e["list"]]
            arr = np.array(x)
            if e["kind"] == "w":
                out, total = f.limited(list(x))
                same("limited", x, out, e["limited"])
                same("limited-total", x, total, e["total"])
                out, total = f.limited(arr)
                same("limited-array", x, out, e["limited"])
            else:
                same("gamma-weights", x, f.gamma(arr, 1.0), e["close1"])
                same("gamma-weights-squared", x, f.gamma(arr, 1.0, 2), e["close2"])
                same("distances", x, f.dist(arr), e["close1"])
                same("distances-free", x, f.dist(arr, normalize=False), e["free"])
                same("occlusion", x, f.occl(arr - 1.25), e["occl"])
                same("outside", x, f.outside(arr), e["outside"])
            if not np.array_equal(arr, [v / 1e4 for v in e["list"]]):
                chk.violation("grid/argument-changed", f"{e['list']} became {arr}")
            chk.count("grid")
    chk.traces += len(r.json)
    chk.sample({"part": "grid", "case": r.json[50]})


def integers(chk):
    """Whole numbers are as good as floats."""
    f = functions()
    with vf.quiet():
        for name, got, want in (
                ("limited", f.limited([1, 1, 0])[0], [0.5, 0.5, 0]),
                ("limited", f.limited(np.array([1, 0]))[0], [1, 0]),
                ("occlusion", f.occl([-1, -1, -2]), [0.5, 0.5, 0]),
                ("occlusion", f.occl([1, 3]), [0.25, 0.75]),
                ("gamma-weights", f.gamma([3, 3, 5]), [0.4, 0.4, 0.2])):
            if not near(got, want):
                chk.violation(f"integers/{name}", f"{got} instead of {want}")
            chk.count("integers")


def rand_values(rng, n, special, lo, hi):
    return np.array([round(float(rng.choice(special) if rng.integers(3) == 0
                                 else rng.uniform(lo, hi)), 4) for _ in range(n)])


def calls(chk):
    f = functions()
    rng = np.random.default_rng(vf.SEED + 2)
    recs = []
    with vf.quiet():
        for _ in range(1800 if vf.THOROUGH else 900):
            n = int(rng.integers(1, 7))
            w = rand_values(rng, n, [0, 0.5, 1, 1.0], 0, rng.choice([0.3, 0.95]))
            out, total = f.limited(w)
            recs.append({"f": "limited", "in": vf.q(w), "out": vf.q(out),
                         "total": vf.q(total)})
            lo = float(rng.choice([1.0, 0.5]))
            d = lo + rand_values(rng, n, [0.5, 1, 2, 2, 8], 0.2, 9)
            if rng.integers(4) == 0:
                d[int(rng.integers(n))] = lo - 0.2
            if rng.integers(8) == 0:
                d[int(rng.integers(n))] = lo
            p = float(rng.choice([1, 2, 0.5]))
            recs.append({"f": "closeness", "in": vf.q(d), "min": vf.q(lo), "p": int(p),
                         "limit": True, "out": vf.q(f.gamma(d, lo, p))})
            lim = bool(rng.integers(2))
            recs.append({"f": "closeness", "in": vf.q(d), "min": vf.q(lo), "p": 1,
                         "limit": lim, "out": vf.q(f.dist(d, lo, normalize=lim))})
            o = rand_values(rng, n, [-0.5, -0.5, 0, 1], -1, rng.choice([-0.1, 1.0]))
            recs.append({"f": "visible", "in": vf.q(o), "out": vf.q(f.occl(o))})
            g = rand_values(rng, n, [1, 1.5], 0.6, rng.choice([1, 3.9]))
            recs.append({"f": "outside", "in": vf.q(g), "out": vf.q(f.outside(g))})
    vf.validate(chk, "calls", "WeightTrace", recs,
                key=lambda rec, c: f"{rec['f']}/{c}")
    chk.sample({"part": "calls", "record": recs[0]})


def trees(chk):
    """Influence near the singularity and among the components of one obstacle."""
    f = functions()
    rng = np.random.default_rng(vf.SEED + 3)

    class Tree:
        """An obstacle whose gammas are given."""

        def __init__(self, gammas):
            self.gammas = gammas
            self.n_components = len(gammas)

        def get_gamma(self, position, in_global_frame=False):
            assert in_global_frame
            return self.gammas[0]

        def get_component(self, k):
            return types.SimpleNamespace(
                get_reference_direction=lambda p, in_global_frame: np.array([1.0, 0]),
                get_intersection_with_surface=lambda p, d, in_global_frame:
                    np.array([float(k), 0]))

        def get_gamma_except_components(self, position, excluded, in_global_frame=True):
            assert excluded == [int(position[0])]
            return self.gammas[int(position[0])]

    recs = []
    with vf.quiet():
        for _ in range(720 if vf.THOROUGH else 360):
            has = rng.integers(6) != 0
            dyn = types.SimpleNamespace()
            if has:
                dyn.attractor_position = rng.uniform(-1, 1, 2)
            av = f.avoider(initial_dynamics=dyn, obstacle_container=[])
            g = float(rand_values(rng, 1, [1, 2], 0.5, 3)[0])
            far = float(rng.choice([2.0, 1.5, 3.0]))
            got = av.compute_tree_weight(Tree([g]), far) if far != 2 else \
                av.compute_tree_weight(Tree([g]))
            recs.append({"f": "tree", "in": vf.q(g) if has else 30000, "far": vf.q(far),
                         "out": vf.q(got)})
            gs = rand_values(rng, int(rng.integers(1, 5)), [0.5, 1, 1.3, 2, 5], 0.2,
                             rng.choice([1.0, 4.0]))
            top = rng.choice([2.0, 1.5])
            recs.append({"f": "influence", "in": vf.q(gs), "top": vf.q(top), "margin": 1000,
                         "out": vf.q(av.compute_occlusion_weights(
                             np.zeros(2), Tree(list(gs)), max_gamma=float(top)))})
    vf.validate(chk, "trees", "WeightTrace", recs, key=lambda rec, c: f"{rec['f']}/{c}")
    chk.sample({"part": "trees", "record": recs[0]})


PARTS = [grid, integers, calls, trees]
