"""Learned motions: regions around clusters, judged by Regions / RegionTrace."""
import math

import numpy as np

import vf
from props.a01_closedloop import unit


def mods():
    class m:
        pass

    from sklearn.cluster import KMeans
    from vartools.handwritting_handler import MotionDataHandler
    from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner
    from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle
    from nonlinear_avoidance.kmeans_learner import kmeans_motion_learner as km

    m.KMeans, m.Data, m.Learner, m.Region, m.km = KMeans, MotionDataHandler, KMeansMotionLearner, KMeansObstacle, km
    return m


def grid(chk):
    at = "<<{}, {}>>".format
    if vf.THOROUGH:
        places = "{<<x * 2600, y * 2600>> : x, y \\in -6..6}"
        centres, radii = [(-10000, 0), (0, 0), (9000, 3000), (4000, 12000), (-6000, -9000)], "{7000, 9000, 15000}"
    else:
        places = "{<<x * 5200, y * 5200>> : x, y \\in -3..3}"
        centres, radii = [(-10000, 0), (0, 0), (9000, 3000), (4000, 12000)], "{7000, 15000}"
    mc = "\n".join(["---- MODULE MCRegionGrid ----", "EXTENDS RegionGrid",
                    "CGrid == {" + ", ".join(at(*c) for c in centres) + "}",
                    "CPlaces == " + places, "CRadii == " + radii, "===="])
    r = vf.run_tlc("MCRegionGrid", "SPECIFICATION Spec\nCONSTANTS Grid <- CGrid\nPlaces <- CPlaces\n"
                   "Radii <- CRadii\nINVARIANTS Nearest Covered Shared OneExit Levels Inward\n",
                   files={"MCRegionGrid.tla": mc}, workers=4)
    chk.add_tlc(r, "grid")


def curve(m, rng, n=40):
    """A smooth recorded motion."""
    h, k = rng.uniform(-3, 3), rng.uniform(-.08, .08)
    a, ph = rng.uniform(0, .1), rng.uniform(0, 6)
    p = [np.zeros(2)]
    for i in range(n - 1):
        h += k + a * math.sin(ph + i * .25)
        p.append(p[-1] + .105 * np.array([math.cos(h), math.sin(h)]))
    p = np.array(p)
    p = p - p.mean(0)
    data = m.Data(position=p)
    data.velocity = np.vstack((p[1:] - p[:-1], [[0, 0]]))
    data.attractor = p[-1].copy()
    data.sequence_value = np.linspace(0, 1, n)
    return data


def clusters(m, centres):
    k = m.KMeans(n_clusters=len(centres), init=centres, n_init=1, max_iter=1)
    k.fit(centres)
    k.cluster_centers_ = np.array(centres)
    return k


def spread(rng, n, d, at=1.3, least=.35):
    out = []
    while len(out) < n:
        x = rng.uniform(-at, at, d)
        if all(np.linalg.norm(x - y) > least for y in out):
            out.append(x)
    return np.array(out)


def shapes(chk):
    """Surface, level and normal of single regions."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 601)
    recs = []
    with vf.quiet():
        while len(recs) < (12000 if vf.THOROUGH else 2400):
            d = int(rng.choice([2, 2, 3]))
            n = int(rng.integers(2, 6))
            c = spread(rng, n, d)
            k = int(rng.integers(n))
            rad = float(rng.uniform(.4, 1.4))
            if any(abs(np.linalg.norm(x - c[k]) - 2 * rad) < .01 for x in c):
                continue
            o = m.Region(clusters(m, c), radius=rad, index=k)
            near = [j for j in range(n) if j != k and np.linalg.norm(c[j] - c[k]) < 2 * rad]
            for j in near:
                got = o.get_inbetween_position(j)
                recs.append({"kind": "far", "v": vf.q(got), "want": vf.q((c[j] + c[k]) / 2)})
            whole = not np.any(o.center_position - c[k]) and not np.any(o.reference_point - c[k]) \
                and o.dimension == d and o.n_clusters == n and o.num_relevant == len(near) \
                and sorted(o.ind_relevant) == near
            recs.append({"kind": "word", "word": "same" if whole else "other", "want": "same"})
            for case in ("centre", *["any"] * 10):
                if case == "centre":
                    p, far = c[k].copy(), 0.
                else:
                    far = float(rng.uniform(.3, 2.2)) * rad
                    p = c[k] + far * unit(rng, d)
                    if rng.integers(4) == 0:  # toward or between the walls
                        j = near[rng.integers(len(near))] if near else k
                        p = c[k] + unit(rng, d) * .2 * rad + rng.uniform(.2, 1) * (c[j] - c[k])
                    if rng.integers(5) == 0:
                        p = o.get_point_on_surface(p, in_global_frame=True)
                if case == "any" and np.linalg.norm(p - c[k]) < .1 * rad:
                    continue
                t = int(rng.choice([-1] + near))
                o.successor_index = [] if t < 0 else [t]
                x = p.copy()
                rel = p - c[k]
                y = rel.copy()
                surf = o.get_point_on_surface(x, in_global_frame=True)
                g = o.get_gamma(x, in_global_frame=True, ind_transparent=-1)
                gt = o.get_gamma(x, in_global_frame=True, ind_transparent=t)
                nrm = o.get_normal_direction(x, in_global_frame=True)
                ref = o.get_reference_direction(x, in_global_frame=True)
                twin = (o.get_point_on_surface(y) + c[k], o.get_gamma(y, ind_transparent=-1),
                        o.get_gamma(y, ind_transparent=t), o.get_normal_direction(y),
                        o.get_reference_direction(y))
                if not (np.array_equal(x, p) and np.array_equal(y, rel)):
                    chk.violation("shapes/argument-changed", f"{p} {x} {rel} {y}", {"centres": vf.q(c)})
                if case == "centre":
                    good = g > 1e10 and gt > 1e10 and abs(np.linalg.norm(nrm) - 1) < 1e-9 \
                        and o.is_inside(x, in_global_frame=True) and o.is_inside(y)
                    recs.append({"kind": "word", "word": "inside" if good else "outside", "want": "inside"})
                    recs.append({"kind": "far", "v": vf.q(surf), "want": vf.q(twin[0])})
                    continue
                same = all(np.allclose(a, b, rtol=1e-6, atol=1e-8) for a, b in
                           zip((surf, g, gt, nrm, ref), twin)) \
                    and np.allclose(o.get_gamma(x, in_global_frame=True), gt) \
                    and np.allclose(ref * np.linalg.norm(rel), -rel) \
                    and o.is_inside(x, in_global_frame=True) == o.is_inside(y) == (g > 1)
                recs.append({"kind": "word", "word": "same" if same else "other", "want": "same"})
                u = rel / np.linalg.norm(rel)
                turn = [(c[j] - c[k]) / np.linalg.norm(c[j] - c[k]) @ u for j in near]
                recs.append({"kind": "point", "c": vf.q(c), "k": k + 1, "rad": vf.q(rad), "p": vf.q(p),
                             "dir": vf.q(u), "surf": vf.q(surf), "g": vf.q(g), "t": t + 1,
                             "gt": vf.q(gt),
                             "n": vf.q(nrm) if min(turn, default=1) > -.8 else []})
            if d == 2:
                pts = o.evaluate_surface_points(n_points=40).T
                for x in pts[:: 8]:
                    g = o.get_gamma(x, in_global_frame=True, ind_transparent=-1)
                    recs.append({"kind": "far", "v": [vf.q(g)], "want": [vf.q(1.)]})
                turn = np.unwrap([math.atan2(*(x - c[k])[::-1]) for x in pts])
                recs.append({"kind": "far", "v": [vf.q(turn[-1] - turn[0])], "want": [vf.q(2 * math.pi)]})
    vf.validate(chk, "shapes", "RegionTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "shapes", "record": next(r for r in recs if r["kind"] == "point")})


def hits(c, k, up, rad, u):
    """The ray meets the wall to the neighbour before the others, up to rounding."""
    far = {}
    for j in range(len(c)):
        d = c[j] - c[k]
        n = np.linalg.norm(d)
        if j != k and n < 2 * rad and d @ u > 0:
            far[j] = n * n / 2 / (d @ u)
    return bool(up in far and far[up] <= min(min(far.values()), rad) * (1 + 3e-5))


def fit_record(L, factor):
    c = L.kmeans.cluster_centers_
    order = sorted(range(len(c)), key=lambda k: L._graph.nodes[k]["level"])
    return {"kind": "fit", "pts": vf.q(L.data.position), "c": vf.q(c),
            "labels": [int(x) + 1 for x in L.kmeans.labels_],
            "seq": [int(round(1000 * x)) for x in L.data.sequence_value],
            "goal": vf.q(L.data.attractor), "factor": vf.q(factor),
            "order": [int(k) + 1 for k in order],
            "level": [int(L._graph.nodes[k]["level"]) for k in range(len(c))],
            "succ": [[int(j) + 1 for j in L.get_successors(k)] for k in range(len(c))],
            "away": vf.q(L.distances_parent), "rad": vf.q(L.region_radius_),
            "next": vf.q(L.compute_distances_to_neighbours())}


def learned(m, rng, **kw):
    data = curve(m, rng)
    np.random.seed(int(rng.integers(1 << 30)))
    return m.Learner(data, n_clusters=kw.get("n") or int(rng.integers(3, 7)),
                     radius_factor=kw.get("factor", .7))


def fits(chk):
    """Chains of regions, removal of sparse ones, local directions."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 607)
    recs = []
    with vf.quiet():
        for case in range(300 if vf.THOROUGH else 40):
            factor = float(rng.choice([.7, .7, .6, .9]))
            if case % 4 == 3:
                data = curve(m, rng)
                n = int(rng.integers(3, 6))
                at = data.position[np.linspace(4, 36, n).astype(int)]
                L = m.Learner.from_centers(at.T.copy(), data)
                factor = .7
                x = 100 * unit(rng, 2)
                recs.append({"kind": "far", "v": vf.q(unit_of(L.predict(x))), "want": vf.q(unit_of(data.attractor - x))})
            else:
                L = learned(m, rng, factor=factor)
            recs.append(fit_record(L, factor))
            c = L.kmeans.cluster_centers_
            for k, o in enumerate(L.region_obstacles):
                ok = o.radius == L.region_radius_ and list(o.successor_index) == L.get_successors(k) \
                    and o.is_boundary and np.array_equal(o.center_position, c[k])
                recs.append({"kind": "word", "word": "same" if ok else "other", "want": "same"})
                if not L.get_successors(k):
                    recs.append({"kind": "far", "v": vf.q(L._dynamics[k].attractor_position),
                                 "want": vf.q(L.data.attractor)})
                    continue
                up = L.get_successors(k)[0]
                own = L.data.velocity[L.kmeans.labels_ == k].mean(0)
                tries = [(own, L._dynamics[k].reference_velocity)]
                for _ in range(4):
                    d = unit(rng, 2) * float(rng.uniform(.2, 2))
                    tries.append((d, L._enforces_direction_is_towards_parent(k, d.copy())))
                for d, got in tries:
                    d = d / np.linalg.norm(d)
                    t = (c[up] - c[k]) / np.linalg.norm(c[up] - c[k])
                    if d @ t < -.98:
                        continue
                    recs.append({"kind": "aim", "hits": hits(c, k, up, L.region_radius_, got), "c": vf.q(c), "k": k + 1, "up": int(up) + 1,
                                 "rad": vf.q(L.region_radius_), "dir": vf.q(d), "got": vf.q(got)})
            # sparse clusters
            data = curve(m, rng)
            pos = np.vstack((data.position, data.position[-1] + rng.uniform(.4, 1.5, (3, 2))))
            data.position = pos
            data.sequence_value = np.linspace(0, 1, len(pos))
            n = int(rng.integers(4, 8))
            at = spread(rng, n, 2, at=2.4, least=.2)
            if rng.integers(2):
                at[0] = pos[-1]
            L = m.Learner(n_clusters=n)
            L.data = data
            L.kmeans = clusters(m, at)
            L.kmeans.labels_ = L.kmeans.predict(pos)
            least = .2 * len(pos) / n
            L._fit_remove_sparse_clusters()
            gaps = np.diff(np.sort(np.linalg.norm(at[:, None] - pos, axis=2), axis=0)[:2], axis=0)
            if gaps.min() < 2e-3:  # undecided
                continue
            recs.append({"kind": "clean", "pts": vf.q(pos / 2), "before": vf.q(at / 2),
                         "after": vf.q(L.kmeans.cluster_centers_ / 2), "least": int(1000 * least),
                         "labels": [int(x) + 1 for x in L.kmeans.labels_]})
            same = L.n_clusters == len(L.kmeans.cluster_centers_) == L.get_number_of_features()
            recs.append({"kind": "word", "word": "same" if same else "other", "want": "same"})
    vf.validate(chk, "fits", "RegionTrace", recs, key=lambda r, c: f"{r['kind']}/{c}", chunk=60)


def unit_of(v):
    return v / np.linalg.norm(v)


def level(L, x):
    return int(L._graph.nodes[int(L.kmeans.predict(x.reshape(1, -1))[0])]["level"])


def union(L, x):
    return max(o.get_gamma(x, in_global_frame=True, ind_transparent=-1) for o in L.region_obstacles)


def shares(chk):
    """Weights of the neighbouring regions at the passages."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 613)
    recs = []
    with vf.quiet():
        for case in range(120 if vf.THOROUGH else 16):
            L = learned(m, rng)
            c = L.kmeans.cluster_centers_
            for _ in range(40):
                k = int(rng.integers(len(c)))
                pre = L.get_predecessors(k)
                x = c[k] + unit(rng, 2) * float(rng.uniform(.05, 1)) * L.region_radius_
                if pre and rng.integers(3):
                    a = c[pre[0]] - c[k]
                    side = np.array([-a[1], a[0]]) / np.linalg.norm(a)
                    x = c[k] + rng.uniform(.1, .5) * a + side * rng.uniform(-.3, .3) * L.region_radius_
                if int(L.kmeans.predict(x.reshape(1, -1))[0]) != k:
                    continue
                part, cut = (float(rng.uniform(.3, .9)), float(rng.uniform(1., 3))) if rng.integers(2) else (.5, 2.)
                g = L.region_obstacles[k].get_gamma(x, in_global_frame=True, ind_transparent=pre[0] if pre else -1)
                label = k if rng.integers(2) else None
                w = L._predict_sequence_weights(x, label, part, cut) if part != .5 else \
                    L._predict_sequence_weights(x, label)
                recs.append({"kind": "share", "c": vf.q(c), "k": k + 1, "a": int(pre[0]) + 1 if pre else 0,
                             "p": vf.q(x), "g": vf.q(min(g, 1e5)), "w": vf.q(w), "part": vf.q(part),
                             "cut": vf.q(cut)})
                # the lyapunov direction is a unit vector, for one region its own
                y = L._predict_lyaponuv_gradient_direction(x)
                one = [j for j in range(len(c)) if w[j] > 1 - 1e-12] if part == .5 else []
                want = L._dynamics[one[0]].get_lyapunov_gradient_direction(x) if one else y
                recs.append({"kind": "far", "v": vf.q([*y, np.linalg.norm(y)]),
                             "want": vf.q([*want, 1.])})
                if part == .5 and w.max() < 1 - 1e-9:
                    z = L.predict_averaged_lyapunov(x)
                    recs.append({"kind": "far", "v": vf.q(z), "want": vf.q(y)})
    vf.validate(chk, "shares", "RegionTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def travel(L, x, step, most):
    goal = L.data.attractor
    low, levels, inside = 10., [level(L, x)], union(L, x) > 1.02
    for _ in range(most):
        if np.linalg.norm(x - goal) < .05:
            break
        v = L.predict(x)
        n = np.linalg.norm(v)
        if not n > 1e-6:
            break
        x = x + step * v / n
        low = min(low, union(L, x))
        if level(L, x) != levels[-1]:
            levels.append(level(L, x))
    return x, low, levels, inside


def runs(chk):
    """Followed motions: into and along the regions to the attractor."""
    m = mods()
    rng = np.random.default_rng(vf.SEED * 617)
    recs = []
    with vf.quiet():
        for case in range(60 if vf.THOROUGH else 8):
            L = learned(m, rng)
            c, goal = L.kmeans.cluster_centers_, L.data.attractor
            for t in range(5):
                k = int(rng.integers(len(c)))
                x = c[k] + rng.normal(size=2) * .5 * L.region_radius_
                if t == 4:
                    x = rng.uniform(-3, 3, 2)
                if abs(union(L, x) - 1) < .02:
                    continue
                start = x.copy()
                x, low, levels, inside = travel(L, x, .015, 3000)
                recs.append({"kind": "run", "levels": levels, "low": vf.q(min(low, 100)), "inside": bool(inside),
                             "missed": vf.q(np.linalg.norm(x - goal)), "start": vf.q(start),
                             "c": vf.q(c)})
            for k, o in enumerate(L.region_obstacles):
                up = L.get_successors(k)
                tries = [unit(rng, 2) for _ in range(6)] + [c[j] - c[k] for j in up]
                for u in tries:
                    x = o.get_point_on_surface(c[k] + u, in_global_frame=True)
                    x = c[k] + (x - c[k]) * .9995
                    if int(L.kmeans.predict(x.reshape(1, -1))[0]) != k:
                        continue
                    past = o._get_normal_distances(x, is_boundary=False)
                    on = [int(j) + 1 for j in o.ind_relevant if abs(past[j]) < .02]
                    n = o.get_normal_direction(x, in_global_frame=True)
                    recs.append({"kind": "wall", "v": vf.q(unit_of(L.predict(x))), "n": vf.q(n), "on": on,
                                 "up": [int(j) + 1 for j in up],
                                 "middle": bool(up and u is tries[-1] and len(on) == 1)})
            for _ in range(20):  # at the surface of the closest region straight toward it
                k, u = int(rng.integers(len(c))), unit(rng, 2)
                R = L.region_radius_
                x = c[k] + u * R * (1 + 1e-7)
                d = np.linalg.norm(c - x, axis=1)
                plain = L.outside_dynamics.evaluate(x)
                if np.argmin(d) == k and np.sort(d)[1] > 1.2 * R and plain @ u < 0:
                    recs.append({"kind": "pull", "v": vf.q(unit_of(L.predict(x))), "want": vf.q(-u)})
            # far away the plain motion to the attractor
            x = goal + unit(rng, 2) * float(rng.uniform(6, 30)) * L.region_radius_
            if np.linalg.norm(c - x, axis=1).min() > 4.05 * L.region_radius_:
                v = L.evaluate(x) if rng.integers(2) else L.predict(list(x))
                recs.append({"kind": "far", "v": vf.q([*unit_of(v), max(np.linalg.norm(v), 1)]),
                             "want": vf.q([*unit_of(goal - x), 1])})
    vf.validate(chk, "runs", "RegionTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "runs", "runs": sum(r["kind"] == "run" for r in recs)})


PARTS = [grid, shapes, fits, shares, runs]
