"""Learned motion: data, weights, field and trajectories (LearnedField)."""
import contextlib
import io
import math
import os
import tempfile
import types

import numpy as np

import vf


def learner(rng, dim, n_gauss):
    """A learner with a mixture over position, velocity and direction."""
    from vartools.dynamical_systems import LinearSystem
    from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM

    obj = DirectionalGMM(dim_space=dim)
    n = 3 * dim - 1
    cov = []
    for _ in range(n_gauss):
        B = rng.uniform(-.35, .35, (n, n))
        cov.append(np.round(B @ B.T + np.diag(rng.uniform(.15, .4, n)), 3))
    mean = np.hstack((rng.uniform(-.6, .6, (n_gauss, dim)), rng.uniform(-.4, .4, (n_gauss, dim)),
                      rng.uniform(-1.2, 1.2, (n_gauss, dim - 1))))
    prior = rng.integers(1, 9, n_gauss)
    obj.dpgmm = types.SimpleNamespace(
        means_=np.round(mean, 3), covariances_=np.array(cov), covariance_type="full",
        weights_=np.round(prior / np.sum(prior), 4))
    obj.dim_gmm = n
    obj.pos_attractor = rng.integers(-9, 10, dim) / 10
    obj.null_ds = LinearSystem(attractor_position=obj.pos_attractor)
    return obj


def described(obj, n_in, x):
    """The mixture for inputs of the first n_in features, with solutions for x."""
    d, g = obj.dim_space, obj.dpgmm
    x = np.array(x, dtype=float)
    if n_in > d:
        v = np.linalg.norm(x[d:])
        x[d:] = x[d:] / max(1.0, v)
    cov = g.covariances_[:, :n_in, :n_in]
    return {
        "prior": vf.q(g.weights_), "mean": vf.q(g.means_[:, :n_in]), "cov": vf.q(cov),
        "chol": vf.q(np.linalg.cholesky(cov)), "dim": d,
        "u": vf.q(np.array([np.linalg.solve(c, x - m[:n_in])
                            for c, m in zip(cov, g.means_)])),
        "meany": vf.q(g.means_[:, 2 * d:]), "cross": vf.q(g.covariances_[:, 2 * d:, :n_in]),
    }


def in_range(rec, top=33000):
    return np.max(np.abs(rec["u"])) < top


def snapshot(obj):
    g = obj.dpgmm
    return [g.means_.copy(), g.covariances_.copy(), g.weights_.copy(), obj.pos_attractor.copy(),
            obj.convergence_attractor]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


@contextlib.contextmanager
def silent():
    with vf.quiet(), contextlib.redirect_stdout(io.StringIO()):
        yield


def weights(chk):
    rng = np.random.default_rng(vf.SEED * 13 + 1)
    recs = []
    with silent():
        while len(recs) < (960 if vf.THOROUGH else 480):
            dim = 2 if rng.random() < .7 else 3
            obj = learner(rng, dim, int(rng.integers(1, 5)))
            n_in = dim if rng.random() < .6 else 2 * dim
            n = int(rng.integers(1, 5))
            X = rng.uniform(-.8, .8, (n, n_in))
            normalize = bool(rng.random() < .4)
            kw = {}
            factor = 4.0
            if rng.random() < .5:
                factor = float(rng.choice([1.5, 2.0, 1.0]))
                kw["weight_factor"] = factor
            crop = n_in > dim and rng.random() < .4
            if crop:  # the samples as they were recorded
                X[:, dim:] *= 2
                kw["input_needs_normalization"] = True
            feats = np.arange(n_in)
            d = [described(obj, n_in, x) for x in X]  # (velocities below one)
            if not all(in_range(k) for k in d) or n_in > dim and not crop and np.any(
                    np.linalg.norm(X[:, dim:], axis=1) > 1):
                continue
            keep = X.copy()
            out = obj.get_mixing_weights(X.copy(), feat_in=feats,
                                         feat_out=np.arange(2 * dim, 3 * dim - 1),
                                         normalize_probability=normalize, **kw)
            for k in range(n):
                recs.append({"f": "weights", **d[k], "x": vf.q(keep[k]), "normalize": normalize,
                             "factor": vf.q(math.log(factor)), "out": vf.q(out[:, k])})
            speed = np.linalg.norm(X[:, dim:], axis=1)[:, None]
            X[:, dim:] = X[:, dim:] / np.maximum(speed, 1.0)
            mu = obj.get_mean_yx(X.copy(), feat_in=feats, feat_out=np.arange(2 * dim, 3 * dim - 1))
            for k in range(n):
                recs.append({"f": "conditional", **d[k], "x": vf.q(X[k]),
                             "out": vf.q(mu[:, k, :].T)})
            cov = obj.get_covariance_out(feat_in=feats, feat_out=np.arange(2 * dim, 3 * dim - 1))
            g = int(rng.integers(obj.n_components))
            full = obj.dpgmm.covariances_[g]
            recs.append({"f": "covariance", "cov": vf.q(full[:n_in, :n_in]),
                         "cross": vf.q(full[2 * dim:, :n_in]), "covy": vf.q(full[2 * dim:, 2 * dim:]),
                         "sol": vf.q(np.linalg.solve(full[:n_in, :n_in], full[2 * dim:, :n_in].T).T),
                         "out": vf.q(cov[:, :, g])})
    vf.validate(chk, "weights", "LearnedField", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "weights", "record": recs[0]})


def basis(vector):
    from vartools.linalg import get_orthogonal_basis
    return vf.q(get_orthogonal_basis(vector).T)


def field(chk):
    """The direction of a sample, alone and among others."""
    rng = np.random.default_rng(vf.SEED * 13 + 2)
    recs = []
    with silent():
        while len(recs) < (1680 if vf.THOROUGH else 840):
            dim = 2 if rng.random() < .65 else 3
            obj = learner(rng, dim, int(rng.integers(1, 5)))
            n_in = dim if rng.random() < .6 else 2 * dim
            n = int(rng.integers(1, 6))
            X = rng.uniform(-1.0, 1.0, (n, n_in))
            if n_in > dim:
                X[:, dim:] *= rng.choice([.5, 2.0], (n, 1))
            if n > 1 and rng.random() < .3:
                X[-1] = X[0]
            if rng.random() < .2:
                X[0, :dim] = obj.pos_attractor + rng.choice([0.0, .01], 1) * (n_in > dim)
            d = [described(obj, n_in, x) for x in X]
            if not all(in_range(k) for k in d):
                continue
            before = snapshot(obj)
            kw, converge = {}, False
            how = int(rng.integers(4))
            if how == 1:
                kw, converge = {"convergence_attractor": True}, True
            elif how == 2:
                obj.convergence_attractor = converge = True
                before = snapshot(obj)
            elif how == 3:
                obj.convergence_attractor = True
                before = snapshot(obj)
                kw = {"convergence_attractor": False}
            keep = X.copy()
            angles = obj.regress_gmm(X, **kw)
            kept = bool(np.array_equal(keep, X)) and same(before, snapshot(obj))
            attractor = obj.pos_attractor if n_in == dim else np.hstack(
                (obj.pos_attractor, np.zeros(dim)))
            common = [{**d[k], "x": vf.q(X[k]), "converge": converge,
                       "attractor": vf.q(attractor)} for k in range(n)]
            for k in range(n):
                recs.append({"f": "angle", **common[k], "out": vf.q(angles[k]), "kept": kept})
            single = int(rng.integers(n))
            null = [obj.null_ds.evaluate(x[:dim]) for x in X]
            if np.linalg.norm(null[single]) > .05:
                out = obj.predict(X[single], **kw)
                recs.append({"f": "predict", **common[single], "base": basis(null[single]),
                             "out": vf.q(out), "kept": same(before, snapshot(obj))})
                if not kw:
                    out = obj.evaluate(X[single])
                    recs.append({"f": "predict", **common[single], "out": vf.q(out),
                                 "base": basis(null[single]), "kept": True})
            if min(np.linalg.norm(v) for v in null) > .05:
                out = obj.predict_array(X.T, **kw)
                for k in range(n):
                    recs.append({"f": "predict", **common[k], "base": basis(null[k]),
                                 "out": vf.q(out[:, k]),
                                 "kept": same(before, snapshot(obj))})
            # far from everything which was learned
            far = np.zeros(n_in)
            far[:dim] = rng.choice([-1, 1], dim) * rng.uniform(90, 400)
            out = obj.predict(far)
            recs.append({"f": "fade", "out": vf.q(out),
                         "base": basis(obj.null_ds.evaluate(far[:dim]))})
            rest = obj.predict(np.hstack((obj.pos_attractor, np.zeros(n_in - dim))))
            if np.any(rest):
                chk.violation("field/at-attractor", f"velocity {rest} at the attractor")
    vf.validate(chk, "field", "LearnedField", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "field", "record": recs[0]})


def demonstrations(rng, n_sets, path, origin):
    """Curves which end about a common point, as a recorded data set."""
    from scipy import io as sio

    data = np.empty((1, n_sets), dtype=object)
    end = rng.uniform(-.6, .6, 2)
    for k in range(n_sets):
        n = int(rng.integers(14, 30))
        t = np.linspace(0, 1, n)
        start = end + rng.uniform(-1, 1, 2) * 1.2 + [-.9, .6]
        bend = rng.uniform(-.8, .8, 2)
        stop = end + rng.uniform(-.08, .08, 2)
        pos = (np.outer(start, 1 - t) + np.outer(stop, t) + np.outer(bend, t * (1 - t)))
        vel = (stop - start)[:, None] + np.outer(bend, 1 - 2 * t)
        vel = vel * rng.uniform(.3, .9)
        data[0, k] = np.vstack((pos, vel))
    sio.savemat(path, {"data": data})
    return data


def data(chk):
    """Demonstrations are learned as they were recorded."""
    from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM
    from nonlinear_avoidance.gmm_learner.learner.gpr_directional import DirectionalGPR
    from nonlinear_avoidance.gmm_learner.learner.svr_directional import DirectionalSVR

    rng = np.random.default_rng(vf.SEED * 13 + 3)
    recs = []
    with silent(), tempfile.TemporaryDirectory() as scratch:
        for k in range(24 if vf.THOROUGH else 8):
            path = os.path.join(scratch, f"set{k}.mat")
            sets = demonstrations(rng, int(rng.integers(1, 5)), path, None)
            if k == 0:
                path = os.path.join(vf.REPO, "dataset", "2D_Ashape.mat")
            chosen = rng.uniform(-.6, .6, 2) if k % 3 == 2 else None
            pos = vel = None
            for kind in (DirectionalGMM, DirectionalGPR, DirectionalSVR):
                if k == 0 and kind is not DirectionalGMM:
                    continue
                kw = {"attractor": chosen.copy()} if (
                    chosen is not None and kind is not DirectionalGPR) else {}
                if rng.random() < .5:
                    obj = kind()
                    obj.load_data_from_mat(file_name=path, **kw)
                else:
                    folder, name = os.path.split(path)
                    obj = kind(directory_name=folder, file_name=name)
                    obj.load_data_from_mat(**kw)
                from scipy import io as sio
                loaded = sio.loadmat(path)["data"][0]
                ends = [s[:2, -1] for s in loaded]
                if obj.pos_attractor is None:
                    chk.violation(f"data/{kind.__name__}/attractor", "no attractor is known")
                    continue
                recs.append({"f": "target", "out": vf.q(obj.pos_attractor),
                             "ends": vf.q(np.array([kw["attractor"]] if kw else ends))})
                pos = np.hstack([s[:2] for s in loaded]).T
                vel = np.hstack([s[2:4] for s in loaded]).T
                target = obj.pos_attractor
                if kind is DirectionalGMM:
                    speed = float(np.mean(np.linalg.norm(vel, axis=1)))
                    rows = obj.X
                else:
                    if len(obj.X) != len(pos) or not np.allclose(obj.X, pos):
                        chk.violation(f"data/{kind.__name__}/positions",
                                      "the learned positions are not the recorded ones")
                        continue
                    speed = None
                    rows = np.hstack((pos, vel, np.reshape(obj.y, (-1, 1))))
                if len(rows) != len(pos):
                    chk.violation("data/samples", f"{len(rows)} of {len(pos)} samples learned")
                    continue
                pick = rng.choice(len(pos), min(len(pos), 60), replace=False)
                for j in pick:
                    null = target - pos[j]
                    if np.linalg.norm(null) < .02 or np.max(np.abs(pos[j])) > 20:
                        continue
                    unit = np.linalg.norm(vel[j]) if speed is None else speed
                    top = max(float(np.max(np.linalg.norm(vel, axis=1))), 1e-9)
                    factor = min(1.0, 2.0 / top)  # (numbers of the specification)
                    rec = {"f": "data", "p": vf.q(pos[j]), "v": vf.q(vel[j] * factor),
                           "speed": vf.q(speed * factor) if speed is not None else 0,
                           "row": vf.q(rows[j]), "base": basis(null)}
                    if speed is None:
                        n = np.linalg.norm(vel[j])
                        rec["row"] = vf.q(np.hstack((pos[j], vel[j] / max(n, 1e-12),
                                                     rows[j, 4:])))
                    recs.append(rec)
                if kind is DirectionalGMM:
                    continue
                # what the regression says is what the field does
                obj.fit()
                told = [s[:2, 0] for s in loaded]
                runs = obj.integrate_trajectory(n_steps=2, n_trajectories=len(told)) \
                    if len(told) != 3 else obj.integrate_trajectory(n_steps=2)
                for j, start in enumerate(told):
                    recs.append({"f": "target", "out": vf.q(runs[:, 0, j]),
                                 "ends": vf.q(np.array([start]))})
                model = getattr(obj, "_gpr" if kind is DirectionalGPR else "_svr", None)
                if model is None:
                    continue
                where = rng.uniform(-1.2, 1.2, (12, 2))
                said = np.reshape(model.predict(where), (-1, 1))
                whole = obj.predict_array(where.T)
                for j, w in enumerate(where):
                    if np.linalg.norm(target - w) < .05 or abs(said[j, 0]) > 3.1:
                        continue
                    for out in (obj.predict(w), whole[:, j]):
                        recs.append({"f": "decode", "angle": vf.q(said[j]),
                                     "base": basis(target - w), "out": vf.q(out)})
    vf.validate(chk, "data", "LearnedField", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "data", "record": recs[0]})


def paths(chk):
    """Trajectories follow the field until they rest at its attractor."""
    from vartools.dynamical_systems import LinearSystem
    from nonlinear_avoidance.gmm_learner import math_tools
    from nonlinear_avoidance.gmm_learner.learner.base import Learner

    rng = np.random.default_rng(vf.SEED * 13 + 4)
    recs = []

    class Turning(Learner):
        """A field which is turned about the null dynamics by a constant angle."""

        def __init__(self, angle, attractor):
            super().__init__(null_ds=LinearSystem(attractor_position=attractor))
            self.dim = self.dim_space = 2
            self.angle = angle

        def fit(self):
            pass

        def _predict(self, xx):
            return np.full((len(xx), 1), self.angle)

    with silent():
        for k in range(40 if vf.THOROUGH else 14):
            attractor = rng.uniform(-1, 1, 2)
            obj = Turning(float(rng.uniform(-.9, .9)), attractor)
            starts = attractor[:, None] + rng.uniform(-.8, .8, (2, 2))
            dt, margin, n = .05, float(rng.choice([.06, .12])), 40
            out = obj.integrate_trajectory(n_steps=n, delta_t=dt, convergence_margin=margin,
                                           starting_points=starts.copy())
            for j in range(2):
                pts = out[:, :, j].T
                exp = [pts[0]] + [math_tools.rk4(dt, p, obj.predict) for p in pts[:-1]]
                recs.append({"f": "path", "first": 2, "points": vf.q(pts), "expected": vf.q(np.array(exp)),
                             "margin": vf.q(margin), "attractor": vf.q(attractor),
                             "start": vf.q(starts[:, j])})
        for k in range(16 if vf.THOROUGH else 6):
            obj = learner(rng, 2, 3)
            velocity = bool(k % 2)
            starts = obj.pos_attractor[:, None] + rng.uniform(-.9, .9, (2, 2))
            dt, margin, n = .05, .1, 30
            out = obj.integrate_trajectory(num_steps=n, delta_t=dt, convergence_err=margin,
                                           starting_points=starts.copy(),
                                           velocity_based=velocity)
            for j in range(2):
                pts = out[:, :, j].T
                exp = [pts[0]]
                v = None
                for p in pts[:-1]:
                    v = obj.predict(np.hstack((p, v)) if velocity and v is not None else p)
                    exp.append(p + dt * v)
                recs.append({"f": "path", "first": 3, "points": vf.q(pts), "expected": vf.q(np.array(exp)),
                             "margin": vf.q(margin), "attractor": vf.q(obj.pos_attractor),
                             "start": vf.q(starts[:, j])})
    vf.validate(chk, "paths", "LearnedField", recs, key=lambda r, c: c)


PARTS = [weights, field, data, paths]
