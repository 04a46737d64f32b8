"""Dynamics which deviate from a reference, judged by DeviationTrace."""
import math

import numpy as np

import vf
from props import _scenes as sc
from props.a01_closedloop import unit
from props.d04_projection import body


def mods():
    m = sc.mods()
    from nonlinear_avoidance.dynamics import locally_rotated_linear_dynamics as lr
    from nonlinear_avoidance.dynamics import nonlinear_deviation as nd

    m.lr, m.nd = lr, nd
    return m


class Recorder:
    """Regressor which keeps what it learns and predicts what it is told to."""

    def __init__(self, rng, n, size=1.6):
        self.rng, self.n, self.size = rng, n, size
        self.X = self.y = self.out = None

    def __deepcopy__(self, memo):
        return Recorder(self.rng, self.n, self.size)

    def fit(self, X, y):
        self.X, self.y = X.copy(), y.copy()

    def predict(self, X):
        self.out = np.array([unit(self.rng, self.n) * self.rng.uniform(0, self.size)
                             for _ in range(X.shape[0])])
        self.seen = X.copy()
        return self.out.copy()


def attempt(f):
    try:
        f()
    except ValueError:
        return "refused"
    return "taken"


def local(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 211)
    recs = []
    with vf.quiet():
        while len(recs) < (16000 if vf.THOROUGH else 4000):
            d = int(rng.choice([2, 2, 3]))
            o = body(m, rng, d)
            square = rng.integers(4) == 0  # axes along which right angles are exact
            if square:
                o.pose.position = np.round(o.center_position * 8) / 8
            c = o.center_position
            attr = c + unit(rng, d) * rng.uniform(.3, 2.5)
            if square:
                attr = c + np.eye(d)[rng.integers(d)] * rng.choice([-1, 1]) * rng.integers(2, 16) / 8
            base = attr - c
            ref = unit(rng, d)
            if rng.integers(8) == 0:
                ref = base / np.linalg.norm(base)
            if ref @ base < -.9 * np.linalg.norm(base):
                continue
            if abs(ref @ base) > .99 * np.linalg.norm(base) and rng.integers(8):
                continue
            most = float(rng.uniform(.4, 2))
            kw = {}
            lo, hi = 1., 10.
            if rng.integers(2):
                lo, hi = float(rng.uniform(1, 1.6)), float(rng.uniform(2, 4))
                kw = {"min_gamma": lo, "max_gamma": hi}
            ds = m.lr.LocallyRotatedFromObtacle(o, attr, ref * most, **kw)
            for _ in range(6):
                x = c + unit(rng, d) * rng.uniform(.1, 2.5)
                if rng.integers(5) == 0:  # at right angles to the obstacle
                    e = unit(rng, d)
                    e = e - (e @ base) * base / (base @ base)
                    if np.linalg.norm(e) > .2:
                        x = attr + e / np.linalg.norm(e) * rng.uniform(.2, 2)
                if square and rng.integers(2):
                    e = np.roll(base, 1)
                    x = attr + e / np.linalg.norm(e) * rng.choice([-1, 1]) * rng.integers(2, 16) / 8
                home = attr - x
                n = np.linalg.norm(home)
                if n < .05 or n > 4.4 or home @ base < -.8 * n * np.linalg.norm(base):
                    continue
                g = float(o.get_gamma(x, in_global_frame=True))
                keep = x.copy()
                v = ds.evaluate(x)
                if not np.array_equal(keep, x):
                    chk.violation("local/argument-changed", f"{keep} became {x}")
                recs.append({"kind": "local", "home": vf.q(home), "base": vf.q(base),
                             "ref": vf.q(ref), "g": vf.q(min(g, 20)), "lo": vf.q(lo), "hi": vf.q(hi),
                             "most": vf.q(most), "v": vf.q(v)})
            recs.append({"kind": "rest", "v": vf.q(ds.evaluate(attr.copy()))})
            # at the obstacle the dynamics are what they were asked to be
            recs.append({"kind": "same", "v": vf.q(ds.evaluate(c.copy())),
                         "w": vf.q(ref * min(most, np.linalg.norm(base)))})
            # an obstacle around the attractor turns nothing
            there = m.lr.LocallyRotatedFromObtacle(o, c.copy(), ref * most)
            x = c + unit(rng, d) * rng.uniform(.1, 2)
            recs.append({"kind": "limited", "home": vf.q(c - x), "prox": vf.q(most),
                         "most": vf.q(most), "v": vf.q(there.evaluate(x))})
        recs.append({"kind": "word", "want": "refused", "word": attempt(
            lambda: m.lr.LocallyRotatedFromObtacle(o, attr, np.zeros(d)))})
    vf.validate(chk, "local", "DeviationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "local", "record": recs[0]})


def columns(basis):
    return [vf.q(basis[:, k]) for k in range(basis.shape[1])]


def flows(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 223)
    recs = []
    with vf.quiet():
        while len(recs) < (14000 if vf.THOROUGH else 3600):
            d = int(rng.choice([2, 3, 4]))
            speed = float(rng.uniform(.3, 2))
            way = unit(rng, d)
            r = Recorder(rng, d - 1, rng.choice([1.2, 2.5]))
            ds = m.nd.DeviationOfConstantFlow(way * speed, r)
            axes = columns(ds.base)
            if not np.allclose(ds.base[:, 0], way):
                chk.violation("flows/axis", f"{ds.base[:, 0]} for {way}")
            for _ in range(5):
                x = rng.uniform(-3, 3, d)
                v = ds.evaluate(x)
                if not np.array_equal(r.seen, x.reshape(1, -1)):
                    chk.violation("flows/asked", f"predicted at {r.seen} for {x}")
                recs.append({"kind": "flow", "axes": axes, "speed": vf.q(speed),
                             "dev": vf.q(r.out[0]), "free": False, "v": vf.q(v)})
                v = ds.evaluate_without_lyapunov_check(x)
                recs.append({"kind": "flow", "axes": axes, "speed": vf.q(speed),
                             "dev": vf.q(r.out[0]), "free": True, "v": vf.q(v)})
            recs.append({"kind": "same", "v": vf.q(ds.evaluate_convergence_velocity(x)),
                         "w": vf.q(way * speed)})
            recs.append({"kind": "same", "w": vf.q(way * speed),
                         "v": vf.q(ds.get_lyapunov_gradient_direction(x))})
            X = rng.uniform(-2, 2, (4, d))
            Y = np.array([unit(rng, d) * rng.uniform(.3, 2) for _ in range(4)])
            Y = Y * np.where(Y @ way < -.8 * np.linalg.norm(Y, axis=1), -1, 1)[:, None]
            ds.fit_from_velocities(X, Y)
            if not np.array_equal(r.X, X):
                chk.violation("flows/samples", f"{r.X} learned from {X}")
            for a, b in zip(Y, r.y):
                if way @ a < .999 * np.linalg.norm(a):
                    recs.append({"kind": "angles", "axes": axes, "dir": vf.q(a), "got": vf.q(b)})
            y = rng.uniform(-1, 1, (4, d - 1))
            for data, want in ((y, "taken"), (y[:3], "refused"), (Y, "refused")):
                recs.append({"kind": "word", "want": want,
                             "word": attempt(lambda: ds.fit(X, data))})
    vf.validate(chk, "flows", "DeviationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def sides(chk):
    m = mods()
    rng = np.random.default_rng(vf.SEED * 227)
    recs = []
    with vf.quiet():
        while len(recs) < (14000 if vf.THOROUGH else 3600):
            d = int(rng.choice([2, 2, 3]))
            attr = rng.uniform(-1, 1, d)
            ds = m.nd.PerpendicularDeviatoinOfLinearDS(
                attr, Recorder(rng, d - 1, rng.choice([.8, 1.5, 2.5])))
            if rng.integers(2):
                ds.prox_distance = float(rng.uniform(.3, 2))
                ds.max_velocity = float(rng.uniform(.3, 2))
            rel = rng.uniform(-2, 2, (6, d))
            if rng.integers(3) == 0:
                rel = np.abs(rel) * rng.choice([-1, 1], d)
            Y = rng.uniform(-1, 1, (6, d))
            X = attr + rel
            keep = X.copy(), Y.copy()
            ds.fit_from_velocities(X, Y)
            if not (np.array_equal(keep[0], X) and np.array_equal(keep[1], Y)):
                chk.violation("sides/samples-changed", f"{keep} became {X} {Y}")
            for dd in range(d):
                for ii, s in enumerate((-1, 1)):
                    reg = ds.regressors[dd][ii]
                    own = [k for k in range(6) if s * rel[k, dd] >= 0]
                    if not own:
                        recs.append({"kind": "rest", "v": vf.q(reg.predict(X[:1])[0])})
                        continue
                    recs.append({"kind": "learned", "xs": [vf.q(x) for x in rel], "dd": dd + 1,
                                 "side": s, "got": [vf.q(x) for x in reg.X]})
                    axes = columns(ds._null_matrices[:, :, dd, ii])
                    for k, b in zip(own, reg.y):
                        f = -s * Y[k, dd] / np.linalg.norm(Y[k])
                        if -.85 < f < .999:
                            recs.append({"kind": "angles", "axes": axes, "dir": vf.q(Y[k]),
                                         "got": vf.q(b)})
            for _ in range(6):
                p = unit(rng, d) * rng.uniform(.15, 2.5)
                if np.min(np.abs(p)) < .01:
                    continue
                v = ds.evaluate(attr + p) if rng.integers(2) else \
                    ds.evaluate_without_lyapunov_check(attr + p)
                rows = []
                for dd in range(d):
                    ii = int(p[dd] >= 0)
                    reg = ds.regressors[dd][ii]
                    dev = reg.predict(p[None])[0] if reg.__class__ is not Recorder else None \
                        if reg.out is None else reg.out[0]
                    if dev is None:
                        chk.violation("sides/asked", f"no prediction for side {ii} of {p}")
                        break
                    if reg.__class__ is Recorder and not np.allclose(reg.seen[0], p):
                        chk.violation("sides/asked", f"predicted at {reg.seen} for {p}")
                    rows.append({"axes": columns(ds._null_matrices[:, :, dd, ii]),
                                 "dev": vf.q(dev)})
                if len(rows) < d:
                    continue
                recs.append({"kind": "perp", "p": vf.q(p), "sides": rows,
                             "prox": vf.q(ds.prox_distance), "most": vf.q(ds.max_velocity),
                             "v": vf.q(v)})
                recs.append({"kind": "limited", "home": vf.q(-p), "prox": vf.q(ds.prox_distance),
                             "most": vf.q(ds.max_velocity),
                             "v": vf.q(ds.evaluate_convergence_velocity(attr + p))})
                recs.append({"kind": "same", "w": vf.q(-p / np.linalg.norm(p)),
                             "v": vf.q(ds.get_lyapunov_gradient_direction(attr + p))})
            for f in (ds.evaluate, ds.evaluate_convergence_velocity,
                      ds.get_lyapunov_gradient_direction):
                recs.append({"kind": "rest", "v": vf.q(f(attr.copy()))})
    vf.validate(chk, "sides", "DeviationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def outputs(chk):
    """Predicting several outputs is predicting each of them."""
    from sklearn.svm import SVR
    m = mods()
    rng = np.random.default_rng(vf.SEED * 229)
    recs = []
    with vf.quiet():
        for _ in range(200 if vf.THOROUGH else 60):
            n, d, k = int(rng.integers(4, 15)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
            X, Y = rng.uniform(-2, 2, (n, d)), rng.uniform(-2, 2, (n, k))
            kw = {"kernel": "rbf", "gamma": float(rng.uniform(.1, 2)), "C": float(rng.uniform(.5, 3))}
            multi = m.nd.MultiOutputSVR(**kw)
            multi.fit(X, Y)
            at = rng.uniform(-2, 2, (5, d))
            out = multi.predict(at)
            for j in range(k):
                recs.append({"kind": "same", "v": vf.q(out[:, j]),
                             "w": vf.q(SVR(**kw).fit(X, Y[:, j]).predict(at))})
            const = m.nd.ConstantRegressor(Y[0])
            for row in const.predict(at):
                recs.append({"kind": "same", "v": vf.q(row), "w": vf.q(Y[0])})
    vf.validate(chk, "outputs", "DeviationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


PARTS = [local, flows, sides, outputs]
