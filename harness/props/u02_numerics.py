"""Integration step, magnitude limit and normal distribution (NumericsTrace)."""
import math

import numpy as np

import vf


def field(rng, d, n):
    return {"a": rng.integers(-15, 16, (d, n)) / 10, "b": rng.integers(-10, 11, d) / 10,
            "q": rng.integers(-8, 9, (d, n)) / 10 * (rng.random() < .7)}


def evaluate(f, x):
    x = np.asarray(x)
    return f["b"] + f["a"] @ x + f["q"] @ x**2


def on_grid(f):
    return {k: vf.q(v) for k, v in f.items()}


def steps(chk):
    from nonlinear_avoidance.gmm_learner import math_tools as mt

    rng = np.random.default_rng(vf.SEED * 11 + 1)
    recs = []
    with vf.quiet():
        while len(recs) < (2000 if vf.THOROUGH else 1000):
            d = int(rng.integers(1, 5))
            h = float(rng.choice([.1, .25, .5, .8, 1.0]))
            gain = float(rng.choice([1.0, 1.0, .5, 2.0]))
            x = rng.integers(-10, 11, d) / 10
            keep = x.copy()
            calls = []

            def limited(v):  # the specification computes with |x| <= 4
                calls.append(np.max(np.abs(v)))
                return v

            if len(recs) % 3 < 2:
                f = field(rng, d, d)
                kw = {} if gain == 1.0 else {"k_f": gain}
                out = mt.rk4(h, x, lambda p: limited(evaluate(f, limited(p))), **kw)
                rec = {"f": "rk4", "field": on_grid(f), "h": vf.q(h * gain), "x": vf.q(x),
                       "out": vf.q(out)}
            else:
                f = field(rng, d, 2 * d)
                v = rng.integers(-10, 11, d) / 10
                v0 = v.copy()
                kw = {} if gain == 1.0 else {"k_f": gain}
                out, disp = mt.rk4_pos_vel(
                    h, x, v, lambda p: limited(evaluate(f, limited(p))), **kw)
                rec = {"f": "rk4vel", "field": on_grid(f), "h": vf.q(h * gain),
                       "x": vf.q(x), "v": vf.q(v), "out": vf.q(out), "disp": vf.q(disp)}
                x, keep = np.hstack((x, v)), np.hstack((keep, v0))
            rec["kept"] = bool(np.array_equal(x, keep))
            if max(calls) < 3.0 and np.max(np.abs(out)) < 3.5:
                recs.append(rec)
    # one long run, step after step
    f = {"a": np.array([[0, 1], [-1, -.2]]), "b": np.zeros(2),
         "q": np.array([[0, 0], [.2, 0]])}
    x = np.array([1.0, .3])
    with vf.quiet():
        for _ in range(60):
            new = mt.rk4(.3, x, lambda p: evaluate(f, p))
            recs.append({"f": "rk4", "field": on_grid(f), "h": 3000, "x": vf.q(x),
                         "out": vf.q(new), "kept": True})
            x = new
    vf.validate(chk, "steps", "NumericsTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "steps", "record": recs[0]})


def magnitudes(chk):
    from nonlinear_avoidance.gmm_learner import math_tools as mt

    rng = np.random.default_rng(vf.SEED * 11 + 2)
    recs = []
    with vf.quiet():
        for k in range(480 if vf.THOROUGH else 240):
            d, n = int(rng.integers(1, 4)), int(rng.integers(0, 6))
            x = rng.uniform(-1.5, 1.5, (d, n))
            if n and k % 4 == 0:
                x[:, 0] = 0
            kw = {}
            if k % 2:
                kw["k"] = float(rng.choice([.3, 2.0]))
            if k % 3:
                kw["maxMag"] = float(rng.choice([.5, 1.7]))
            keep = x.copy()
            if k % 5 == 0:  # a single vector
                x1 = rng.uniform(-1.5, 1.5, d)
                out = [mt.mag_linear_maximum(x1, **kw)]
                x = x1[:, None]
            else:
                out = mt.mag_linear_maximum(x, **kw)
                if not np.array_equal(keep, x):
                    chk.violation("magnitudes/argument-changed", f"{keep} became {x}")
            recs.append({"f": "magnitude", "x": vf.q(x.T), "gain": vf.q(kw.get("k", 1.0)),
                         "max": vf.q(kw.get("maxMag", 1.0)), "out": vf.q(np.asarray(out))})
    vf.validate(chk, "magnitudes", "NumericsTrace", recs, key=lambda r, c: c)


def gaussian(chk):
    from nonlinear_avoidance.multivariant_gaussian import MultiVariantGaussian

    rng = np.random.default_rng(vf.SEED * 11 + 3)
    recs = []
    with vf.quiet():
        while len(recs) < (600 if vf.THOROUGH else 300):
            d = int(rng.integers(1, 4))
            B = rng.uniform(-.5, .5, (d, d))
            cov = np.round(B @ B.T + np.diag(rng.choice([.2, .5, 1.0], d)), 3)
            mean = rng.uniform(-1, 1, d)
            x = mean + rng.uniform(-.7, .7, d)
            g = (MultiVariantGaussian(mean, cov) if rng.random() < .7 else
                 MultiVariantGaussian(mean, cov, precision_cholesky=np.linalg.inv(cov)))
            u = np.linalg.solve(cov, x - mean)
            peak = ((2 * math.pi) ** d * np.linalg.det(cov)) ** -.5
            if np.max(np.abs(u)) > 4 or peak > 1.5 or peak < .05:
                continue
            recs.append({"f": "gauss", "mean": vf.q(mean), "cov": vf.q(cov), "x": vf.q(x),
                         "u": vf.q(u), "peak": vf.q(g.evaluate(mean.copy())),
                         "p": vf.q(g.evaluate(x.copy())), "dim": g.dimension,
                         "grad": vf.q(g.evaluate_derivative(x.copy()))})
    vf.validate(chk, "gaussian", "NumericsTrace", recs, key=lambda r, c: c)


PARTS = [steps, magnitudes, gaussian]
