"""Rotations between two directions: RotationTicks (lock-step) and RotationTrace."""
import copy
import math

import numpy as np

import vf


def tick(k, n, length=1.0):
    a = 2 * math.pi * k / n
    return length * np.array([math.cos(a), math.sin(a)])


def to_tick(v, n, length=None):
    v = np.asarray(v, float)
    r = math.hypot(*v)
    if length is not None and abs(r - length) > 1e-7:
        return f"length {r} instead of {length}"
    if r < 1e-9:
        return "zero vector"
    x = math.atan2(v[1], v[0]) * n / (2 * math.pi)
    k = round(x)
    return k % n if abs(x - k) < 1e-6 else f"angle off grid: {x}"


def plane(chk):
    from nonlinear_avoidance.vector_rotation import VectorRotationXd

    n = 24 if vf.THOROUGH else 12
    others = [(0, 1), (2, 11), (7, 4)]
    mc = ("---- MODULE MCRotationTicks ----\nEXTENDS RotationTicks\nOthersDef == {%s}\n====\n"
          % ", ".join("<<%d, %d>>" % o for o in others))
    cfg = (f"SPECIFICATION Spec\nCONSTANTS N = {n}\nCONSTANT Others <- OthersDef\nVIEW View\n"
           "INVARIANT Shortest\nPROPERTIES Reaches Undo\nACTION_CONSTRAINT Emit\n")
    r = vf.run_tlc("MCRotationTicks", cfg, files={"MCRotationTicks.tla": mc})
    chk.add_tlc(r, "plane")
    length = 2.5

    def make(_):
        return {"v": tick(1, n, length), "rot": None}

    def apply(w, a):
        op = a["op"]
        if op == "make":
            w["rot"] = VectorRotationXd.from_directions(
                tick(a["a"], n, 0.3 + a["b"]), tick(a["b"], n, 1.7 + a["a"]))
        elif op == "inv":
            w["rot"] = w["rot"].inv()
        elif op == "rotate":
            if a["num"] == 2:
                w["v"] = w["rot"].rotate(w["v"])
            else:
                w["v"] = w["rot"].rotate(w["v"], a["num"] / 2)
        elif op == "inverse_rotate":
            w["v"] = w["rot"].inverse_rotate(w["v"])
        elif op == "turn":
            other = VectorRotationXd.from_directions(tick(a["a"], n), tick(a["b"], n))
            if a["num"] == 2:
                w["rot"] = other.rotate_vector_rotation(w["rot"])
            else:
                w["rot"] = other.rotate_vector_rotation(w["rot"], a["num"] / 2)
        return "ok"

    def project(w):
        rot = w["rot"]
        if rot is None:
            d = {"start": -1, "delta": 0}
            second = -1
        else:
            start = to_tick(rot.get_first_vector(), n, 1.0)
            second = to_tick(rot.get_second_vector(), n, 1.0)
            if not (isinstance(start, int) and isinstance(second, int)):
                return {"start": start, "second": second}
            # sign and amount of the turn, from what it does to a vector
            quarter = rot.rotate(rot.get_first_vector(), 0.25)
            x = (math.atan2(quarter[1], quarter[0]) - 2 * math.pi * start / n)
            x = (x + math.pi) % (2 * math.pi) - math.pi
            x = x * 4 * n / (2 * math.pi)
            delta = round(x)
            if abs(x - delta) > 1e-5:
                return {"quarter turn off grid": x}
            d = {"start": start, "delta": delta}
            if rot.dimension != 2:
                return {"dimension": rot.dimension}
        return {"v": to_tick(w["v"], n, length), "rot": d, "second": second}

    init = {"v": 1, "rot": {"start": -1, "delta": 0}, "second": -1}
    vf.lockstep(chk, "plane", r.json, init, make, apply, project, walks=40, walk_depth=25)
    chk.sample({"part": "plane", "edge": r.json[len(r.json) // 3]})


def rand_dir(rng, dim, kind):
    if kind == "axis":
        v = np.zeros(dim)
        v[rng.integers(dim)] = rng.choice([-1.0, 1.0])
    elif kind == "grid":
        v = rng.integers(-2, 3, dim).astype(float)
        if not v.any():
            v[0] = 1
    else:
        v = rng.normal(size=dim)
    return v / np.linalg.norm(v)


def pairs(rng, dim):
    """A pair of directions, including equal and nearly opposite ones."""
    while True:
        kind = rng.choice(["axis", "grid", "free"])
        a = rand_dir(rng, dim, kind)
        mode = rng.integers(8)
        if mode == 0:
            b = a.copy()
        elif mode == 1:
            p = rand_dir(rng, dim, "free")
            p = p - p.dot(a) * a
            if np.linalg.norm(p) < 0.1:
                continue
            p /= np.linalg.norm(p)
            ang = rng.choice([0.05, 0.4, 2.6, 2.95])
            b = math.cos(ang) * a + math.sin(ang) * p
        else:
            b = rand_dir(rng, dim, kind)
        d = a.dot(b)
        # the fixed point plane is ill conditioned for nearly parallel directions
        if d < -0.985 or 0.9995 < d < 0.9999999:
            continue
        return a, b


def general(chk):
    from nonlinear_avoidance.vector_rotation import (
        VectorRotationXd, directional_vector_addition, rotate_array, rotate_direction)

    rng = np.random.default_rng(vf.SEED)
    recs = []
    n = 3000 if vf.THOROUGH else 500
    with vf.quiet():
        for k in range(n):
            dim = int(rng.choice([2, 3, 3, 4, 5]))
            a, b = pairs(rng, dim)
            w = rng.normal(size=dim)
            w = w / np.linalg.norm(w) * rng.choice([0.3, 1.0, 1.6])
            f = float(rng.choice([0.0, 0.25, 0.5, 1.0, 1.0, -0.5, 0.8]))
            la, lb = rng.choice([0.2, 1.0, 3.0], 2)
            given = a * la, b * lb
            rot = VectorRotationXd.from_directions(*given)
            if not (np.array_equal(given[0], a * la) and np.array_equal(given[1], b * lb)):
                chk.violation("general/from_directions/argument-modified", f"{a * la}")
            w_keep = w.copy()
            rec = {"kind": "xd", "a": vf.q(a), "b": vf.q(b), "w": vf.q(w), "f": vf.q(f),
                   "out": vf.q(rot.rotate(w, f)),
                   "back": vf.q(rot.inverse_rotate(rot.rotate(w))),
                   "invback": vf.q(rot.inv().rotate(rot.rotate(w))),
                   "first": vf.q(rot.get_first_vector()),
                   "second": vf.q(rot.get_second_vector()),
                   "twice": vf.q(rot.rotate(rot.rotate(w, f), f)),
                   "zero": vf.q(rot.rotate(np.zeros(dim)))}
            if not np.array_equal(w, w_keep):
                chk.violation("general/rotate/argument-modified", f"{w_keep} became {w}")
            recs.append(rec)
            if k % 3 == 0:
                c, d = pairs(rng, dim)
                inner = VectorRotationXd.from_directions(c, d)
                turned = rot.rotate_vector_rotation(inner, f)
                recs.append({"kind": "turn", "a": vf.q(a), "b": vf.q(b), "c": vf.q(c),
                             "d": vf.q(d), "f": vf.q(f),
                             "first": vf.q(turned.get_first_vector()),
                             "second": vf.q(turned.get_second_vector()),
                             "angle": vf.q(abs(turned.rotation_angle)),
                             "ofirst": vf.q(inner.get_first_vector())})
            if k % 3 == 1:
                g = float(rng.choice([0.0, 0.3, 0.5, 1.0]))
                va, vb = a * rng.choice([0.0, 0.5, 1.5]), b * rng.choice([0.0, 0.5, 1.5, 1.5])
                keep = va.copy(), vb.copy()
                recs.append({"kind": "add", "a": vf.q(va), "b": vf.q(vb), "f": vf.q(g),
                             "out": vf.q(directional_vector_addition(va, vb, g))})
                if not (np.array_equal(va, keep[0]) and np.array_equal(vb, keep[1])):
                    chk.violation("general/addition/argument-modified", f"{keep}")
            if k % 3 == 2:
                qq, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
                base = qq[:, :2]
                cols = int(rng.integers(1, 5))
                ins = np.array([rand_dir(rng, dim, "free") for _ in range(cols)]).T
                ang = float(rng.uniform(-3, 3))
                given = ins * np.array([2.0, 1.0, 0.5, 3.0])[:cols]
                keep = given.copy(), base.copy()
                outs = rotate_array(directions=given, base=base, rotation_angle=ang)
                if not (np.array_equal(given, keep[0]) and np.array_equal(base, keep[1])):
                    chk.violation("general/rotate_array/argument-modified", f"{keep}")
                recs.append({"kind": "array", "ins": vf.q(ins.T), "outs": vf.q(outs.T),
                             "b0": vf.q(base[:, 0]), "b1": vf.q(base[:, 1]),
                             "angle": vf.q(ang)})
                one = rotate_direction(ins[:, 0] * 2, base, ang)
                if not np.allclose(one, 2 * outs[:, 0], atol=1e-7):
                    chk.violation("general/rotate_direction/array-agrees",
                                  f"{one} vs {2 * outs[:, 0]}")
    vf.validate(chk, "general", "RotationTrace", recs,
                key=lambda r, c: f"{r['kind']}/{c}")
    chk.sample({"part": "general", "record": recs[0]})


def tiny(chk):
    """Directions that are almost the same, seen through a magnifying glass."""
    from nonlinear_avoidance.vector_rotation import VectorRotationXd

    rng = np.random.default_rng(vf.SEED + 1)
    recs = []
    with vf.quiet():
        for k in range(120):
            dim = int(rng.choice([2, 3, 4]))
            a = rand_dir(rng, dim, rng.choice(["axis", "grid", "free"]))
            p = rand_dir(rng, dim, "free")
            p = p - p.dot(a) * a
            p /= np.linalg.norm(p)
            ang = 10.0 ** rng.uniform(-9, -2)
            b = math.cos(ang) * a + math.sin(ang) * p
            rot = VectorRotationXd.from_directions(a, b)
            half = math.cos(ang / 2) * a + math.sin(ang / 2) * p
            recs.append({
                "kind": "tiny", "exponent": int(math.log10(ang)),
                "end": vf.q(rot.rotate(a) - b, 1e9),
                "half": vf.q(rot.rotate(a, 0.5) - half, 1e9),
                "gram": vf.q((rot.base.T @ rot.base - np.eye(2)).ravel(), 1e9)})
    vf.validate(chk, "tiny", "RotationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


def opposite(chk):
    """Directions which point away from each other."""
    from nonlinear_avoidance.vector_rotation import VectorRotationXd

    rng = np.random.default_rng(vf.SEED + 2)
    recs = []
    with vf.quiet():
        for k in range(150):
            dim = int(rng.choice([2, 3, 4, 5]))
            a = rand_dir(rng, dim, rng.choice(["axis", "grid", "free"]))
            rot = VectorRotationXd.from_directions(a * rng.choice([.5, 1.0, 2.0]), -a)
            w = rng.normal(size=dim)
            w = w / np.linalg.norm(w) * rng.choice([.5, 1.0])
            f = float(rng.choice([.25, .5, 1.0]))
            recs.append({"kind": "opposite", "a": vf.q(a), "w": vf.q(w),
                         "end": vf.q(rot.rotate(a)), "second": vf.q(rot.get_second_vector()),
                         "half": vf.q(rot.rotate(a, .5)), "out": vf.q(rot.rotate(w, f)),
                         "twice": vf.q(rot.rotate(rot.rotate(w))),
                         "back": vf.q(rot.inverse_rotate(rot.rotate(w, 1.0)))})
    vf.validate(chk, "opposite", "RotationTrace", recs, key=lambda r, c: f"{r['kind']}/{c}")


PARTS = [plane, general, tiny, opposite]
