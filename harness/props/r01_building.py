"""Building blocks of the rotational avoidance, judged by AvoidanceTrace."""
import math

import numpy as np

import vf
from props.v01_rotation import rand_dir


def near_dir(rng, d, max_angle):
    """A direction at most max_angle away from d."""
    o = rand_dir(rng, len(d), "free")
    o = o - o.dot(d) * d
    o = o / np.linalg.norm(o)
    a = rng.uniform(0, max_angle)
    return math.cos(a) * d + math.sin(a) * o


def angle(a, b):
    return math.acos(max(-1, min(1, a.dot(b) / np.linalg.norm(a) / np.linalg.norm(b))))


def setting(rng, dim=None):
    dim = dim or int(rng.choice([2, 2, 3, 3, 4]))
    n = rand_dir(rng, dim, rng.choice(["axis", "free"]))
    ref = -n if rng.integers(3) == 0 else near_dir(rng, -n, 1.2)
    return dim, n, ref


def logmap(v, b):
    u = v / np.linalg.norm(v)
    r = u - u.dot(b) * b
    m = np.linalg.norm(r)
    return angle(u, b) * r / m if m > 1e-9 else 0 * r


def tangents(chk):
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider

    rng = np.random.default_rng(vf.SEED + 11)
    recs = []
    with vf.quiet():
        while len(recs) < (3600 if vf.THOROUGH else 1800):
            dim, n, ref = setting(rng)
            rad = float(rng.choice([math.pi / 2, math.pi / 2, 1.8, 2.2, 2.8, math.pi]))
            v = rand_dir(rng, dim, rng.choice(["axis", "free"]))
            if rng.integers(3) == 0:
                v = near_dir(rng, ref, 0.7)
            inside = v.dot(-n) > math.cos(rad)
            b, r = (-n, ref) if inside else (n, -ref)
            if abs(v.dot(-n) - math.cos(rad)) < 0.02 or angle(v, b) > 3.0:
                continue
            if np.linalg.norm(logmap(v, b) - logmap(r, b)) < 0.08:
                continue
            if angle(r, b) > (rad if inside else math.pi - rad) - 0.05:
                continue  # the reference direction has to be within the cone
            args = [x.copy() for x in (v, n, ref)]
            out = RotationalAvoider.get_projected_tangent_from_vectors(
                v * float(rng.choice([1.0, 1.0])), normal=n, reference=ref,
                convergence_radius=rad)
            if not all(np.array_equal(x, y) for x, y in zip(args, (v, n, ref))):
                chk.violation("tangents/argument-changed", f"{args}")
            recs.append({"f": "tangent", "v": vf.q(v), "n": vf.q(n), "ref": vf.q(ref),
                         "rad": vf.q(rad), "out": vf.q(out)})
        for k in range(3):
            e = np.eye(3)[k]
            out = RotationalAvoider.get_projected_tangent_from_vectors(
                -e, normal=e, reference=-e)
            recs.append({"f": "aligned", "v": vf.q(-e), "out": vf.q(out)})
    vf.validate(chk, "tangents", "AvoidanceTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "tangents", "record": recs[0]})


def weights(chk):
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider

    from vartools.linalg import get_orthogonal_basis

    rng = np.random.default_rng(vf.SEED + 12)
    recs = []
    with vf.quiet():
        while len(recs) < (4800 if vf.THOROUGH else 2400):
            dim, n, ref = setting(rng)
            c = near_dir(rng, ref, 0.9) if rng.integers(2) else rand_dir(rng, dim, "free")
            g = float(rng.choice([0.7, 1.0, 1.2, 1.5, 2.0, 4.0, 9.0, rng.uniform(1, 5)]))
            p = float(rng.choice([0.3, 1.0, 0.5]))
            rad = math.pi / 2
            b, r = (n, -ref) if c.dot(n) > 0 else (-n, ref)
            delta = np.linalg.norm(logmap(c, b) - logmap(r, b))
            if abs(c.dot(n)) < 0.005 or delta < 0.08:
                continue
            kw = dict(normal_vector=n, reference_vector=ref, convergence_vector=c,
                      smooth_continuation_power=p)
            out = RotationalAvoider.get_rotation_weight(gamma_value=g, **kw)
            farther = RotationalAvoider.get_rotation_weight(gamma_value=g * 1.3, **kw)
            recs.append({"f": "rotation-weight", "n": vf.q(n), "ref": vf.q(ref),
                         "c": vf.q(c), "g": vf.q(g), "rad": vf.q(rad), "p": vf.q(p),
                         "out": vf.q(out), "farther": vf.q(farther)})
            rad = float(rng.choice([math.pi / 2, 2.2]))
            av = RotationalAvoider(convergence_radius=rad,
                                   tail_rotation=bool(rng.integers(2)))
            av.smooth_continuation_power = p
            b = -n
            lc, lr = logmap(c, b), logmap(ref, b)
            if (abs(np.linalg.norm(lc) - rad) < 0.01 or np.linalg.norm(lc - lr) < 0.08
                    or angle(c, b) > 3.0):
                continue
            mat = get_orthogonal_basis(b)
            g = max(g, 1.0)
            out = av.get_smooth_continuation_weight(
                gamma=g, vector_reference=ref, vector_convergence=c * 2, base=mat)
            recs.append({"f": "smooth-weight", "b": vf.q(b), "ref": vf.q(ref),
                         "c": vf.q(c), "g": vf.q(g), "rad": vf.q(rad), "p": vf.q(p),
                         "out": vf.q(out)})
            out = av.get_pseudo_tangent(vector_convergence=c, vector_reference=ref, base=mat)
            recs.append({"f": "pseudo-tangent", "b": vf.q(b), "ref": vf.q(ref),
                         "c": vf.q(c), "rad": vf.q(rad), "tail": av.tail_rotation,
                         "out": vf.q(out)})
            out = av.get_intermediate_convergence_direction(
                vector_convergence=c, vector_reference=ref, base=mat)
            recs.append({"f": "pseudo-tangent", "b": vf.q(b), "ref": vf.q(ref),
                         "c": vf.q(c), "rad": vf.q(math.pi / 2), "tail": True,
                         "out": vf.q(out)})
    vf.validate(chk, "weights", "AvoidanceTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "weights", "record": recs[0]})


def slowing(chk):
    from nonlinear_avoidance.avoidance.rotational_avoider import RotationalAvoider

    rng = np.random.default_rng(vf.SEED + 13)
    recs = []
    with vf.quiet():
        for _ in range(2400 if vf.THOROUGH else 1200):
            dim = int(rng.choice([2, 3]))
            v = rand_dir(rng, dim, rng.choice(["axis", "free"]))
            n = rand_dir(rng, dim, rng.choice(["axis", "free"])) * float(
                rng.choice([1.0, 0.6, 0.2]))
            if rng.integers(10) == 0:
                n = 0 * n
            if rng.integers(8) == 0:
                v = -n / np.linalg.norm(n) if n.any() else v
            if 0 < abs(v.dot(n)) < 0.002:
                continue
            g = float(rng.choice([0.5, 1.0, 1.05, 1.3, 2.0, 5.0, rng.uniform(1.02, 4)]))
            k, root = rng.choice([0.8, 0.5]), int(rng.choice([3, 2]))
            mag = float(rng.choice([1.0, 0.4, 1.8]))
            kw = dict(averaged_normal=n, dot_scaling=float(k), power_root=root)
            sc = RotationalAvoider.compute_safe_scaling(velocity=v, gamma=g, **kw)
            far = RotationalAvoider.compute_safe_scaling(velocity=v, gamma=g * 1.2, **kw)
            vel = RotationalAvoider.compute_safe_magnitude(
                rotated_velocity=v, initial_norm=mag, gamma=g, **kw)
            recs.append({"f": "slowing", "v": vf.q(v), "n": vf.q(n), "g": vf.q(g),
                         "k": vf.q(k), "root": root, "mag": vf.q(mag), "out": vf.q(sc),
                         "farther": vf.q(far), "vel": vf.q(vel)})
            m = int(rng.integers(1, 4))
            ns = [rand_dir(rng, dim, "free") for _ in range(m)]
            if rng.integers(3) == 0:
                ns = [x if x.dot(v) > 0 else -x for x in ns]
            gs = [float(rng.choice([1.0, 1.5, 3.0])) for _ in range(m)]
            if rng.integers(8) == 0:
                at = int(rng.integers(m))
                ns[at], gs[at] = -v, 1.0
            out = RotationalAvoider._limit_magnitude(
                modulated_velocity=v, initial_magintude=mag, gammas=np.array(gs),
                normals=np.array(ns).T, weights=np.ones(m) / m)
            recs.append({"f": "limit", "v": vf.q(v), "mag": vf.q(mag), "gs": vf.q(gs),
                         "ns": [vf.q(x) for x in ns], "out": vf.q(out)})
        zero = RotationalAvoider.compute_safe_magnitude(
            np.zeros(2), 1.0, averaged_normal=np.array([1.0, 0]), gamma=2.0)
        if np.any(zero != 0):
            chk.violation("slowing/zero-velocity", f"became {zero}")
    vf.validate(chk, "slowing", "AvoidanceTrace", recs, key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "slowing", "record": recs[0]})


PARTS = [tangents, weights, slowing]
