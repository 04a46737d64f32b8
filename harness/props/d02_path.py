"""Following a path of segments, judged by PathTrace."""
import math

import numpy as np

import vf
from props.a01_closedloop import unit


def mod():
    from nonlinear_avoidance.dynamics import segmented_dynamics
    return segmented_dynamics


def corners(rng, n):
    at = rng.uniform(-1, 1, 2)
    out = [at]
    way = rng.uniform(-3, 3)
    for _ in range(n):
        way = way + rng.uniform(-2.2, 2.2)
        at = at + rng.uniform(.9, 1.6) * np.array([math.cos(way), math.sin(way)])
        out.append(at)
    return out


def ends(ds):
    return [{"a": vf.q(s.start), "b": vf.q(s.end)} for s in ds.segments]


def velocities(chk):
    m = mod()
    rng = np.random.default_rng(vf.SEED * 89)
    recs = []
    with vf.quiet():
        while len(recs) < (12000 if vf.THOROUGH else 1500):
            pts = corners(rng, int(rng.integers(1, 5)))
            margin = float(rng.choice([0., .1, .2, .35]))
            keep = [p.copy() for p in pts]
            ds = m.create_segment_from_points(pts, margin=margin)
            if any(not np.array_equal(a, b) for a, b in zip(pts, keep)):
                chk.violation("velocities/points-changed", f"{keep} became {pts}")
            recs.append({"kind": "made", "points": [vf.q(p) for p in pts],
                         "margin": vf.q(margin), "segs": ends(ds)})
            if rng.integers(2):
                ds.maximum_velocity = float(rng.uniform(.3, 2))
                ds.slowdown_distance = float(rng.uniform(.3, 2))
            for _ in range(8):
                if rng.integers(2):
                    x = np.mean(pts, axis=0) + rng.uniform(-3.5, 3.5, 2)
                else:
                    s = ds.segments[rng.integers(len(ds.segments))]
                    x = s.start + rng.uniform(-.3, 1.3) * (s.end - s.start) + rng.uniform(-.4, .4, 2)
                away = np.linalg.norm(x - ds.attractor_position)
                d = [s.get_distance(x) for s in ds.segments]
                if min(d) < .05 or away < .05 or max(np.abs(x)) > 5 or max(d) > 4.4 or away > 4.4:
                    continue
                if any(np.linalg.norm(p - x) > 4.5 for p in pts):
                    continue
                lead = [abs((x - s.start) @ s.direction) for s in ds.segments]
                off = [np.linalg.norm(x - s.start - ((x - s.start) @ s.direction) * s.direction)
                       for s in ds.segments]
                if max(off) > 1.4 or max(lead) > 4:
                    continue  # beyond the range of the arithmetic
                orig = x.copy()
                w, v = ds.get_weights(x), ds.evaluate(x)
                if not np.array_equal(orig, x):
                    chk.violation("velocities/argument-changed", f"{orig} became {x}")
                recs.append({"kind": "path", "segs": ends(ds), "p": vf.q(x), "ds": vf.q(d),
                             "w": vf.q(w), "v": vf.q(v), "vmax": vf.q(ds.maximum_velocity),
                             "slow": vf.q(ds.slowdown_distance)})
    vf.validate(chk, "velocities", "PathTrace", recs, key=lambda r, c: c)
    chk.sample({"part": "velocities", "record": recs[1]})


def special(chk):
    """On the segments, at their common corners and at the end."""
    m = mod()
    rng = np.random.default_rng(vf.SEED * 97)
    recs = []
    with vf.quiet():
        for _ in range(600 if vf.THOROUGH else 150):
            pts = [p.round() for p in corners(rng, int(rng.integers(2, 5)))]
            if any(np.array_equal(a, b) for a, b in zip(pts, pts[1:])):
                continue
            ds = m.create_segment_from_points(pts, margin=0.)
            for x in pts:
                hits = [bool(s.get_distance(x) == 0) for s in ds.segments]
                if any(hits):
                    recs.append({"kind": "on", "hits": hits, "w": vf.q(ds.get_weights(x))})
                if not np.array_equal(x, pts[-1]):
                    v = ds.evaluate(x)
                    if not (np.all(np.isfinite(v)) and np.linalg.norm(v) > .5):
                        chk.violation("special/corner", f"{v} at the corner {x} of {pts}")
            recs.append({"kind": "rest", "v": vf.q(ds.evaluate(ds.attractor_position.copy()))})
            try:
                k = int(rng.integers(len(pts)))
                again = pts[:k + 1] + [pts[k].copy()] + pts[k + 1:]
                m.create_segment_from_points(again, margin=.1)
                chk.violation("special/same-points", f"coinciding points {again} are accepted")
            except ValueError:
                pass
            try:
                m.DynamicsSegment(pts[0], pts[0])
                chk.violation("special/empty-segment", "a segment without length is accepted")
            except ValueError:
                pass
    vf.validate(chk, "special", "PathTrace", recs, key=lambda r, c: c)


def runs(chk):
    m = mod()
    rng = np.random.default_rng(vf.SEED * 101)
    recs = []
    with vf.quiet():
        for _ in range(120 if vf.THOROUGH else 24):
            pts = [np.zeros(2)]
            way = rng.uniform(-3, 3)
            for _ in range(int(rng.integers(2, 5))):  # opening corners
                way = way + rng.choice([-1, 1]) * rng.uniform(.2, 1.4)
                pts.append(pts[-1] + 3 * np.array([math.cos(way), math.sin(way)]))
            ds = m.create_segment_from_points(pts, margin=.5)
            x = pts[0] + rng.uniform(-.4, .4, 2)
            for k in range(3000):
                x = x + .02 * ds.evaluate(x)
                if np.linalg.norm(x - ds.attractor_position) < .05:
                    break
            recs.append({"kind": "run", "left": vf.q(min(
                4, np.linalg.norm(x - ds.attractor_position))),
                "what": [p.tolist() for p in pts]})
    vf.validate(chk, "runs", "PathTrace", recs, key=lambda r, c: c)


PARTS = [velocities, special, runs]
