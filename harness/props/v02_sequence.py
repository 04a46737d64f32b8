"""Sequences of rotations: SequenceTicks (lock-step) and SequenceTrace."""
import copy
import math

import numpy as np

import vf
from props.v01_rotation import rand_dir, tick, to_tick


def plane(chk):
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence, VectorRotationXd

    n = 8
    turns = "{-3, -1, 0, 2, 3}" if vf.THOROUGH else "{-3, 0, 1, 2}"
    mc = ("---- MODULE MCSequenceTicks ----\nEXTENDS SequenceTicks\n"
          f"TurnsDef == {turns}\nRotorsDef == {{<<0, 1>>, <<3, 0>>}}\n====\n")
    cfg = (f"SPECIFICATION Spec\nCONSTANTS N = {n} MaxLen = 3 Starts = {{0, 3, 6}}\n"
           "CONSTANT Turns <- TurnsDef\nCONSTANT Rotors <- RotorsDef\nVIEW View\n"
           "INVARIANT Chained\nPROPERTY FullRotationReachesEnd\nACTION_CONSTRAINT Emit\n")
    r = vf.run_tlc("MCSequenceTicks", cfg, files={"MCSequenceTicks.tla": mc})
    chk.add_tlc(r, "plane")

    def make(_):
        return {"s": None}

    def rotation(a, b):
        return VectorRotationXd.from_directions(tick(a, n, 1.3), tick(b, n, 0.6))

    def quarter(v, length=1.0):
        return to_tick(v, 4 * n, length)

    def apply(w, a):
        op, s = a["op"], w["s"]
        if op in ("create", "create_zero"):
            arr = np.array([tick(t, n, 0.5 + k) for k, t in enumerate(a["ticks"])]).T
            if op == "create" and len(a["ticks"]) == 2:
                arr = np.round(arr, 12)
            if op == "create_zero":
                arr[:, a["at"] - 1] = 0.0
            try:
                w["s"] = VectorRotationSequence.create_from_vector_array(arr)
            except ValueError:
                return "ValueError"
            return "ok"
        if op == "append_direction":
            s.append_from_direction(tick(a["to"], n, 2.0))
        elif op in ("append_base", "push_root"):
            rot = rotation(a["from"], a["to"])
            if op == "append_base":
                s.append_from_base_and_angle(rot.base, rot.rotation_angle)
            else:
                s.push_root_from_base_and_angle(rot.base, rot.rotation_angle)
        elif op == "turn":
            rot = rotation(a["a"], a["b"])
            if a["num"] == 2:
                w["s"] = rot.rotate_sequence(s)
            else:
                w["s"] = rot.rotate_sequence(s, a["num"] / 2)
        elif op == "rotate":
            if a["f"] == 4:
                return quarter(s.rotate(tick(a["v"], n, 2.0)), 2.0)
            return quarter(s.rotate(tick(a["v"], n, 2.0), a["f"] / 4), 2.0)
        elif op == "rotate_weighted":
            return quarter(s.rotate_weighted(tick(a["v"], n), np.array(a["w"]) / 4))
        elif op == "end":
            return quarter(s.get_end_vector())
        return "ok"

    def project(w):
        s = w["s"]
        if s is None:
            return {"start": -1, "turns": [], "verts": []}
        if s.dimension != 2:
            return {"dimension": s.dimension}
        m = s.n_rotations
        verts = [to_tick(s.basis_array[:, k, 0], n, 1.0) for k in range(m)]
        verts.append(to_tick(s.get_end_vector(), n, 1.0))
        if not all(isinstance(v, int) for v in verts):
            return {"verts": verts}
        turns = [(b - a + n // 2) % n - n // 2 for a, b in zip(verts, verts[1:])]
        return {"start": verts[0], "turns": turns, "verts": verts}

    init = {"start": -1, "turns": [], "verts": []}
    vf.lockstep(chk, "plane", r.json, init, make, apply, project, walks=40, walk_depth=20)
    chk.sample({"part": "plane", "edge": r.json[len(r.json) // 3]})


def rand_chain(rng, dim, n):
    verts = [rand_dir(rng, dim, rng.choice(["axis", "free"]))]
    while len(verts) < n + 1:
        v = verts[-1].copy() if rng.integers(6) == 0 else rand_dir(
            rng, dim, rng.choice(["axis", "free"]))
        d = v.dot(verts[-1])
        if -0.9 < d < 0.97 or d > 0.9999999:
            verts.append(v)
    return verts


def general(chk):
    from nonlinear_avoidance.vector_rotation import VectorRotationSequence, VectorRotationXd

    rng = np.random.default_rng(vf.SEED + 1)
    recs = []
    with vf.quiet():
        for k in range(1500 if vf.THOROUGH else 250):
            dim = int(rng.choice([2, 3, 3, 4, 5]))
            n = int(rng.integers(1, 5))
            verts = rand_chain(rng, dim, n)
            arr = np.array([v * rng.choice([0.5, 1, 2]) for v in verts]).T
            arr_keep = arr.copy()
            s = VectorRotationSequence.create_from_vector_array(arr)
            if not np.array_equal(arr, arr_keep):
                chk.violation("general/create/argument-modified",
                              f"{arr_keep.tolist()} became {arr.tolist()}")
            mode = rng.integers(3)
            if mode == 0:
                w = np.zeros(n)
                w[-1] = rng.choice([0.25, 0.5, 0.8])
            elif mode == 1:
                w = rng.dirichlet(np.ones(n))
            else:
                w = rng.dirichlet(np.ones(n)) * rng.choice([0.5, 1.0])
            v = verts[0] if rng.integers(2) else rand_dir(rng, dim, "free") * 1.5
            hot = int(rng.integers(n))
            wh = np.zeros(n)
            wh[hot] = 1.0
            keep = (s.basis_array.copy(), s.rotation_angles.copy())
            while True:
                ra, rb = rand_chain(rng, dim, 1)
                extra = rand_dir(rng, dim, "free")
                if -0.9 < extra.dot(verts[-1]) < 0.97:
                    break
            rf = float(rng.choice([1.0, 0.5, -0.3]))
            turned = VectorRotationXd.from_directions(ra, rb).rotate_sequence(s, rf)
            v_keep, w_keep = v.copy(), w.copy()
            rec = {"verts": [vf.q(x) for x in verts], "w": vf.q(w), "v": vf.q(v),
                   "n": int(s.n_rotations), "end": vf.q(s.get_end_vector()),
                   "full": vf.q(s.rotate(verts[0])),
                   "weighted": vf.q(s.rotate_weighted(v, w)),
                   "hot": vf.q(s.rotate_weighted(verts[0], wh)), "k": hot + 1,
                   "ra": vf.q(ra), "rb": vf.q(rb), "rf": vf.q(rf),
                   "tend": vf.q(turned.get_end_vector()),
                   "tstart": vf.q(turned.basis_array[:, 0, 0]), "extra": vf.q(extra)}
            if not (np.array_equal(v, v_keep) and np.array_equal(w, w_keep)):
                chk.violation("general/rotate_weighted/argument-modified", f"{v_keep} {w_keep}")
            if not (np.array_equal(keep[0], s.basis_array)
                    and np.array_equal(keep[1], s.rotation_angles)):
                chk.violation("general/queries-modify-sequence", f"record {rec}")
            s2 = copy.deepcopy(s)
            s2.append_from_direction(extra * 2)
            rec["aend"] = vf.q(s2.get_end_vector())
            rec["afull"] = vf.q(s2.rotate(verts[0]))
            recs.append(rec)
    vf.validate(chk, "general", "SequenceTrace", recs)
    chk.sample({"part": "general", "record": recs[0]})


PARTS = [plane, general]
