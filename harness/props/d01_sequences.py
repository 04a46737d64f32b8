"""Dynamics as sequences of rotations, judged by DynamicsSequence."""
import numpy as np

import vf
from props.a01_closedloop import unit


class Plain:
    """Dynamics of which only the velocity is known."""

    def __init__(self, v):
        self.v = v

    def evaluate(self, position):
        return self.v.copy()


class Attracted(Plain):
    def __init__(self, v, attractor):
        super().__init__(v)
        self.attractor_position = attractor


class Own(Attracted):
    def evaluate_dynamics_sequence(self, position):
        self.asked = position.copy()
        self.answer = object()
        return self.answer


def sequences(chk):
    from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
    from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingDynamics3D  # noqa: F401

    rng = np.random.default_rng(vf.SEED * 307)
    recs = []
    with vf.quiet():
        while len(recs) < (20000 if vf.THOROUGH else 9000):
            d = int(rng.choice([2, 3, 4]))
            x, attr = rng.uniform(-2, 2, d), rng.uniform(-2, 2, d)
            v, ref = unit(rng, d) * rng.uniform(.5, 2), unit(rng, d) * rng.uniform(.5, 2)
            zero = rng.integers(12)
            if zero == 0:
                v = np.zeros(d)
            elif zero == 1:
                ref = np.zeros(d)
            elif zero == 2:
                x = attr.copy()
            kind = rng.integers(4)
            home = attr - x
            if zero != 2 and not .5 < np.linalg.norm(home) < 4.4:
                continue
            default = Plain(ref) if rng.integers(3) == 0 else None
            if kind == 0:
                ds = Own(v, attr)
            elif kind == 1:
                ds, home = Plain(v), None
            else:
                ds = Attracted(v, attr)
            start = ref if default is not None else home if home is not None else v
            if kind and np.linalg.norm(start) and np.linalg.norm(v) and \
                    start @ v < -.97 * np.linalg.norm(start) * np.linalg.norm(v):
                continue
            keep = x.copy(), attr.copy()
            s = evaluate_dynamics_sequence(x, ds, default)
            if not (np.array_equal(keep[0], x) and np.array_equal(keep[1], attr)):
                chk.violation("sequences/argument-changed", f"{keep} became {x} {attr}")
            own = bool(kind == 0)
            got, angle = [], 0
            if s is not None and not own:
                got = [vf.q(s.basis_array[:, 0, 0]), vf.q(s.get_end_vector())]
                got += [[0] * d] * (s.rotation_angles.shape[0] - 1)
                angle = vf.q(float(s.rotation_angles[0]))
            recs.append({"own": own, "ref": vf.q(ref) if default is not None else [],
                         "home": vf.q(home) if home is not None else [], "v": vf.q(v),
                         "got": got, "angle": angle,
                         "same": bool(own and s is ds.answer and np.array_equal(ds.asked, x))})
            if rng.integers(6) == 0 and np.linalg.norm(v):
                c = ConstantValueWithSequence(v)
                s = evaluate_dynamics_sequence(x, c, default)
                recs.append({"own": False, "ref": [], "home": [], "v": vf.q(c.evaluate(x)),
                             "got": [vf.q(s.basis_array[:, 0, 0]), vf.q(s.get_end_vector())],
                             "angle": vf.q(float(np.sum(s.rotation_angles))), "same": False})
                if not np.allclose(c.evaluate(x), v):
                    chk.violation("sequences/constant", f"{c.evaluate(x)} for {v}")
    vf.validate(chk, "sequences", "DynamicsSequence", recs, key=lambda r, c: c)
    chk.sample({"part": "sequences", "record": recs[0]})


PARTS = [sequences]
