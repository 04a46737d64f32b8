"""Containers of walls: Boundaries (model -> code), LocalConvergence, BuildTrace."""
import math

import numpy as np

import vf
from props import _scenes as sc
from props.o05_factories import shape


def walls(chk):
    from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer

    m = sc.mods()
    n, makes = (4, 5) if vf.THOROUGH else (3, 4)
    r = vf.run_tlc("Boundaries", f"SPECIFICATION Spec\nCONSTANTS MaxN = {n} Makes = {makes}\n"
                   "VIEW View\nINVARIANTS Linked SomeRoot\nACTION_CONSTRAINT Emit\n",
                   timeout=600)
    chk.add_tlc(r, "walls")

    def element(e):
        o = m.Ellipse(center_position=np.array([1.0 * e, .5]), axes_length=np.array([1., .8]),
                      is_boundary=bool(e % 2))
        o.name = e
        return o

    def apply(w, a):
        c = w["c"]
        if a["op"] == "append":
            kw = {} if a["how"] == -2 else {"parent": a["how"]}
            c.append(element(a["e"]), **kw)
            w["made"] = a["e"]
        elif a["op"] == "extend":
            c.extend_graph(child=a["c"], parent=a["p"])
        else:
            del c[a["k"]]

    def project(w):
        c = w["c"]
        k = len(c)
        items = [c[j].name for j in range(k)]
        if [o.name for o in c] != items or c.n_obstacles != k:
            return {"items": items, "listed": [o.name for o in c]}
        levels = [int(v) for v in c.get_level_numbers()]
        roots = [int(v) for v in c.get_root(return_multi_values=True)]
        if k and int(c.get_root()) != roots[0]:
            return {"root": int(c.get_root())}
        ind = [bool(b) for b in c.get_boundary_ind()] if k else []
        if ind != [bool(e % 2) for e in items] or [o.name for o in c.get_boundary_list()] != [
                e for e in items if e % 2]:
            return {"boundaries": ind}
        return {"items": items, "made": w["made"], "roots": roots, "levels": levels,
                "parents": [int(c.get_parent(j)) for j in range(k)],
                "children": [[int(v) for v in c.get_children(j)] for j in range(k)]}

    def check_state(w, post):
        c = w["c"]
        for x in ([1.5, .6], [4.2, 0.0], [-2, 1.0]):
            x = np.array(x)
            want = any(o.get_gamma(x, in_global_frame=True) > 1 for o in c)
            if bool(c.is_collision_free(x)) != want:
                return "free", f"at {x}"
        return None

    vf.lockstep(chk, "walls", r.json, r.json[0]["pre"],
                lambda _: {"c": MultiBoundaryContainer(), "made": 0}, apply, project,
                check_state=check_state, walks=40)
    n = 7 if vf.THOROUGH else 6
    r = vf.run_tlc("Boundaries", f"SPECIFICATION Grow\nCONSTANTS MaxN = {n} Makes = {n}\n"
                   "VIEW View\nINVARIANTS Linked SomeRoot\nACTION_CONSTRAINT Emit\n",
                   timeout=600)
    chk.add_tlc(r, "walls")
    vf.lockstep(chk, "walls", r.json, r.json[0]["pre"],
                lambda _: {"c": MultiBoundaryContainer(), "made": 0}, apply, project, walks=0)


def joints(chk):
    """Where a wall meets its parent."""
    from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 43 + 1)
    recs = []
    with vf.quiet():
        for k in range(400 if vf.THOROUGH else 200):
            c = MultiBoundaryContainer()
            at = rng.uniform(-4, 4, 2)
            for j in range(3):
                if rng.random() < .6:
                    o = m.Ellipse(center_position=at.copy(), axes_length=rng.uniform(.8, 1.6, 2),
                                  orientation=float(rng.uniform(-3, 3)), is_boundary=True)
                else:
                    o = m.CuboidXd(center_position=at.copy(), is_boundary=True,
                                   axes_length=rng.uniform(1.6, 3.2, 2),
                                   orientation=float(rng.uniform(-3, 3)))
                c.append(o, **({} if j == 0 else {"parent": -1 if k % 2 else 0}))
                if k % 2 or j == 0:
                    base = at
                ang = rng.uniform(0, 6.28)
                at = base + rng.uniform(.3, 1.3) * np.array([math.cos(ang), math.sin(ang)])
            if k % 2:
                c.update_intersection_graph()
            else:
                c.update_intersection_graph(attractor_position=np.ones(2))
            for j in range(3):
                p = int(c.get_parent(j))
                got = c.get_parent_intersection(j)
                if p < 0:
                    if got is not None:
                        chk.violation("joints/root", f"root has the joint {got}")
                    continue
                recs.append({"f": "join", "ok": True, "a": shape(c[j]), "b": shape(c[p]),
                             "ref": sc.mm(got)})
    vf.validate(chk, "joints", "BuildTrace", recs, key=lambda r, c: c)


def convergence(chk):
    """Local directions of convergence, also after obstacles were removed or replaced."""
    from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
    from nonlinear_avoidance.rotation_container import RotationContainer
    from vartools.dynamical_systems import ConstantValue

    m = sc.mods()
    rng = np.random.default_rng(vf.SEED * 43 + 2)
    recs = []

    def unit(v):
        return v / max(np.linalg.norm(v), 1e-9)

    class Centre:
        """Circular motion: no attractor."""
        attractor_position = None

        def __init__(self, c):
            self.c = c

        def evaluate(self, p):
            r = p - self.c
            return np.array([-r[1], r[0]])

    with vf.quiet():
        for k in range(320 if vf.THOROUGH else 160):
            attr = rng.uniform(-4, 4, 2)
            A = np.array([[-1, 0], [0, -1.0]])
            turn = float(rng.uniform(-2.2, 2.2)) if k % 4 else 0.0
            ds = m.LinearSystem(attractor_position=attr, A_matrix=sc.rot(turn) @ A,
                                maximum_velocity=1.0)
            c = (RotationContainer if k % 3 else MultiBoundaryContainer)()
            for j in range(4):
                while True:
                    p = rng.uniform(-4, 4, 2)
                    if np.linalg.norm(p - attr) > 1:
                        break
                c.append(m.Ellipse(center_position=p, axes_length=rng.uniform(.3, .8, 2)))
            if k % 5 == 4:  # one and the same for all
                c.set_convergence_directions(converging_dynamics=ds)
                for j in range(4):
                    x = rng.uniform(-4, 4, 2)
                    recs.append({"f": "same", "v": vf.q(c.get_convergence_direction(x, j)),
                                 "w": vf.q(ds.evaluate(x))})
                continue
            if k % 5 == 3:  # without attractor
                cen = c[1].center_position.copy()
                circ = Centre(cen)
                c.set_convergence_directions(circ)
                for j in range(4):
                    x = c[j].center_position + rng.uniform(.3, 1.3) * unit(rng.normal(size=2))
                    v0 = circ.evaluate(c[j].center_position) / 4
                    recs.append({"f": "none", "rest": j == 1, "x": vf.q(x / 2),
                                 "c": vf.q(cen / 2), "v0": vf.q(v0), "v":
                                 vf.q(c.get_convergence_direction(x, j) / (1 if j == 1 else 4))})
                continue
            c.set_convergence_directions(ds)
            order = list(range(4))
            centers = [c[j].center_position.copy() for j in order]
            radius = [c[j].get_characteristic_length() for j in order]
            if k % 2:
                del c[1]
                order.remove(1)
            for pos, j in enumerate(order):
                v0 = ds.evaluate(centers[j])
                recs.append({"f": "center", "v": vf.q(unit(c.get_convergence_direction(
                    centers[j].copy(), pos))), "v0": vf.q(unit(v0))})
                u = rng.normal(size=2)
                u /= np.linalg.norm(u)
                x = centers[j] + 30 * u
                recs.append({"f": "far", "v": vf.q(unit(c.get_convergence_direction(x, pos))),
                             "x": vf.q(x / 10), "attr": vf.q(attr / 10)})
                x = centers[j] + radius[j] * 1.5 * u * rng.random()
                if np.linalg.norm(x - attr) < 0.2:
                    continue
                recs.append({"f": "near", "v": vf.q(unit(c.get_convergence_direction(x, pos))),
                             "x": vf.q(x / 3), "attr": vf.q(attr / 3),
                             "c": vf.q(centers[j] / 3), "v0": vf.q(unit(v0))})
    vf.validate(chk, "convergence", "LocalConvergence", recs,
                key=lambda r, c: f"{r['f']}/{c}")
    chk.sample({"part": "convergence", "record": recs[0]})


PARTS = [walls, joints, convergence]
