"""Shared by the rotation tree checks."""
import numpy as np

import vf
from props.v01_rotation import tick, to_tick


def names(i):
    return [-1, (0, 1), "left", 3, (2, "x"), 17, "h"][i]


def bind(n, max_n):
    from nonlinear_avoidance.vector_rotation import (
        VectorRotationSequence, VectorRotationTree)

    def make(_):
        return {"t": VectorRotationTree(), "ids": []}

    def arr(ds):
        return np.array([tick(d, n, 0.7 + k) for k, d in enumerate(ds)]).T

    def quarter(v, length=1.0):
        return to_tick(v, 4 * n, length)

    def apply(w, a):
        op, t, ids = a["op"], w["t"], w["ids"]
        try:
            if op == "set_root":
                if a["d"] % 2:
                    w["t"] = VectorRotationTree(names(0), tick(a["d"], n, 1.0))
                else:
                    t.set_root(names(0), tick(a["d"], n, 1.0))
                ids.append(names(0))
            elif op == "add_node":
                t.add_node(node_id=names(len(ids)), parent_id=ids[a["p"]],
                           direction=tick(a["d"], n, 0.4 + a["p"]))
                ids.append(names(len(ids)))
            elif op == "add_existing":
                t.add_node(node_id=ids[a["n"]], parent_id=ids[a["p"]],
                           direction=tick(1, n))
            elif op == "add_zero":
                t.add_node(node_id=names(len(ids)), parent_id=ids[a["p"]],
                           direction=np.zeros(2))
            elif op == "add_nan":
                t.add_node(node_id=names(len(ids)), parent_id=ids[a["p"]],
                           direction=np.array([np.nan, 1.0]))
            elif op == "add_orphan":
                t.add_node(node_id=names(len(ids)), direction=tick(1, n))
            elif op == "add_unknown_parent":
                t.add_node(node_id=names(len(ids)), parent_id="nobody",
                           direction=tick(1, n))
            elif op == "mean_length_mismatch":
                t.get_weighted_mean(list(ids), [0.5] * (len(ids) + 1))
            elif op == "set_direction":
                t.set_direction(ids[a["n"]], tick(a["d"], n))
            elif op == "add_sequence":
                seq = VectorRotationSequence.create_from_vector_array(arr(a["ds"]))
                before = list(t.graph.nodes)
                last = names(len(ids))
                t.add_sequence(node_id=last, sequence=seq, parent_id=ids[a["p"]],
                               common_parent=a["common"])
                new = [k for k in t.graph.nodes if k not in before]
                if new[-1] != last:
                    return "last node not named as requested"
                ids += new
            elif op == "from_sequence":
                seq = VectorRotationSequence.create_from_vector_array(arr(a["ds"]))
                w["t"] = VectorRotationTree.from_sequence(
                    root_id=names(0), node_id=names(5), sequence=seq)
                w["ids"] = list(w["t"].graph.nodes)
                if w["ids"][0] != names(0) or w["ids"][-1] != names(5):
                    return "nodes not named as requested"
            elif op == "mean":
                ws = [x / 4 for x in a["w"]]
                out = quarter(t.get_weighted_mean(list(ids), ws))
                seq = t.reduce_weighted_to_sequence(list(ids), ws)
                end = quarter(seq.get_end_vector())
                root = t.graph.nodes[ids[0]]["direction"]
                applied = quarter(seq.rotate(root))
                sub = [k for k in range(len(ids)) if ws[k]]
                part = quarter(t.get_weighted_mean([ids[k] for k in reversed(sub)],
                                                   [ws[k] for k in reversed(sub)]))
                if not out == end == applied == part:
                    return f"mean {out}, end {end}, applied {applied}, subset {part}"
                return out
            elif op == "carry":
                f = t.inverse_rotate if a["inv"] else t.rotate
                return quarter(f(tick(a["v"], n, 2.0), list(ids),
                                 [x / 4 for x in a["w"]]), 2.0)
        except ValueError:
            return "ValueError"
        except KeyError:
            return "KeyError"
        return "ok"

    def project(w):
        t, ids = w["t"], w["ids"]
        g = t.graph
        if set(g.nodes) != set(ids):
            return {"nodes": [repr(k) for k in g.nodes]}
        cnt = len(ids)
        pos = {k: i for i, k in enumerate(ids)}
        pad = max_n - cnt
        asc = t.get_nodes_ascending()
        lev = [g.nodes[k]["level"] for k in ids]
        if sorted(map(repr, asc)) != sorted(map(repr, ids)) or any(
                g.nodes[a]["level"] > g.nodes[b]["level"] for a, b in zip(asc, asc[1:])):
            return {"ascending": [repr(k) for k in asc]}
        if cnt and t.dimension != 2:
            return {"dimension": t.dimension}
        if cnt and to_tick(t.root["direction"], n) != to_tick(g.nodes[ids[0]]["direction"], n):
            return {"root": "wrong"}
        below = []
        for k in ids:
            allc = [pos[c] for c in t.get_all_childs_children(k)]
            if len(allc) != len(set(allc)):
                return {"below": allc}
            below.append(sorted(allc))
        return {
            "cnt": cnt,
            "par": [-1] * min(cnt, 1) + [pos[t.get_parent(k)] for k in ids[1:]]
            + [-1] * (max_n - max(cnt, 0)),
            "dir": [to_tick(g.nodes[k]["direction"], n, 1.0) for k in ids] + [-1] * pad,
            "level": lev + [-1] * pad,
            "kids": [sorted(pos[c] for c in t.get_children(k)) for k in ids] + [[]] * pad,
            "below": below + [[]] * pad,
        }

    return make, apply, project


def explore(chk, part, n, max_n, dirs, weights, sequences, walks):
    mc = ("---- MODULE MCRotationTree ----\nEXTENDS RotationTree\nDirsDef == {%s}\n"
          "WeightsDef == {%s}\n====\n" % (
              ", ".join(map(str, dirs)),
              ", ".join("<<" + ", ".join(map(str, w)) + ">>" for w in weights)))
    cfg = (f"SPECIFICATION Spec\nCONSTANTS N = {n} Max = {max_n} WithSequences = "
           f"{'TRUE' if sequences else 'FALSE'}\nCONSTANT Dirs <- DirsDef\n"
           "CONSTANT Weights <- WeightsDef\nVIEW View\nINVARIANTS Tree OneHot NothingLost\n"
           "PROPERTY Refused\nACTION_CONSTRAINT Emit\n")
    r = vf.run_tlc("MCRotationTree", cfg, files={"MCRotationTree.tla": mc})
    chk.add_tlc(r, part)
    make, apply, project = bind(n, max_n)
    init = {"cnt": 0, "par": [-1] * max_n, "dir": [-1] * max_n, "level": [-1] * max_n,
            "kids": [[]] * max_n, "below": [[]] * max_n}
    vf.lockstep(chk, part, r.json, init, make, apply, project, walks=walks, walk_depth=20)
    chk.sample({"part": part, "edge": r.json[len(r.json) // 2]})
