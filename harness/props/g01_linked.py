"""Linked graph elements: specs/LinkedForest.tla replayed transition by transition."""
import vf


def world(max_n, with_handler, same_value):
    from nonlinear_avoidance.graph_handler import BasicGraphHandler, GraphElement

    def make(_init):
        w = {"handler": BasicGraphHandler() if with_handler else None, "e": []}
        if not with_handler:
            for i in range(max_n):
                w["e"].append(GraphElement(value=0 if same_value else i))
        return w

    def apply(w, a):
        e, h = w["e"], w["handler"]
        op = a["op"]
        if op == "add_child":
            e[a["p"] - 1].add_child(e[a["c"] - 1])
        elif op == "set_parent":
            e[a["c"] - 1].set_parent(e[a["p"] - 1])
        elif op == "expel":
            e[a["e"] - 1].expel()
        elif op == "root":
            h.root = 7
            e.append(h.root)
        elif op == "add_with_parent":
            p = e[a["p"] - 1]
            before = [id(c) for c in p.children]
            h.add_element_with_parent(7 if same_value else 10 + len(e), p)
            new = [c for c in p.children if id(c) not in before]
            if len(new) != 1:
                return f"{len(new)} children registered"
            e.append(new[0])
        elif op == "delete":
            h.delete_element(e[a["e"] - 1])
        return "ok"

    def project(w):
        e, h = w["e"], w["handler"]

        def idx(x):
            if x is None:
                return 0
            hit = [i + 1 for i, y in enumerate(e) if y is x]
            return hit[0] if len(hit) == 1 else -1

        pad = max_n - len(e)
        for x in e:
            if x.number_of_children != len(x.children):
                return {"number_of_children": x.number_of_children}
        return {
            "made": len(e),
            "parent": [idx(x.parent) for x in e] + [0] * pad,
            "kids": [[idx(c) for c in x.children] for x in e] + [[]] * pad,
            "owned": sorted(idx(x) for x in h._graph) if h is not None else [],
            "root": idx(h.root) if h is not None else 0,
        }

    return make, apply, project


def forest(chk, part, max_n, with_handler, same_value, walks):
    cfg = (f"SPECIFICATION Spec\nCONSTANTS Max = {max_n} WithHandler = "
           f"{'TRUE' if with_handler else 'FALSE'}\nVIEW View\nINVARIANTS TypeOK Symmetric "
           "NoDuplicates Acyclic\nPROPERTY Frame\nACTION_CONSTRAINT Emit\n")
    r = vf.run_tlc("LinkedForest", cfg)
    chk.add_tlc(r, part)
    make, apply, project = world(max_n, with_handler, same_value)
    init = {"made": 0 if with_handler else max_n, "parent": [0] * max_n,
            "kids": [[] for _ in range(max_n)], "owned": [], "root": 0}
    vf.lockstep(chk, part, r.json, init, make, apply, project, walks=walks, walk_depth=40)
    chk.sample({"part": part, "edge": r.json[len(r.json) // 2]})


def elements_distinct(chk):
    forest(chk, "elements", 5 if vf.THOROUGH else 4, False, False, 60)


def elements_equal_values(chk):
    forest(chk, "equal-values", 4, False, True, 60)


def handler(chk):
    forest(chk, "handler", 4, True, False, 60)


def handler_equal_values(chk):
    forest(chk, "handler-equal", 4, True, True, 30)


PARTS = [elements_distinct, elements_equal_values, handler, handler_equal_values]
