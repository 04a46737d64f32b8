"""Index based hierarchy: specs/IndexForest.tla replayed transition by transition."""
import vf

NAMES = ["a", "b", "c", "d", "e"]


def hierarchy(chk, part, n, start, walks, values=None):
    from nonlinear_avoidance.graph_handler import GraphHandler

    names = NAMES[:n]
    tr = values or {k: k for k in names + ["z"]}
    back = {repr(v): k for k, v in tr.items()}
    cfg = ("SPECIFICATION Spec\nCONSTANTS Names = {%s} Unknown = \"z\"\n"
           "CONSTANT Start <- Start%d\nVIEW View\nINVARIANTS Symmetric DescendingComplete\n"
           "PROPERTY ErrorsChangeNothing\nACTION_CONSTRAINT Emit\n"
           % (", ".join(f'"{k}"' for k in names), start))
    mc = ("---- MODULE MCIndexForest ----\nEXTENDS IndexForest\nStart0 == <<>>\n"
          "Start2 == <<\"a\", \"b\">>\n====\n")
    r = vf.run_tlc("MCIndexForest", cfg, files={"MCIndexForest.tla": mc})
    chk.add_tlc(r, part)

    def make(_):
        if start == 0:
            g = GraphHandler()
        elif values is not None:
            g = GraphHandler(n_nodes=start)
        else:
            g = GraphHandler(node_values=[tr[k] for k in names[:start]])
        return {"g": g, "order": names[:start]}

    def apply(w, a):
        g = w["g"]
        try:
            if a["op"] == "set_root":
                g.set_root(tr[a["n"]])
                w["order"] = w["order"] + [a["n"]]
            elif a["op"] == "add":
                g.add_element_with_parent(tr[a["n"]], tr[a["p"]])
                w["order"] = w["order"] + [a["n"]]
            elif a["op"] == "set_parent":
                g.set_parent_of_element(tr[a["n"]], tr[a["p"]])
            elif a["op"] == "query":
                for f in (g.get_parent, g.get_children):
                    try:
                        f(tr[a["n"]])
                        return "answered"
                    except ValueError:
                        pass
                return "ValueError"
        except ValueError:
            return "ValueError"
        return "ok"

    def name(v):
        return "-" if v is None else back.get(repr(v), f"?{v!r}")

    def project(w):
        # the harness keeps its own log of successful insertions
        g, order = w["g"], w["order"]
        desc = [name(v) for v in g.get_nodes_hirarchy_descending()]
        return {"n": g.n_nodes, "roots": [name(v) for v in g.roots],
                "root_idx": list(g.get_root_indices()),
                "parents": [name(g.get_parent(tr[k])) for k in order],
                "children": [[name(v) for v in g.get_children(tr[k])] for k in order],
                "descending": desc, "order": order}

    init = [e for e in r.json if len(e["pre"]["order"]) == start]
    base = [e["pre"] for e in init if all(p == "-" for p in e["pre"]["parents"])][0]
    vf.lockstep(chk, part, r.json, base, make, apply, project, walks=walks, walk_depth=25)
    chk.sample({"part": part, "edge": r.json[len(r.json) // 2]})


def from_empty(chk):
    hierarchy(chk, "from-empty", 4, 0, 60)


def from_values(chk):
    hierarchy(chk, "from-values", 5 if vf.THOROUGH else 4, 2, 60)


def from_count(chk):
    hierarchy(chk, "from-count", 4, 2, 40,
              values={"a": 0, "b": 1, "c": 2, "d": 3, "z": 99})


PARTS = [from_empty, from_values, from_count]
