"""C17: replays, through the Python modules built from the working tree, every input of the native oracle and every release order."""
import sys, os, json, gc, itertools, subprocess, signal

top, out = sys.argv[1], sys.argv[2]
# freed memory is filled (MALLOC_PERTURB_ must be set when the process starts)
if "MALLOC_PERTURB_" not in os.environ:
    os.environ["MALLOC_PERTURB_"] = "181"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(top, "site"))
thorough = os.environ.get("VERIF_TIER") == "thorough"
import numpy as np

R = {"states": 0, "steps": 0, "traces": 0, "evals": 0, "per": {}, "failures": {}, "bounds": {}, "violations": [], "samples": []}


def crumb(s):
    with open(out + ".crumb", "w") as f:
        f.write(s[:4000])


def check(ok, rule, key, detail):
    R["evals"] += 1
    R["per"][rule] = R["per"].get(rule, 0) + 1
    if not ok:
        k = rule + ":" + key
        R["failures"][k] = R["failures"].get(k, 0) + 1
        if R["failures"][k] <= 3:
            R["violations"].append({"key": k, "detail": str(detail() if callable(detail) else detail)[:1500]})
    return ok


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0 and b.size == 0:
        return True
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-11, atol=1e-11))


def eq(got, want, rule, key, what):
    R["steps"] += 1
    return check(same(got, want), rule, key, lambda: "%s: got %s, native %s" % (what, np.asarray(got).tolist(), want))


def attempt(f, rule, key, what):
    try:
        return f()
    except Exception as e:  # noqa
        check(False, rule, key, "%s raised %s: %s" % (what, type(e).__name__, str(e)[:500]))
        return None


import Caribou  # noqa
from Caribou import Geometry as G, Topology as T  # noqa
G = sys.modules["Caribou.Geometry"]
T = sys.modules["Caribou.Topology"]
GM = sys.modules.get("Caribou.Geometry.Geometry", G)
TM = sys.modules.get("Caribou.Topology.Topology", T)
DIM = {1: Caribou._1D, 2: Caribou._2D, 3: Caribou._3D}
ORD = {1: Caribou.Linear, 2: Caribou.Quadratic}


def cls(mod, name):
    return getattr(mod, name, None)


def judge(e, name, ans, extra, key, what):
    """every operation of one element"""
    R["states"] += 1
    R["traces"] += 1
    crumb(what)
    c = cls(GM, name)
    if not check(c is not None and isinstance(e, c), "requested-class", key, "%s is a %s, expected %s" % (what, type(e).__name__, name)):
        return

    def a(f, rule):
        return attempt(f, rule, key, what)
    eq(a(lambda: e.number_of_nodes(), "number_of_nodes"), ans["N"], "number_of_nodes", key, what)
    eq(a(lambda: e.number_of_gauss_nodes(), "number_of_gauss_nodes"), ans["G"], "number_of_gauss_nodes", key, what)
    eq(a(lambda: e.number_of_boundary_elements(), "number_of_boundary_elements"), ans["B"], "number_of_boundary_elements", key, what)
    eq(e.nodes(), ans["nodes"], "nodes", key, what)
    for i, n in enumerate(ans["node"]):
        eq(e.node(i), n, "node", key, "%s node %d" % (what, i))
    eq(e.center(), ans["center"], "center", key, what)
    gs = e.gauss_nodes()
    if check(len(gs) == len(ans["gauss"]), "gauss", key, "%s: %d gauss nodes" % (what, len(gs))):
        for i, g in enumerate(ans["gauss"]):
            for src in (gs[i], e.gauss_node(i)):
                eq(src.position, g["position"], "gauss", key, "%s gauss %d position" % (what, i))
                eq(src.weight, g["weight"], "gauss", key, "%s gauss %d weight" % (what, i))
    for p in ans["pts"]:
        R["states"] += 1
        xi = p["xi"]
        w = "%s at %s" % (what, xi)
        eq(e.L(xi), p["L"], "L", key, w)
        eq(e.dL(xi), p["dL"], "dL", key, w)
        eq(e.world_coordinates(xi), p["x"], "world_coordinates", key, w)
        eq(e.jacobian(xi), p["J"], "jacobian", key, w)
        eq(e.contains_local(xi, 0.3), p["in3"], "contains_local", key, w + " eps=0.3")
        eq(e.contains_local(xi, 1e-15), p["in15"], "contains_local", key, w + " eps=1e-15")
        if "back" in p:
            eq(e.contains_local(xi), p["in"], "contains_local-default", key, w)
            b = np.asarray(e.local_coordinates(p["x"]))
            nb = np.asarray(p["back"])
            R["steps"] += 1
            check(b.shape == nb.shape and np.allclose(b, nb, rtol=1e-8, atol=1e-8), "local_coordinates", key, lambda: "%s: got %s, native %s" % (w, b.tolist(), p["back"]))
    for p in ans["border"]:
        eq(e.contains_local(p["xi"]), p["in"], "contains_local-default", key, "%s at the border %s" % (what, p["xi"]))
    if extra and "normal" in extra:
        eq(e.normal(), extra["normal"], "normal", key, what)
    check(isinstance(str(e), str) and len(str(e)) > 0, "str", key, what)


def forms(m):
    """the ways of passing a node matrix"""
    a = np.array(m, dtype=float)
    f = [("list", a.tolist()), ("C", a.copy()), ("F", np.array(a, order="F")), ("strided", np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]), ("readonly", None)]
    r = a.copy()
    r.setflags(write=False)
    f[-1] = ("readonly", r)
    if np.all(a == np.float32(a)):
        f.append(("float32", a.astype(np.float32)))
    if np.all(a == np.round(a)):
        f.append(("int", a.astype(int)))
    return f


def k_element(d):
    fam, dim, order, name = d["family"], d["dim"], d["order"], d["class"]
    F = getattr(G, fam)
    key = name
    mk = []
    if d["given"] is None:
        has_dim = fam in ("Segment", "Triangle", "Quad")
        dflt = {"Segment": 1, "Triangle": 2, "Quad": 2}.get(fam, 3)
        if has_dim:
            mk.append(("(dim, order)", lambda: F(DIM[dim], ORD[order])))
            mk.append(("(dimension=, order=)", lambda: F(order=ORD[order], dimension=DIM[dim])))
            if order == 1:
                mk.append(("(dim)", lambda: F(DIM[dim])))
        if dim == dflt:
            mk.append(("(order)", lambda: F(ORD[order])))
            if order == 1:
                mk.append(("()", lambda: F()))
    else:
        m = d["given"]
        for tag, v in forms(m):
            mk.append(("nodes " + tag, lambda v=v: F(v)))
        if fam != "Segment" and order == 1:
            mk.append(("nodes, Linear", lambda: F(m, Caribou.Linear)))
            mk.append(("n0.., Linear", lambda: F(*m, order=Caribou.Linear)))
        pts = [x[0] for x in m] if dim == 1 else m
        mk.append(("n0..", lambda: F(*pts)))
        mk.append(("n0=..", lambda: F(**{"n%d" % i: x for i, x in enumerate(pts)})))
        if dim == 1:
            mk.append(("flat nodes", lambda: F([x[0] for x in m])))
    for tag, f in mk:
        what = "%s%s config %d" % (name, tag, d["config"])
        e = attempt(f, "construct", key, what)
        if e is not None:
            judge(e, name, d["answers"], d["extra"], key, what)


def k_promoted(d):
    F = getattr(G, d["family"])
    m = d["given"]
    for tag, f in [("nodes, Quadratic", lambda: F(m, Caribou.Quadratic)), ("n0.., Quadratic", lambda: F(*m, Caribou.Quadratic)), ("order=", lambda: F(nodes=np.asfortranarray(m), order=Caribou.Quadratic))]:
        what = "%s(%s) from linear nodes %s" % (d["class"], tag, m)
        e = attempt(f, "construct", d["class"], what)
        if e is not None:
            judge(e, d["class"], d["answers"], d["extra"], d["class"], what)


def k_rect(d):
    F = G.RectangularHexahedron
    o = ORD[d["order"]]
    n = d["args"]
    if n == 0:
        mk = [("(order)", lambda: F(o)), ("order=", lambda: F(order=o))] + ([("()", lambda: F())] if d["order"] == 1 else [])
    elif n == 1:
        mk = [("center", lambda: F(o, d["center"])), ("center=", lambda: F(order=o, center=np.array(d["center"])))]
    elif n == 2:
        mk = [("center, size", lambda: F(o, d["center"], d["size"])), ("size=, center=", lambda: F(order=o, size=d["size"], center=d["center"]))]
    elif n == 3:
        mk = [("center, size, rotation", lambda: F(o, d["center"], d["size"], d["rotation"])), ("rotation F", lambda: F(o, d["center"], d["size"], rotation=np.asfortranarray(d["rotation"])))]
    elif n == 8:
        g = d["given"]
        mk = [("nodes, order", lambda: F(g, o)), ("n0.., order", lambda: F(*g, o))]
        if d["order"] == 1:
            mk += [("nodes", lambda: F(np.array(g))), ("n0..", lambda: F(*g))]
    else:
        g = d["given"]
        mk = [("20 nodes", lambda: F(np.array(g))), ("n0..n19", lambda: F(*g))]
    for tag, f in mk:
        what = "%s %s %s" % (d["class"], tag, {k: d[k] for k in ("center", "size", "rotation") if k in d})
        e = attempt(f, "construct", d["class"], what)
        if e is not None:
            judge(e, d["class"], d["answers"], None, d["class"] + " " + tag, what)


def k_grid(d):
    D = d["dim"]
    key = "Grid%dD" % D
    what = "%s(%s, %s, %s)" % (key, d["anchor"], d["n"], d["size"])
    crumb(what)
    g = attempt(lambda: getattr(T, key)(d["anchor"], d["n"], d["size"]), "construct", key, what)
    if g is None:
        return
    g2 = attempt(lambda: getattr(T, key)(size=d["size"], anchor_position=np.array(d["anchor"]), n=np.array(d["n"])), "construct", key, what)
    R["traces"] += 1
    for h in (g, g2):
        if h is None:
            continue
        eq(h.number_of_cells(), d["cells"], "grid-counts", key, what)
        eq(h.number_of_nodes(), d["nodes"], "grid-counts", key, what)
        eq(h.anchor_position(), d["A"], "grid-anchor", key, what)
        eq(h.N(), d["N"], "grid-N", key, what)
        eq(h.H(), d["H"], "grid-H", key, what)
        eq(h.size(), d["S"], "grid-size", key, what)
    base = getattr(TM, "BaseGrid%dD" % D)
    for i, n in enumerate(d["node"]):
        R["states"] += 1
        w = "%s node %d" % (what, i)
        eq(g.node(i), n["x"], "grid-node", key, w)
        eq(g.node_coordinates_at(i), n["c"], "grid-node", key, w)
        eq(g.node_index_at(n["c"]), i, "grid-node", key, w)
        eq(base.node(g, n["c"]), n["x"], "grid-node", key, w + " by coordinates")
    rect = cls(GM, "RectangularHexahedronLinear") if D == 3 else None
    for i, c in enumerate(d["cell"]):
        R["states"] += 1
        w = "%s cell %d" % (what, i)
        eq(g.cell_coordinates_at(i), c["c"], "grid-cell", key, w)
        eq(g.cell_index_at(c["c"]), i, "grid-cell", key, w)
        eq(g.node_indices_of(i), c["ids"], "grid-cell", key, w)
        eq(g.node_indices_of(c["c"]), c["ids"], "grid-cell", key, w)
        if D == 3:  # the 2D cells (rectangular quads) are not bound
            for e in (attempt(lambda: g.cell_at(i), "grid-cell_at", key, w), attempt(lambda: g.cell_at(c["c"]), "grid-cell_at", key, w)):
                if e is not None:
                    check(isinstance(e, rect), "grid-cell_at", key, "%s is a %s" % (w, type(e).__name__))
                    eq(e.nodes(), c["nodes"], "grid-cell_at", key, w)
    for i, e in enumerate(d["edges"]):
        eq(g.edge(i), e, "grid-edge", key, "%s edge %d" % (what, i))
    eq(g.number_of_edges(), len(d["edges"]), "grid-counts", key, what)
    if D == 3:
        eq(g.number_of_faces(), len(d["faces"]), "grid-counts", key, what)
        for i, f in enumerate(d["faces"]):
            eq(g.face(i), f, "grid-face", key, "%s face %d" % (what, i))
    for p in d["pts"]:
        R["states"] += 1
        x = p["x"]
        w = "%s point %s" % (what, x)
        eq(g.contains(x), p["in"], "grid-contains", key, w)
        eq(g.contains(x, 0.5), p["in1"], "grid-contains", key, w)
        eq(g.contains(world_coordinates=x, epsilon=0.5), p["in1"], "grid-contains", key, w)
        eq(g.cell_index_containing(x), p["ci"], "grid-locate", key, w)
        eq(g.cell_index_containing(x, True), p["ci"], "grid-locate", key, w)
        eq(sorted(g.cells_around(x)), sorted(p["around"]), "grid-around", key, w)
        eq(base.cell_coordinates_at(g, x, True), p["ccb"], "grid-locate", key, w)
        if p["in"]:
            eq(g.cell_index_containing(x, test_for_boundary=False), p["ci0"], "grid-locate", key, w)
            eq(base.cell_coordinates_at(g, x, False), p["cc"], "grid-locate", key, w)


def k_hashgrid(d):
    F = getattr(G, d["family"])
    name = d["class"]
    els = [attempt(lambda: (F(*m, ORD[1]) if d["order"] == 1 else F(np.array(m))), "construct", name, str(m)) for m in d["elements"]]
    c = cls(TM, name)
    if not check(c is not None, "hashgrid-class", name, "no class " + name):
        return
    made = [("class(cell_size)", lambda: c(d["cell_size"])), ("class(cell_size, n)", lambda: c(d["cell_size"], 5)),
            ("HashGrid(type, cell_size)", lambda: T.HashGrid(type(els[0]), d["cell_size"])), ("HashGrid(type, cell_size, n)", lambda: T.HashGrid(element_type=type(els[0]), cell_size=d["cell_size"], number_of_elements=3))]
    for tag, f in made:
        what = "%s %s cell_size %s" % (name, tag, d["cell_size"])
        crumb(what)
        h = attempt(f, "hashgrid-construct", name, what)
        if not check(h is not None and isinstance(h, c), "hashgrid-class", name, "%s is a %s" % (what, type(h).__name__)):
            continue
        ok = True
        for i, e in enumerate(els):
            ok = ok and e is not None and attempt(lambda: (h.add(e, i + 3), True)[1], "hashgrid-add", name, "%s element %d" % (what, i)) is True
        if not ok:
            continue
        R["traces"] += 1
        for p in d["pts"]:
            R["states"] += 1
            r = h.get(p["p"])
            eq(sorted(r), sorted(p["r"]), "hashgrid-get", name, "%s at %s" % (what, p["p"]))
    check(T.HashGrid(int, 1.) is None, "hashgrid-class", name, "HashGrid of an unknown type")


def proto(d):
    fam, dim, order = d["family"], d["dim"], d["order"]
    F = getattr(G, fam)
    return F(DIM[dim], ORD[order]) if fam in ("Segment", "Triangle", "Quad") else F(ORD[order])


def use_mesh(m, d, key, what):
    n = np.array(d["nodes"])
    eq(m.number_of_nodes(), len(n), "mesh", key, what)
    eq(m.dimension(), d["dim"], "mesh", key, what)
    for i in range(len(n)):
        eq(np.ravel(m.position(i)), np.ravel(n[i]), "mesh-position", key, "%s node %d" % (what, i))
    for idx in ([], [0], [len(n) - 1, 0], list(range(len(n))), [1, 1, 0]):
        eq(np.asarray(m.positions(idx)).reshape(len(idx), -1) if idx else [], n[idx] if idx else [], "mesh-positions", key, "%s indices %s" % (what, idx))


def use_domain(dom, d, key, what):
    eq(dom.number_of_elements(), len(d["ids"]), "domain", key, what)
    eq(dom.canonical_dimension(), d["canonical"], "domain", key, what)
    eq(dom.number_of_nodes_per_elements(), d["per"], "domain", key, what)
    for i, ids in enumerate(d["ids"]):
        eq(np.ravel(dom.element_indices(i)), ids, "domain-indices", key, "%s element %d" % (what, i))
        e = dom.element(i)
        check(isinstance(e, cls(GM, d["class"])), "domain-element", key, "%s element %d is a %s" % (what, i, type(e).__name__))
        eq(e.nodes(), d["elements"][i], "domain-element", key, "%s element %d" % (what, i))


def use_container(c, d, key, what):
    b = d["embed"]
    bps = c.barycentric_points
    if check(len(bps) == len(b["bp"]), "embed", key, "%s: %d barycentric points" % (what, len(bps))):
        for i, p in enumerate(b["bp"]):
            if p["e"] is not None:
                eq(bps[i].element_index, p["e"], "embed", key, "%s point %d" % (what, i))
                eq(np.ravel(bps[i].local_coordinates), p["xi"], "embed", key, "%s point %d" % (what, i))
    eq(sorted(c.outside_nodes), sorted(b["outside"]), "embed-outside", key, what)
    n = len(b["r"])
    eq(np.asarray(c.interpolate(d["field"]))[:n], b["r"], "interpolate", key, what)
    eq(np.ravel(c.interpolate(d["field1"]))[:n], b["r1"], "interpolate", key, what)
    eq(np.asarray(c.interpolate(np.asfortranarray(d["field"])))[:n], b["r"], "interpolate", key, what + " column major")
    x = np.array(b["points"])[0]
    check(len(list(c.closest_elements(x))) > 0, "closest", key, what)


def k_mesh(d):
    key = d["class"]
    E = attempt(lambda: proto(d), "construct", key, key)
    if E is None:
        return
    ids = np.array(d["ids"])
    for tag, nodes in forms(d["nodes"]):
        what = "%s mesh, nodes %s" % (key, tag)
        crumb(what)
        m = attempt(lambda: T.Mesh(nodes), "mesh-construct", key, what)
        if m is None:
            continue
        R["states"] += 1
        R["traces"] += 1
        use_mesh(m, d, key, what)
        if isinstance(nodes, np.ndarray) and nodes.flags.writeable:
            nodes[...] = 77  # the mesh owns its nodes
            use_mesh(m, d, key, what + ", source overwritten")
    made = []
    m = T.Mesh(d["nodes"])
    for t in (np.uint32, np.int32, np.int64, np.uint64, np.uint8, list):
        for order in "CF":
            for named in (False, True):
                v = ids.tolist() if t is list else np.array(ids, dtype=t, order=order)
                what = "%s add_domain %s %s %s" % (key, "named" if named else "unnamed", getattr(t, "__name__", t), order)
                crumb(what)
                name = "d%d" % len(made)
                dom = attempt(lambda: m.add_domain(name, E, v) if named else m.add_domain(E, v), "add_domain", key, what)
                if dom is None:
                    continue
                R["states"] += 1
                made.append((name if named else None, dom))
                eq(m.number_of_domains(), len(made), "add_domain", key, what)
                use_domain(dom, d, key, what)
                check(dom.mesh() is m, "domain-mesh", key, what)
                if isinstance(v, np.ndarray):
                    v[...] = 0  # the domain owns its connectivity
                    use_domain(dom, d, key, what + ", source overwritten")
                lst = m.domains()
                check(len(lst) == len(made) and all(a[1] is b[1] for a, b in zip(lst, made)), "domains", key, lambda: "%s: %s" % (what, lst))
                check(len(set(a[0] for a in lst)) == len(lst), "domains", key, lambda: "%s: %s" % (what, lst))
                check(m.domain(len(made) - 1) is dom, "domain", key, what)
                if named:
                    check(m.domain(name) is dom, "domain", key, what)
                check(m.domain("nothing by that name") is None, "domain", key, what)
    # a rejected domain leaves the mesh as it was
    for bad in (ids[:, :-1] if ids.shape[1] > 1 else None, np.hstack([ids, ids[:, :1]])):
        if bad is not None:
            n = m.number_of_domains()
            try:
                m.add_domain("bad", E, np.array(bad))
                check(False, "add_domain-rejects", key, "%d columns accepted" % bad.shape[1])
            except Exception:
                check(m.number_of_domains() == n and m.domain("bad") is None, "add_domain-rejects", key, "the mesh changed")
    if d["embed"]:
        dom = m.domain(0)
        pts = d["embed"]["points"]
        for tag, p in forms(pts):
            what = "%s embed %s" % (key, tag)
            crumb(what)
            c = attempt(lambda: dom.embed(p), "embed", key, what)
            if c is not None:
                R["states"] += 1
                use_container(c, d, key, what)


def churn():
    """reuse whatever was freed"""
    gc.collect()
    keep = []
    for n in (1, 2, 3, 4, 5, 8, 20, 40):
        mm = T.Mesh(np.full((n, 3), 1e5 + n))
        keep.append((mm, mm.add_domain(G.Tetrahedron(Caribou.Linear), np.full((n, 4), n - 1))))
    keep.append([np.full(s, 3.25e7) for s in (2, 3, 4, 6, 8, 12, 16, 24, 32, 60, 64, 120)])
    return keep


def lifetime(d, scenario):
    """in a child process: objects, and the order in which their Python names are released"""
    src, order = scenario
    key = d["class"]
    E = proto(d)
    nodes = np.array(d["nodes"])
    ids = np.array(d["ids"], dtype=np.uint32)
    m = T.Mesh(nodes)
    o = {"mesh": m}
    dom = m.add_domain("a", E, ids)
    if src == "add":
        pass
    elif src == "index":
        del dom
        gc.collect()
        dom = m.domain(0)
    elif src == "name":
        del dom
        gc.collect()
        dom = m.domain("a")
    elif src == "list":
        del dom
        gc.collect()
        o["list"] = m.domains()
        dom = o["list"][0][1]
    elif src == "unnamed":
        m2 = T.Mesh(nodes)
        dom = m2.add_domain(E, ids)
        o["mesh"] = m2
        m = m2
    elif src == "function":
        dom = TM.add_domain(m, "b", E, ids)
    o["domain"] = dom
    o["element"] = dom.element(1)
    o["nodes"] = dom.element(0).nodes()
    o["pos"] = m.position(1)
    o["poss"] = m.positions([1, 0])
    o["gauss"] = o["element"].gauss_nodes()
    if d["embed"]:
        o["container"] = dom.embed(d["embed"]["points"])
        o["bp"] = o["container"].barycentric_points
    del m, dom
    m2 = None

    def use(what):
        if "mesh" in o:
            use_mesh(o["mesh"], d, key, what)
            check(o["mesh"].number_of_domains() >= 1, "lifetime-mesh", key, what)
            use_domain(o["mesh"].domain(0), d, key, what + " (through the mesh)")
        if "domain" in o:
            use_domain(o["domain"], d, key, what)
            mm = o["domain"].mesh()
            use_mesh(mm, d, key, what + " (mesh of the domain)")
            if d["embed"]:
                use_container(o["domain"].embed(d["embed"]["points"]), d, key, what + " (embedding again)")
        if "list" in o:
            use_domain(o["list"][0][1], d, key, what + " (from the list)")
        if "container" in o:
            use_container(o["container"], d, key, what)
        if "element" in o:
            eq(o["element"].nodes(), d["elements"][1], "lifetime-element", key, what)
        if "nodes" in o:
            eq(o["nodes"], d["elements"][0], "lifetime-array", key, what)
        if "pos" in o:
            eq(np.ravel(o["pos"]), np.ravel(d["nodes"][1]), "lifetime-array", key, what)
        if "poss" in o:
            eq(np.asarray(o["poss"]).reshape(2, -1), [d["nodes"][1], d["nodes"][0]], "lifetime-array", key, what)
        if "gauss" in o:
            check(all(g.weight > 0 for g in o["gauss"]), "lifetime-gauss", key, what)
        if "bp" in o:
            eq(o["bp"][0].element_index, d["embed"]["bp"][0]["e"], "lifetime-bp", key, what)
    use("%s %s before any release" % (key, src))
    done = []
    for x in order:
        if x not in o:
            continue
        del o[x]
        done.append(x)
        keep = churn()
        what = "%s (domain from %s) after releasing %s" % (key, src, " then ".join(done))
        crumb(what)
        use(what)
        del keep
    R["states"] += len(done)
    R["traces"] += 1


def forked(f, what, key):
    """runs f in a child; a crash is a violation"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        for k in ("states", "steps", "traces", "evals"):
            R[k] = 0
        R["per"], R["failures"], R["violations"] = {}, {}, []
        signal.alarm(600 if thorough else 60)
        try:
            f()
        except BaseException as e:  # noqa
            check(False, "exception", key, "%s: %s: %s" % (what, type(e).__name__, e))
        os.write(w, json.dumps({k: R[k] for k in ("states", "steps", "traces", "evals", "per", "failures", "violations")}).encode()) if True else None
        os.close(w)
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        c = json.loads(data.decode())
        for k in ("states", "steps", "traces", "evals"):
            R[k] += c[k]
        for k, n in c["per"].items():
            R["per"][k] = R["per"].get(k, 0) + n
        for k, n in c["failures"].items():
            R["failures"][k] = R["failures"].get(k, 0) + n
        R["violations"] += c["violations"][:10]
    except ValueError:
        doing = open(out + ".crumb").read() if os.path.exists(out + ".crumb") else ""
        check(False, "crash", key, "%s: the interpreter ended with status %s; doing: %s" % (what, st, doing))


def main():
    native = out + ".native"
    subprocess.run([os.path.join(top, "c17_native"), native], check=True)
    data = [json.loads(x) for x in open(native)]
    os.unlink(native)
    assert data[-1]["kind"] == "end"
    part, parts = int(os.environ.get("MC_PART", "0")), int(os.environ.get("MC_PARTS", "1"))
    K = {"element": k_element, "promoted": k_promoted, "rect": k_rect, "grid": k_grid, "hashgrid": k_hashgrid, "mesh": k_mesh}
    for i, d in enumerate(data[:-1]):
        if i % parts == part:
            forked(lambda: K[d["kind"]](d), "%s %s" % (d["kind"], d.get("class", "")), "%s %s" % (d["kind"], d.get("class", "")))
    meshes = [d for d in data if d["kind"] == "mesh"]
    names = ["mesh", "domain", "container", "list"]
    rest = ["element", "nodes", "pos", "poss", "gauss", "bp"]
    jobs = []
    for i, d in enumerate(meshes):
        for src in ("add", "index", "name", "list", "unnamed", "function"):
            present = [n for n in names if (n != "list" or src == "list") and (n != "container" or d["embed"])]
            for perm in itertools.permutations(present):
                jobs.append((d, (src, perm)))
                if thorough:
                    for r in rest:  # ... and every position of a dependent value among the owners
                        for at in range(len(perm)):
                            jobs.append((d, (src, perm[:at] + (r,) + perm[at:])))
    for i, (d, s) in enumerate(jobs):
        if i % parts == part:
            forked(lambda: lifetime(d, s), "release order %s" % (s,), "lifetime %s" % d["class"])
    # IO
    sc = out + ".scratch.vtk"
    open(sc, "w").write("# vtk DataFile Version 3.0\nx\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 4 double\n0 0 0\n1 0 0\n0 1 0\n0 0 1\nCELLS 1 5\n4 0 1 2 3\nCELL_TYPES 1\n10\n")

    def io():
        r = T.IO.VTKReader(sc)
        check(type(r).__name__ == "VTKReader3D", "reader", "class", type(r).__name__)
        check("4 points" in str(r) and "1 cells" in str(r), "reader", "str", str(r))
        r2 = T.IO.VTKReader(filepath=sc, dimension=3)
        check(str(r2) == str(r), "reader", "str", str(r2))
        for dim in (1, 2):
            try:
                T.IO.VTKReader(sc, dim)
                check(False, "reader", "rejects", "a 3D file was accepted as %dD" % dim)
            except RuntimeError:
                check(True, "reader", "rejects", "")
        for dim in (0, 4):
            try:
                T.IO.VTKReader(sc, dim)
                check(False, "reader", "rejects", "dimension %d accepted" % dim)
            except RuntimeError:
                check(True, "reader", "rejects", "")
        try:
            T.IO.VTKReader(sc + ".missing")
            check(False, "reader", "missing", "a missing file was accepted")
        except Exception:
            check(True, "reader", "missing", "")
        R["states"] += 8
    if part == 0:
        forked(io, "VTKReader", "reader")
    os.unlink(sc)
    R["bounds"]["inputs"] = "every overload of every bound class on 5 configurations, a lattice of %d^d local points; every grid up to 3 cells per axis; 343 hash grid queries per type" % (6 if thorough else 4)
    R["bounds"]["release orders"] = "every order of release of mesh, domain, embedding and list for every way of obtaining the domain, with freed memory overwritten and reused"
    R["samples"] = ["%s %s" % (d["class"], s) for d, s in jobs[::max(1, len(jobs) // 12)]]
    R["violations"] = R["violations"][:100]
    json.dump(R, open(out + ".tmp", "w"))
    os.rename(out + ".tmp", out)


main()
