"""Constant propagation through the face-generation code of every cell type; the
resulting face tables are judged combinatorially (closed oriented boundary)."""
from scn import Scn, SOFT, Unk, V
from fw import *
from fractions import Fraction as Fr

MIN = 20

# reference coordinates in the ordering that the cell's own node numbering implies
HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
PRI = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)]
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
ELEMS = {
    "ET_BEAM": (2, [1, 1], {"FT_POINT": 2}, None),
    "ET_TRIANGLE": (3, [2] * 3, {"FT_LINE": 3}, None),
    "ET_QUADRILATERAL": (4, [2] * 4, {"FT_LINE": 4}, None),
    "ET_TETRAHEDRON": (4, [3] * 4, {"FT_TRIANGLE": 4}, TET),
    "ET_TRIANGULAR_PRISM": (6, [3, 3, 4, 4, 4], {"FT_TRIANGLE": 2, "FT_QUADRILATERAL": 3}, PRI),
    "ET_HEXAHEDRON": (8, [4] * 6, {"FT_QUADRILATERAL": 6}, HEX),
}


def vol6(faces, X):
    """6 * signed volume by the divergence theorem (fan triangulation)"""
    s = Fr(0)
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = X[f[0]], X[f[i]], X[f[i + 1]]
            s += a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    return s


def planar(f, X):
    if len(f) < 4:
        return True
    a, b, c, d = [X[i] for i in f[:4]]
    u = [b[k] - a[k] for k in range(3)]
    v = [c[k] - a[k] for k in range(3)]
    w = [d[k] - a[k] for k in range(3)]
    det = u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])
    return det == 0


def closed(ctx, key, faces, where, n, X, sizes):
    """faces: tuples of local node numbers"""
    ctx.ob(key + ":own-nodes", all(len(set(f)) == len(f) and all(0 <= i < n for i in f) for f in faces) and set(i for f in faces for i in f) == set(range(n)), where,
           "faces %s do not use exactly the cell's %d nodes, each once per face" % (faces, n))
    ctx.ob(key + ":face-count", sorted(len(f) for f in faces) == sorted(sizes), where, "faces %s have wrong sizes, expected %s" % (faces, sizes))
    if n < 3:
        ctx.ob(key + ":distinct", len(set(faces)) == len(faces), where, "duplicate faces %s" % (faces,))
        return
    if all(len(f) == 2 for f in faces):
        # closed oriented loop: every node is left once and entered once, single cycle following node order
        nx = {}
        ok = True
        for a, b in faces:
            ok &= a not in nx
            nx[a] = b
        cyc, x = [], 0
        for _ in range(n):
            cyc.append(x)
            x = nx.get(x)
            if x is None:
                break
        ok &= x == 0 and cyc == list(range(n))
        ctx.ob(key + ":closed", ok, where, "edges %s do not go once round the cell in node order" % (faces,))
        return
    edges = {}
    for f in faces:
        for i in range(len(f)):
            e = (f[i], f[(i + 1) % len(f)])
            edges[e] = edges.get(e, 0) + 1
    bad = [e for e, k in edges.items() if k != 1 or edges.get((e[1], e[0]), 0) != 1]
    ctx.ob(key + ":closed", not bad, where, "directed edges %s are not matched once in the opposite direction: boundary not closed or orientations disagree" % bad[:6])
    if X is not None and not bad:
        ctx.ob(key + ":planar", all(planar(f, X) for f in faces), where, "a face of %s is not a side of the reference cell" % (faces,))
        v = vol6(faces, X)
        full = vol6({4: [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]}.get(n, []), X) if n == 4 else {6: Fr(3), 8: Fr(6)}[n]
        ctx.ob(key + ":outward-or-inward", abs(v) == abs(full), where, "signed volume %s/6 enclosed by the faces is not the reference cell's" % v)


def gen_faces(ctx, et):
    s = Scn(ctx.prog)
    n, sizes, types, X = ELEMS[et]
    el = s.new("CMshElement")
    s.call(el, "setElementType", s.enum("EElementType", et))
    ids = [V("n%d" % i) for i in range(n)]
    for x in ids:
        s.call(el, "addNodeId", x)
    fv = s.vector(s.cname("CMshFace"), "faces")
    s.call(el, "generateFaces", fv)
    fc = s.cname("CMshFace")
    idx = {x: i for i, x in enumerate(ids)}
    faces, fts = [], []
    for i in range(s.size(fv)):
        f = s.at(fv, i, fc)
        k = s.int(s.call(f, "nbNodeIds"))
        nodes = []
        for j in range(k):
            v = s.num(s.call(f, "nodeId", j))
            nodes.append(idx.get(v, alg.show(v)[:30]))
        faces.append(tuple(nodes))
        fts.append(s.int(s.call(f, "faceType")))
    ctx.seen(s.I)
    return s, faces, fts


def orient(faces, X):
    return vol6(faces, X) > 0


def check(ctx):
    ctx.rule("every directed edge of the face set occurs exactly once, and so does its reverse; faces are sides of the reference cell and enclose its volume; all cell types agree on outward orientation")
    ori = {}
    for et, (n, sizes, types, X) in ELEMS.items():
        s = Scn(ctx.prog)
        where = s.where("CMshElement", "generateFaces")
        try:
            s, faces, fts = gen_faces(ctx, et)
        except SOFT as e:
            ctx.ob(et, None, where, str(e))
            continue
        ctx.count("cell types")
        if any(not isinstance(i, int) for f in faces for i in f):
            ctx.ob(et + ":own-nodes", False, where, "a face of %s carries ids that are not the cell's node ids: %s" % (et, faces))
            continue
        closed(ctx, et, faces, where, n, X, sizes)
        want = {1: "FT_POINT", 2: "FT_LINE", 3: "FT_TRIANGLE", 4: "FT_QUADRILATERAL"}
        e = ctx.prog.enums["EFaceType"]
        ctx.ob(et + ":face-type", all(e[want[len(f)]] == t for f, t in zip(faces, fts) if len(f) in want), where, "face types %s do not match node counts of %s" % (fts, faces))
        if X is not None:
            ori[et] = orient(faces, X)
    ctx.need("cell types", 6)
    if len(ori) == 3:
        ctx.ob("orientation-agrees", len(set(ori.values())) == 1, where, "cell types disagree on face orientation (True = outward): %s" % ori)
    # geometric cells: closed polyhedron from a tetrahedron / prism / hexahedron
    for cls, n, sizes, X, et in (("CGeoTetrahedron", 4, [3] * 4, TET, "ET_TETRAHEDRON"), ("CGeoTriangularPrism", 6, [3, 3, 4, 4, 4], PRI, "ET_TRIANGULAR_PRISM"), ("CGeoHexahedron", 8, [4] * 6, HEX, "ET_HEXAHEDRON")):
        s = Scn(ctx.prog, opaque=lambda f: f["name"].split("::")[-1].startswith("calculate"))
        where = "%s" % s.where("CGeoPolyhedron", "addPolygon")
        try:
            g = s.new(cls)
            pts = []
            for i in range(n):
                c = s.xyz("CGeoCoordinate", *[C(q) for q in X[i]])
                s.call(g, "addVertex", c)
            cs = [f for f in s.ctors(s.cname("CGeoPolyhedron"), 1) if "body" in f and s.p.short(absint.strip(f["params"][0][2])).startswith(cls)]
            if not cs:
                continue
            where = "%s CGeoPolyhedron(%s)" % (cs[0]["floc"], cls)
            ph = s.new("CGeoPolyhedron", g)
            pc = s.cname("CGeoPolygon")
            faces = []
            for i in range(s.int(s.call(ph, "nbPolygons"))):
                pg = s.call(ph, "polygon", s.call(ph, "polygonId", i))
                pl = s.call(pg, "polyline")
                nv = s.int(s.call(pl, "nbVertices"))
                vs = []
                for j in range(nv):
                    x = s.vec(s.call(pl, "vertex", j))
                    vs.append(next((q for q in range(n) if x == [C(w) for w in X[q]]), "?"))
                if len(vs) > 1 and vs[0] == vs[-1]:
                    vs.pop()
                faces.append(tuple(vs))
        except SOFT as e:
            ctx.ob(cls, None, where, str(e))
            continue
        ctx.seen(s.I)
        ctx.count("geometric cells")
        if any(not isinstance(i, int) for f in faces for i in f):
            ctx.ob(cls + ":own-nodes", False, where, "a face carries a point that is not a vertex of the cell: %s" % faces)
            continue
        closed(ctx, cls, faces, where, n, X, sizes)
        if et in ori:
            ctx.ob(cls + ":orientation", orient(faces, X) == ori[et], where, "polyhedron faces are oriented differently from the mesh cell's faces")
    ctx.need("geometric cells", 3)
