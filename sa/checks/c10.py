"""The bookkeeping of a mesh is interpreted abstractly over histories of edits (add, replace, remove, merge,
renumber, append, copy, reset, generate faces, extract the boundary) on meshes with symbolic coordinates and
identifiers that are neither ordered nor contiguous; after every history the public accessors must describe
one coherent mesh and exactly the entities the edit should have left."""
from checks.meshutil import *
from checks.c08 import attempt, world
from checks.femutil import judge
import alg
import absint
import models
from ir import Broken
from scn import Unk, strip

MIN = 120
TYPES = ("ET_BEAM", "ET_TRIANGLE", "ET_QUADRILATERAL", "ET_TETRAHEDRON", "ET_TRIANGULAR_PRISM", "ET_HEXAHEDRON")
# corner sequences of the faces, and their type
LOCAL = {
    "ET_BEAM": [("FT_POINT", (0,)), ("FT_POINT", (1,))],
    "ET_TRIANGLE": [("FT_LINE", p) for p in ((0, 1), (1, 2), (2, 0))],
    "ET_QUADRILATERAL": [("FT_LINE", p) for p in ((0, 1), (1, 2), (2, 3), (3, 0))],
    "ET_TETRAHEDRON": [("FT_TRIANGLE", p) for p in ((0, 1, 2), (1, 3, 2), (0, 3, 1), (0, 2, 3))],
    "ET_TRIANGULAR_PRISM": [("FT_TRIANGLE", (0, 1, 2)), ("FT_TRIANGLE", (3, 4, 5)), ("FT_QUADRILATERAL", (0, 1, 4, 3)), ("FT_QUADRILATERAL", (1, 2, 5, 4)), ("FT_QUADRILATERAL", (2, 0, 3, 5))],
    "ET_HEXAHEDRON": [("FT_QUADRILATERAL", p) for p in ((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (3, 2, 6, 7), (1, 2, 6, 5), (0, 3, 7, 4))],
}
# two cells sharing exactly one boundary entity: (number of nodes, cells)
PAIRS = {
    "ET_BEAM": (3, [(0, 1), (1, 2)]),
    "ET_TRIANGLE": (4, [(0, 1, 2), (2, 1, 3)]),
    "ET_QUADRILATERAL": (6, [(0, 1, 2, 3), (1, 4, 5, 2)]),
    "ET_TETRAHEDRON": (5, [(0, 1, 2, 3), (1, 2, 3, 4)]),
    "ET_TRIANGULAR_PRISM": (8, [(0, 1, 2, 3, 4, 5), (2, 1, 6, 5, 4, 7)]),
    "ET_HEXAHEDRON": (12, [(0, 1, 2, 3, 4, 5, 6, 7), (1, 8, 9, 2, 5, 10, 11, 6)]),
}
IDS = [17, 4, 23, 9, 31, 2, 12, 40, 28, 7, 35, 19]


def sym(i, pre="p"):
    return tuple(V("%s%d%s" % (pre, i, a)) for a in "xyz")


class Snap:
    """what the accessors of a mesh report"""

    def __init__(self, ctx, w, m):
        s = w.s
        self.nodes, self.els, self.faces = {}, {}, {}
        self.nn, self.ne, self.nf = (s.int(s.call(m, k)) for k in ("nbNodes", "nbElements", "nbFaces"))
        self.nid = [s.int(s.call(m, "nodeId", C(i))) for i in range(self.nn)]
        self.eid = [s.int(s.call(m, "elementId", C(i))) for i in range(self.ne)]
        self.fid = [s.int(s.call(m, "faceId", C(i))) for i in range(self.nf)]
        self.ix = [[s.int(s.call(m, k, C(i))) for i in l] for k, l in (("nodeIndex", self.nid), ("elementIndex", self.eid), ("faceIndex", self.fid))]
        for i in self.nid:
            self.nodes[i] = tuple(s.vec(s.call(m, "node", C(i))))
        for i in self.eid:
            e = s.call(m, "element", C(i))
            self.els[i] = (s.int(s.call(e, "elementType")), tuple(s.int(s.call(e, "nodeId", C(k))) for k in range(s.int(s.call(e, "nbNodeIds")))),
                           s.num(s.call(e, "thickness")), tuple(s.int(s.call(e, "faceId", C(k))) for k in range(s.int(s.call(e, "nbFaceIds")))))
        for i in self.fid:
            f = s.call(m, "face", C(i))
            hp = s.call(f, "hasPair")
            if hp not in (TRUE, FALSE):
                raise Unk("hasPair is not decided")
            self.faces[i] = (s.int(s.call(f, "faceType")), tuple(s.int(s.call(f, "nodeId", C(k))) for k in range(s.int(s.call(f, "nbNodeIds")))),
                             s.int(s.call(f, "elementId")), s.int(s.call(f, "pairFaceId")) if hp == TRUE else None)
        self.next = [s.int(s.call(m, k)) for k in ("nextNodeId", "nextElementId", "nextFaceId")]
        self.nb = s.int(s.call(m, "nbBoundaryFaces"))


def coherent(ctx, key, w, m, where, faces=False):
    """the accessors agree with each other"""
    q = Snap(ctx, w, m)
    for nm, ids, ix, nx in zip(("node", "element", "face"), (q.nid, q.eid, q.fid), q.ix, q.next):
        ctx.ob("%s:%s-ids" % (key, nm), len(set(ids)) == len(ids), where, "an id is listed twice: %s" % ids)
        ctx.ob("%s:%s-index" % (key, nm), ix == list(range(len(ids))), where, "indices of ids %s are %s" % (ids, ix))
        ctx.ob("%s:%s-next" % (key, nm), nx not in ids and all(nx > i for i in ids), where, "the next free id %s is in use or below %s" % (nx, ids))
    bad = [(i, n) for i, e in q.els.items() for n in e[1] if n not in q.nodes] + [(i, n) for i, f in q.faces.items() for n in f[1] if n not in q.nodes]
    ctx.ob(key + ":node-refs", not bad, where, "node references do not resolve: %s" % bad)
    if faces:
        bad = [(i, f[2]) for i, f in q.faces.items() if f[2] not in q.els or i not in q.els[f[2]][3]]
        bad += [(i, k) for i, e in q.els.items() for k in e[3] if k not in q.faces or q.faces[k][2] != i]
        ctx.ob(key + ":owner", not bad, where, "face and element do not refer to each other: %s" % bad)
        sides = [tuple(sorted(f[1])) for f in q.faces.values()]
        bad = [i for i, f in q.faces.items() if sides.count(tuple(sorted(f[1]))) <= 2 and f[3] is not None and (f[3] not in q.faces or f[3] == i or q.faces[f[3]][3] != i or sorted(q.faces[f[3]][1]) != sorted(f[1]) or q.faces[f[3]][0] != f[0])]
        ctx.ob(key + ":pair", not bad, where, "paired faces are not each other's pair over the same nodes: %s" % bad)
        ctx.ob(key + ":boundary-count", q.nb == sum(1 for f in q.faces.values() if f[3] is None), where, "number of boundary faces is %d" % q.nb)
    ctx.seen(w.s.I)
    return q


def same_pos(a, b):
    return all(alg.is_zero(x - y) for x, y in zip(a, b))


def geometry(q, faces=True):
    """the mesh with identifiers resolved: (node positions, elements, faces)"""
    E = [(t, tuple(q.nodes.get(n) for n in ns), th) for t, ns, th, _ in (q.els[i] for i in q.eid)]
    F = [(t, tuple(q.nodes.get(n) for n in ns), q.eid.index(e) if e in q.eid else None, q.fid.index(p) if p in q.fid else p) for t, ns, e, p in (q.faces[i] for i in q.fid)] if faces else []
    return E, F


def two(w, et, pre="p", nid=None, eid=None, faces=True):
    n, cells = PAIRS[et]
    m = w.mesh([sym(i, pre) for i in range(n)], [(et, c) for c in cells], nid=nid, eid=eid)
    if faces:
        w.s.call(m, "generateFaces", V("tol"))
    return m


# ------------------------------------------------------------------ histories
def adding(ctx):
    key = "add"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMshMesh", "addNode")
        m = two(w, "ET_TRIANGLE", faces=False)
        q = coherent(ctx, key, w, m, where)
        ctx.ob(key + ":order", q.nid == IDS[:4] and q.eid == EID[:2], where, "order of insertion is not kept: %s %s" % (q.nid, q.eid))
        ctx.ob(key + ":position", all(same_pos(q.nodes[IDS[i]], sym(i)) for i in range(4)), where, "a node is not at the position it was given")
    attempt(ctx, key, key, go)
    for what in ("Node", "Element", "Face"):
        key = "replace:" + what.lower()

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "add" + what)
            m = two(w, "ET_TRIANGLE")
            q0 = Snap(ctx, w, m)
            if what == "Node":
                s.call(m, "addNode", C(IDS[1]), s.xyz("CMshNode", *sym(9)))
            elif what == "Element":
                s.call(m, "addElement", C(EID[0]), w.element("ET_TRIANGLE", [IDS[0], IDS[1], IDS[3]], th=V("th")))
            else:
                f = s.new("CMshFace", s.enum("EFaceType", "FT_LINE"))
                for i in (0, 3):
                    s.call(f, "addNodeId", C(IDS[i]))
                s.call(m, "addFace", C(q0.fid[2]), f)
            q = coherent(ctx, key, w, m, where)
            ctx.ob(key + ":count", (q.nn, q.ne, q.nf) == (q0.nn, q0.ne, q0.nf), where, "adding an existing id changed the counts to %s" % ((q.nn, q.ne, q.nf),))
            got = {"Node": lambda: same_pos(q.nodes[IDS[1]], sym(9)), "Element": lambda: q.els[EID[0]][1] == (IDS[0], IDS[1], IDS[3]) and alg.eq(q.els[EID[0]][2], V("th")), "Face": lambda: q.faces[q0.fid[2]][1] == (IDS[0], IDS[3])}[what]
            ctx.ob(key + ":value", got(), where, "the entity added last is not the one reported")
        attempt(ctx, key, key, go)


def removing(ctx):
    for what in ("Node", "Element", "Face"):
        for pos_ in ("first", "middle", "last", "absent", "all"):
            key = "remove:%s:%s" % (what.lower(), pos_)

            def go():
                w = world(ctx)
                w.point_search()
                s = w.s
                where = s.where("CMshMesh", "remove" + what)
                n, cells = PAIRS["ET_TRIANGLE"]
                if what == "Node":
                    m = w.mesh([sym(i) for i in range(5)], [])
                elif what == "Element":
                    m = w.mesh([sym(i) for i in range(5)], [("ET_TRIANGLE", c) for c in ((0, 1, 2), (2, 1, 3), (3, 1, 4))])
                else:
                    m = two(w, "ET_TRIANGLE")
                q0 = Snap(ctx, w, m)
                ids = {"Node": q0.nid, "Element": q0.eid, "Face": q0.fid}[what]
                gone = {"first": ids[:1], "middle": ids[1:2], "last": ids[-1:], "absent": [77], "all": list(ids)}[pos_]
                for i in gone:
                    s.call(m, "remove" + what, C(i))
                q = coherent(ctx, key, w, m, where)
                now = {"Node": q.nid, "Element": q.eid, "Face": q.fid}[what]
                ctx.ob(key + ":rest", now == [i for i in ids if i not in gone], where, "%s left after removing %s from %s" % (now, gone, ids))
                val0, val = ({"Node": x.nodes, "Element": x.els, "Face": x.faces}[what] for x in (q0, q))
                ctx.ob(key + ":values", all(val[i] == val0[i] for i in now), where, "removing one entity altered another")
                # the mesh stays usable
                nx = s.int(s.call(m, "next%sId" % what))
                if what == "Node":
                    s.call(m, "addNode", C(nx), s.xyz("CMshNode", *sym(8)))
                elif what == "Element":
                    s.call(m, "addElement", C(nx), w.element("ET_TRIANGLE", [IDS[0], IDS[1], IDS[3]]))
                else:
                    s.call(m, "addFace", C(nx), s.new("CMshFace", s.enum("EFaceType", "FT_LINE")))
                q = coherent(ctx, key + ":then-add", w, m, where)
                after = {"Node": q.nid, "Element": q.eid, "Face": q.fid}[what]
                ctx.ob(key + ":then-add:order", after == now + [nx], where, "%s after adding %s to %s" % (after, nx, now))
            attempt(ctx, key, key, go)


def generating(ctx):
    for et in TYPES:
        key = "faces:" + et[3:].lower()

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "generateFaces")
            m = two(w, et)
            q = coherent(ctx, key, w, m, where, faces=True)
            n, cells = PAIRS[et]
            ft = {k: s.int(s.enum("EFaceType", k)) for k in ("FT_POINT", "FT_LINE", "FT_TRIANGLE", "FT_QUADRILATERAL")}
            want = sorted((ft[t], tuple(sorted(IDS[c[i]] for i in l)), EID[k]) for k, c in enumerate(cells) for t, l in LOCAL[et])
            got = sorted((t, tuple(sorted(ns)), e) for t, ns, e, p in q.faces.values())
            ctx.ob(key + ":faces", got == want, where, "faces (type, nodes, element) are %s, expected %s" % (str([x for x in got if x not in want])[:100], str([x for x in want if x not in got])[:100]))
            shared = tuple(sorted(IDS[i] for i in set(cells[0]) & set(cells[1])))
            paired = sorted(tuple(sorted(f[1])) for f in q.faces.values() if f[3] is not None)
            ctx.ob(key + ":paired", paired == [shared, shared], where, "paired faces are over the nodes %s, expected %s twice" % (paired, shared))
            s.call(m, "generateFaces", V("tol"))
            q2 = coherent(ctx, key + ":again", w, m, where, faces=True)
            ctx.ob(key + ":again:same", (q2.faces, q2.els, q2.nb) == (q.faces, q.els, q.nb), where, "generating the faces twice is not the same as once")
        attempt(ctx, key, key, go)
        key = "boundary:" + et[3:].lower()

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "extractBoundary")
            m = two(w, et, faces=False)
            b = s.call(m, "extractBoundary", V("tol"))
            q, src = coherent(ctx, key, w, b, where), Snap(ctx, w, m)
            n, cells = PAIRS[et]
            shared = set(cells[0]) & set(cells[1])
            kind = {"FT_LINE": "ET_BEAM", "FT_TRIANGLE": "ET_TRIANGLE", "FT_QUADRILATERAL": "ET_QUADRILATERAL"}
            want = sorted((s.int(s.enum("EElementType", kind[t])), tuple(sorted(IDS[c[i]] for i in l))) for c in cells for t, l in LOCAL[et] if set(c[i] for i in l) != shared)
            got = sorted((e[0], tuple(sorted(e[1]))) for e in q.els.values())
            ctx.ob(key + ":elements", got == want, where, "boundary elements are %s, expected %s" % (str([x for x in got if x not in want])[:100], str([x for x in want if x not in got])[:100]))
            used = {i for e in q.els.values() for i in e[1]}
            ctx.ob(key + ":nodes", all(i in src.nodes and same_pos(q.nodes[i], src.nodes[i]) for i in used), where, "a boundary node is not where the mesh has it")
        if et != "ET_BEAM":          # the boundary of a line is points, which no element type represents
            attempt(ctx, key, key, go)


def appending(ctx):
    for et, first in [(et, f) for et in ("ET_TRIANGLE", "ET_HEXAHEDRON") for f in ("empty", "filled")]:
        key = "append:%s:%s" % (et[3:].lower(), first)

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "addMesh")
            a = two(w, "ET_TRIANGLE", "a", nid=[40, 3, 11, 25], eid=[6, 2]) if first == "filled" else s.new("CMshMesh")
            b = two(w, et)
            s.call(s.call(b, "element", C(EID[1])), "setThickness", V("th"))
            A, B = Snap(ctx, w, a), Snap(ctx, w, b)
            s.call(a, "addMesh", b)
            q = coherent(ctx, key, w, a, where, faces=True)
            B2 = Snap(ctx, w, b)
            ctx.ob(key + ":source", vars(B) == vars(B2), where, "the appended mesh was changed")
            ctx.ob(key + ":kept", q.nid[:A.nn] == A.nid and q.eid[:A.ne] == A.eid and q.fid[:A.nf] == A.fid and all(q.nodes[i] == A.nodes[i] for i in A.nid) and all(q.els[i] == A.els[i] for i in A.eid) and all(q.faces[i] == A.faces[i] for i in A.fid), where, "an entity that was there before changed")
            ctx.ob(key + ":counts", (q.nn, q.ne, q.nf) == (A.nn + B.nn, A.ne + B.ne, A.nf + B.nf), where, "counts after appending are %s" % ((q.nn, q.ne, q.nf),))
            E, F = geometry(q)
            Eb, Fb = geometry(B)
            ctx.ob(key + ":elements", E[A.ne:] == Eb, where, "an appended element differs from the original in type, corner positions or thickness")
            shift = [(t, x, None if e is None else e + A.ne, None if p is None else p + A.nf) for t, x, e, p in Fb]
            ctx.ob(key + ":faces", F[A.nf:] == shift, where, "an appended face differs from the original in corners, element or pair")
        attempt(ctx, key, key, go)


def renumbering(ctx):
    for et in ("ET_QUADRILATERAL", "ET_TETRAHEDRON"):
        key = "renumber:" + et[3:].lower()

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "renumber")
            m = two(w, et, eid=[21, 5])
            # leave gaps in the face ids
            A = Snap(ctx, w, m)
            s.call(m, "renumber")
            q = coherent(ctx, key, w, m, where, faces=True)
            ctx.ob(key + ":ids", (q.nid, q.eid, q.fid) == (list(range(A.nn)), list(range(A.ne)), list(range(A.nf))), where, "ids are not consecutive from zero: %s %s %s" % (q.nid, q.eid, q.fid))
            ctx.ob(key + ":nodes", [q.nodes[i] for i in q.nid] == [A.nodes[i] for i in A.nid], where, "node positions are permuted")
            ctx.ob(key + ":geometry", geometry(q) == geometry(A), where, "an element or face refers to other corners, elements or pairs than before")
        attempt(ctx, key, key, go)


def merging(ctx):
    # a second copy of the shared nodes, with larger, smaller and mixed ids, listed before or after
    for tag, nid in (("after", [0, 1, 2, 3, 4, 5, 6, 7]), ("before", [7, 6, 5, 4, 3, 2, 1, 0]), ("mixed", [5, 30, 2, 11, 9, 4, 1, 40])):
        key = "merge-nodes:" + tag

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "mergeNodes")
            X = [sym(i) for i in range(4)] + [sym(1), sym(4), sym(5), sym(2)]
            m = w.mesh(X, [("ET_QUADRILATERAL", (0, 1, 2, 3)), ("ET_QUADRILATERAL", (4, 5, 6, 7)), ("ET_BEAM", (1, 4))], nid=nid)
            s.call(m, "generateFaces", V("tol"))
            A = Snap(ctx, w, m)
            s.call(m, "mergeNodes", V("tol"))
            q = coherent(ctx, key, w, m, where)
            P_ = list(q.nodes.values())
            ctx.ob(key + ":distinct", len({str(p) for p in P_}) == len(P_) == 6, where, "%d nodes left for 6 distinct positions" % len(P_))
            ctx.ob(key + ":elements", geometry(q, False)[0] == geometry(A, False)[0][:2], where, "an element has other corners than before, or the collapsed element is still there")
            ctx.ob(key + ":unmoved", all(q.nodes[i] == A.nodes[i] for i in q.nid), where, "a node that is kept has moved")
            gf = [(f[0], [q.nodes.get(n) for n in f[1]]) for f in q.faces.values()]
            ga = [(f[0], [A.nodes.get(n) for n in f[1]]) for f in A.faces.values()]
            ctx.ob(key + ":faces", gf == ga, where, "a face has other corners than before")
            # faces regenerated on the merged mesh see the interface
            s.call(m, "generateFaces", V("tol"))
            q = coherent(ctx, key + ":then-faces", w, m, where, faces=True)
            ctx.ob(key + ":then-faces:pair", sum(1 for f in q.faces.values() if f[3] is not None) == 2, where, "the common side is not recognised after merging")
        attempt(ctx, key, key, go)
    key = "merge-elements"

    def go():
        w = world(ctx)
        w.point_search()
        s = w.s
        where = s.where("CMshMesh", "mergeElements")
        m = w.mesh([sym(i) for i in range(6)], [("ET_TRIANGLE", (0, 1, 2)), ("ET_TRIANGLE", (2, 1, 3)), ("ET_TRIANGLE", (1, 2, 0)), ("ET_TRIANGLE", (3, 4, 5))])
        s.call(m, "mergeElements", V("tol"))
        q = coherent(ctx, key, w, m, where)
        cen = [frozenset(e[1]) for e in q.els.values()]
        ctx.ob(key + ":once", len(set(cen)) == len(cen), where, "two elements over the same nodes are left")
        ctx.ob(key + ":unique", EID[1] in q.els and EID[3] in q.els, where, "an element without a duplicate was removed")
    attempt(ctx, key, key, go)
    key = "invalid-elements"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMshMesh", "removeInvalidElements")
        m = w.mesh([sym(i) for i in range(5)], [("ET_TRIANGLE", (2, 1, 2)), ("ET_QUADRILATERAL", (0, 1, 2, 3)), ("ET_QUADRILATERAL", (3, 4, 1, 3)), ("ET_BEAM", (4, 0))])
        s.call(m, "removeInvalidElements")
        q = coherent(ctx, key, w, m, where)
        ctx.ob(key + ":left", q.eid == [EID[1], EID[3]], where, "elements left are %s, expected %s" % (q.eid, [EID[1], EID[3]]))
    attempt(ctx, key, key, go)
    key = "dangling-nodes"

    def go():
        w = world(ctx)
        w.point_search()
        s = w.s
        where = s.where("CMshMesh", "removeDanglingNodes")
        m = w.mesh([sym(i) for i in range(7)], [("ET_TRIANGLE", (1, 2, 4)), ("ET_BEAM", (4, 6))])
        f = s.new("CMshFace", s.enum("EFaceType", "FT_LINE"))
        for i in (3, 4):
            s.call(f, "addNodeId", C(IDS[i]))
        s.call(m, "addFace", C(5), f)
        s.call(m, "removeDanglingNodes")
        q = coherent(ctx, key, w, m, where)
        ctx.ob(key + ":left", q.nid == [IDS[i] for i in (1, 2, 3, 4, 6)], where, "nodes left are %s" % q.nid)
        ctx.ob(key + ":position", all(same_pos(q.nodes[IDS[i]], sym(i)) for i in (1, 2, 3, 4, 6)), where, "a node moved")
    attempt(ctx, key, key, go)
    key = "rebuild"

    def go():
        w = world(ctx)
        w.point_search()
        s = w.s
        where = s.where("CMshMesh", "rebuildIndices")
        m = two(w, "ET_TRIANGLE")
        A = Snap(ctx, w, m)
        s.call(m, "rebuildIndices")
        q = coherent(ctx, key, w, m, where, faces=True)
        ctx.ob(key + ":same", vars(A) == vars(q), where, "rebuilding coherent indices changed the mesh")
    attempt(ctx, key, key, go)


def copying(ctx):
    for how in ("constructor", "assignment"):
        key = "copy:" + how

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            where = s.where("CMshMesh", "CMshMesh", 1)
            m = two(w, "ET_TRIANGLE")
            for a, v in (("Dx", "hx"), ("Dy", "hy"), ("Dz", "hz")):
                s.call(m, "set" + a, V(v))
            s.call(s.call(m, "element", C(EID[0])), "setThickness", V("th"))
            s.call(m, "calculateFaceCentroid")
            s.call(m, "calculateElementCentroid")
            A = Snap(ctx, w, m)
            if how == "constructor":
                c = s.new("CMshMesh", m)
            else:
                c = two(w, "ET_QUADRILATERAL", "z")
                s.I.copy(s.st, c.loc, m.loc) if not [g for g in ctx.prog.bycls.get(strip(c.ty), []) if g["name"].endswith("operator=") and "body" in g] else s.call(c, "operator=", m)
            q = coherent(ctx, key, w, c, where, faces=True)
            ctx.ob(key + ":same", vars(A) == vars(q), where, "the copy differs in nodes, elements, faces, order or counts")
            for a, v in (("dx", "hx"), ("dy", "hy"), ("dz", "hz")):
                judge(ctx, "%s:%s" % (key, a), [(a, s.num(s.call(c, a)), V(v))], where, "grid spacing of the copy")
            for k, ids in (("elementCentroid", A.eid), ("faceCentroid", A.fid)):
                judge(ctx, "%s:%s" % (key, k), [((i, j), g, h) for i in ids for j, (g, h) in enumerate(zip(s.vec(s.call(c, k, C(i))), s.vec(s.call(m, k, C(i)))))], where, "centroid of the copy")
            # the two are independent
            s.call(c, "removeElement", C(EID[0]))
            s.call(c, "scale", V("k"))
            ctx.ob(key + ":independent", vars(Snap(ctx, w, m)) == vars(A), where, "changing the copy changed the original")
        attempt(ctx, key, key, go)
    key = "reset"

    def go():
        w = world(ctx)
        w.point_search()
        s = w.s
        where = s.where("CMshMesh", "reset")
        m = two(w, "ET_TRIANGLE")
        for a in ("Dx", "Dy", "Dz"):
            s.call(m, "set" + a, V("h"))
        s.call(m, "reset")
        q = coherent(ctx, key, w, m, where)
        ctx.ob(key + ":empty", (q.nn, q.ne, q.nf, q.nb) == (0, 0, 0, 0), where, "the mesh still has entities: %s" % ((q.nn, q.ne, q.nf, q.nb),))
        judge(ctx, key + ":spacing", [(a, s.num(s.call(m, a)), ZERO) for a in ("dx", "dy", "dz")], where, "grid spacing after reset")
        n, cells = PAIRS["ET_TRIANGLE"]
        for i in range(n):
            s.call(m, "addNode", C(IDS[i]), s.xyz("CMshNode", *sym(i, "r")))
        for k, cl in enumerate(cells):
            s.call(m, "addElement", C(EID[k]), w.element("ET_TRIANGLE", [IDS[i] for i in cl]))
        s.call(m, "generateFaces", V("tol"))
        coherent(ctx, key + ":reuse", w, m, where, faces=True)
    attempt(ctx, key, key, go)
    key = "element-reset"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMshElement", "reset")
        e = w.element("ET_TRIANGLE", [4, 9, 2], th=V("th"))
        s.call(e, "addFaceId", C(3))
        s.call(e, "reset")
        ctx.ob(key + ":ids", s.int(s.call(e, "nbNodeIds")) == 0 and s.int(s.call(e, "nbFaceIds")) == 0, where, "ids survive the reset")
        judge(ctx, key + ":state", [("type", s.num(s.call(e, "elementType")), s.enum("EElementType", "ET_NONE")), ("thickness", s.num(s.call(e, "thickness")), ONE)], where, "after reset")
    attempt(ctx, key, key, go)
    key = "face-reset"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMshFace", "reset")
        f = s.new("CMshFace", s.enum("EFaceType", "FT_LINE"))
        for i in (4, 9):
            s.call(f, "addNodeId", C(i))
        s.call(f, "setPairFaceId", C(8))
        s.call(f, "setElementId", C(6))
        g = s.new("CMshFace", f)
        ctx.ob(key + ":copy", s.int(s.call(g, "pairFaceId")) == 8 and s.call(g, "hasPair") == TRUE and s.int(s.call(g, "elementId")) == 6 and [s.int(s.call(g, "nodeId", C(i))) for i in (0, 1)] == [4, 9] and s.int(s.call(g, "faceType")) == s.int(s.enum("EFaceType", "FT_LINE")), where, "a copied face differs")
        s.call(f, "reset")
        ctx.ob(key + ":state", s.int(s.call(f, "nbNodeIds")) == 0 and s.call(f, "hasPair") == FALSE and s.int(s.call(f, "faceType")) == s.int(s.enum("EFaceType", "FT_NONE")), where, "nodes, pair or type survive the reset")
    attempt(ctx, key, key, go)


def measuring(ctx):
    for et in TYPES:
        key = "centroid:" + et[3:].lower()

        def go():
            w = world(ctx)
            w.point_search()
            s = w.s
            m = two(w, et)
            s.call(m, "removeNode", C(99))
            q = Snap(ctx, w, m)
            mean = lambda ns, j: sum((q.nodes[n][j] for n in ns), ZERO).scale(Fr(1, len(ns)))
            for k, ids, src in (("Element", q.eid, q.els), ("Face", q.fid, q.faces)):
                where = s.where("CMshMesh", "calculate%sCentroid" % k)
                for again in ("", ":again"):
                    s.call(m, "calculate%sCentroid" % k)
                    get = k.lower() + "Centroid"
                    judge(ctx, "%s:%s%s" % (key, k.lower(), again), [((i, "xyz"[j]), g, mean(src[i][1], j)) for i in ids for j, g in enumerate(s.vec(s.call(m, get, C(i))))], where, "centroid")
                    if not again:
                        s.call(m, "scale", V("k"))
                        q = Snap(ctx, w, m)
            ctx.seen(s.I)
        attempt(ctx, key, key, go)
    key = "scale"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMshMesh", "scale")
        m = two(w, "ET_TRIANGLE", faces=False)
        s.call(m, "scale", V("k"))
        q = coherent(ctx, key, w, m, where)
        judge(ctx, key + ":nodes", [((i, j), q.nodes[IDS[i]][j], sym(i)[j] * V("k")) for i in range(4) for j in range(3)], where, "scaled position")
    attempt(ctx, key, key, go)
    for what in ("mesh", "element"):
        key = "box:" + what

        def go():
            w = world(ctx)
            s = w.s
            where = s.where("CMshMesh", "boundingBox", 0 if what == "mesh" else 1)
            # ordered along each axis in a different way, so that the extremes are decided
            A = [V("ax"), V("ay"), V("az")]
            alg.POSITIVE.clear()
            d = pos_(*["d%d" % i for i in range(9)])
            X = [(A[0], A[1] + d[0] + d[1], A[2] + d[2]), (A[0] + d[3] + d[4], A[1], A[2] + d[2] + d[5]), (A[0] + d[3], A[1] + d[0], A[2]), (A[0] - d[6], A[1] - d[7], A[2] - d[8])]
            m = w.mesh(X, [("ET_TRIANGLE", (0, 1, 2)), ("ET_BEAM", (3, 0))])
            b = s.call(m, "boundingBox") if what == "mesh" else s.call(m, "boundingBox", C(EID[0]))
            lo, hi = s.vec(s.call(b, "min")), s.vec(s.call(b, "max"))
            wl = [X[3][0], X[3][1], X[3][2]] if what == "mesh" else [X[0][0], X[1][1], X[2][2]]
            wh = [X[1][0], X[0][1], X[1][2]]
            judge(ctx, key, [("min-" + "xyz"[i], lo[i], wl[i]) for i in range(3)] + [("max-" + "xyz"[i], hi[i], wh[i]) for i in range(3)], where, "bounding box")
            ctx.seen(s.I)
        attempt(ctx, key, key, go)


def pos_(*names):
    for n in names:
        alg.POSITIVE.add(alg.atom_id(("sym", n)))
    return [V(n) for n in names]


def inverting(ctx):
    for et in TYPES:
        key = "invert:" + et[3:].lower()

        def go():
            w = world(ctx)
            s = w.s
            where = s.where("CMshElement", "invert")
            m = two(w, et, faces=False)
            A = Snap(ctx, w, m)
            s.call(m, "invert")
            q = coherent(ctx, key, w, m, where)
            for k, i in enumerate(A.eid):
                a, b = A.els[i][1], q.els[i][1]
                ctx.ob("%s:%d:nodes" % (key, k), sorted(a) == sorted(b) and A.els[i][0] == q.els[i][0], where, "the element has other nodes after inversion")
                ctx.ob("%s:%d:orientation" % (key, k), flipped(et, a, b), where, "the inverted element %s is not the mirror image of %s" % (b, a))
            s.call(m, "invert")
            ctx.ob(key + ":twice", [v[1] for v in Snap(ctx, w, m).els.values()] == [v[1] for v in A.els.values()], where, "inverting twice does not give the element back")
        attempt(ctx, key, key, go)


def flipped(et, a, b):
    """every oriented face of b is a face of a traversed the other way"""
    if et == "ET_BEAM":
        return tuple(b) == tuple(reversed(a))
    if et in ("ET_TRIANGLE", "ET_QUADRILATERAL"):
        return rot(tuple(reversed(a))) == rot(b)
    O = ORIENTED[et]
    return {rot(tuple(b[i] for i in f)) for f in O} == {rot(tuple(reversed([a[i] for i in f]))) for f in O}


def rot(t):
    i = t.index(min(t))
    return t[i:] + t[:i]


ORIENTED = {
    "ET_TETRAHEDRON": ((0, 1, 2), (1, 3, 2), (0, 3, 1), (0, 2, 3)),
    "ET_TRIANGULAR_PRISM": ((0, 1, 2), (5, 4, 3), (1, 0, 3, 4), (2, 1, 4, 5), (0, 2, 5, 3)),
    "ET_HEXAHEDRON": ((0, 1, 2, 3), (7, 6, 5, 4), (5, 1, 0, 4), (3, 2, 6, 7), (6, 2, 1, 5), (3, 7, 4, 0)),
}


def querying(ctx):
    key = "query"

    def go():
        w = world(ctx)
        s = w.s
        els = [(0, 1, 2), (2, 1, 3), (1, 4, 3), (0, 2, 5)]
        m = w.mesh([sym(i) for i in range(7)], [("ET_TRIANGLE", c) for c in els])
        q = s.new("CMshMeshQuery", m)
        where = s.where("CMshMeshQuery", "elementsSharingNode")

        def run(name, *ids):
            v = s.vector("int")
            s.call(v and q, name, *[C(i) for i in ids], v)
            return [s.int(s.num(s.at(v, i, "int"))) for i in range(s.size(v))]
        for i in range(7):
            want = sorted(EID[k] for k, c in enumerate(els) if i in c)
            got = run("elementsSharingNode", IDS[i])
            ctx.ob("%s:node:%d" % (key, i), sorted(got) == want, where, "elements at node %d are %s, expected %s" % (IDS[i], got, want))
        where = s.where("CMshMeshQuery", "elementsSharingNodes")
        for i in range(7):
            for j in range(7):
                if i != j:
                    want = sorted(EID[k] for k, c in enumerate(els) if i in c and j in c)
                    got = run("elementsSharingNodes", IDS[i], IDS[j])
                    ctx.ob("%s:nodes:%d:%d" % (key, i, j), sorted(got) == want, where, "elements at nodes %d and %d are %s, expected %s" % (IDS[i], IDS[j], got, want))
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def sequences(ctx):
    """every ordered triple of edits keeps the accessors coherent"""
    import itertools

    def gone(k):
        def f(w, m):
            ids = [w.s.int(w.s.call(m, k.lower() + "Id", C(i))) for i in range(w.s.int(w.s.call(m, "nb%ss" % k)))]
            used = set()
            if k == "Face":          # a face an element still refers to must stay
                used = {i for e in Snap(None, w, m).els.values() for i in e[3]}
            if ids and ids[len(ids) // 2] not in used:
                w.s.call(m, "remove" + k, C(ids[len(ids) // 2]))
        return f

    def more(w, m):
        n = w.s.int(w.s.call(m, "nextNodeId"))
        for i in range(3):
            w.s.call(m, "addNode", C(n + 2 * (2 - i)), w.s.xyz("CMshNode", *sym(i, "q%d" % n)))
        w.s.call(m, "addElement", w.s.call(m, "nextElementId"), w.element("ET_TRIANGLE", [n, n + 2, n + 4]))

    edits = {
        "drop-element": gone("Element"),
        "drop-face": gone("Face"),
        "add": more,
        "faces": lambda w, m: w.s.call(m, "generateFaces", V("tol")),
        "renumber": lambda w, m: w.s.call(m, "renumber"),
        "append": lambda w, m: w.s.call(m, "addMesh", w.mesh([sym(i) for i in range(3)], [("ET_TRIANGLE", (0, 2, 1))])),
        "merge-nodes": lambda w, m: w.s.call(m, "mergeNodes", V("tol")),
        "merge-elements": lambda w, m: w.s.call(m, "mergeElements", V("tol")),
        "dangling": lambda w, m: w.s.call(m, "removeDanglingNodes"),
        "invert": lambda w, m: w.s.call(m, "invert"),
    }
    for seq in itertools.product(edits, repeat=3):
        key = "sequence:" + ",".join(seq)

        def go():
            w = world(ctx)
            w.point_search()
            m = w.mesh([sym(i) for i in range(5)], [("ET_TRIANGLE", (0, 1, 2)), ("ET_TRIANGLE", (2, 1, 3))])
            for e in seq:
                edits[e](w, m)
            where = w.s.where("CMshMesh", "rebuildIndices")
            q = coherent(ctx, key, w, m, where, faces=seq[-1] == "faces" or (seq[-1] in ("renumber", "append", "invert") and "faces" == seq[-2] and seq[-1] != "append"))
            if seq[-1] == "merge-nodes":
                p = list(q.nodes.values())
                ctx.ob(key + ":merged", len({str(x) for x in p}) == len(p), where, "coincident nodes are left")
            if seq[-1] == "dangling":
                used = {n for e in q.els.values() for n in e[1]} | {n for f in q.faces.values() for n in f[1]}
                ctx.ob(key + ":used", set(q.nid) == used, where, "unreferenced nodes are left")
        attempt(ctx, key, key, go)


def check(ctx):
    ctx.rule("the accessors of a mesh agree with each other after every history: ids listed once, index(id) its position, next id free, node/element/face/pair references resolve")
    ctx.rule("each edit (add, replace, remove, merge, renumber, append, copy, reset, faces, boundary, centroid, box, invert, query) leaves exactly the entities its definition says, whatever the ids and positions")
    for f in (adding, removing, generating, appending, renumbering, merging, copying, measuring, inverting, querying, sequences):
        f(ctx)
