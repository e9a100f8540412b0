"""The finite volume view of a mesh is interpreted abstractly: control volumes and faces built from meshes with
symbolic sizes and identifiers that are neither ordered nor contiguous must tile the mesh (each side once,
owners and neighbours mutual, opposite normals, closed cells, volumes that add up), and histories of edits
(add, replace, remove, set again, reset, clip) must leave the accessors coherent."""
from checks.meshutil import *
from checks.c08 import attempt, world, fvm_meshes, varea, mean, norm, V2, pos
from checks.femutil import judge, dot, same
from fractions import Fraction as Fr
import alg
import absint
from scn import Unk
from ir import Broken

MIN = 60


def facts(s):
    eps = V2("numeric_limits", "epsilon")
    vs = [V(x) for x in "abcd"]
    s.assume(*([absint.compare("<", eps, x * y * z) for x in vs for y in vs for z in vs] + [absint.compare("<", eps, x * y) for x in vs for y in vs] + [absint.compare("<", eps, x) for x in vs] + [absint.compare("<", eps, C(1))]))


def meshes():
    M = fvm_meshes()
    a, b, c, d = [V(x) for x in "abcd"]
    z = ZERO
    pr = [[z, z, z], [a.scale(3), z, z], [z, a.scale(4), z], [z, z, c], [a.scale(3), z, c], [z, a.scale(4), c], [-a.scale(3), z, z], [-a.scale(3), z, c]]

    def faces(n):
        return [(n[0], n[2], n[1]), (n[3], n[4], n[5]), (n[0], n[1], n[4], n[3]), (n[1], n[2], n[5], n[4]), (n[2], n[0], n[3], n[5])]
    p, q = (0, 1, 2, 3, 4, 5), (0, 2, 6, 3, 5, 7)
    v = (a * a * c).scale(6)
    M["prism"] = (pr, [("ET_TRIANGULAR_PRISM", p[3:] + p[:3], faces(p), v), ("ET_TRIANGULAR_PRISM", q[3:] + q[:3], faces(q), v)])
    return M


IDSETS = (None, (list(reversed(NID)), [3, 21]), (NID[3:] + NID[:3], [0, 1]))


class F:
    """the finite volume mesh of a two-cell mesh"""

    def __init__(self, ctx, shape, ids=None):
        self.ctx = ctx
        self.w = w = world(ctx)
        self.s = s = w.s
        w.point_search()
        self.X, self.cells = meshes()[shape]
        facts(s)
        self.nid, self.eid = ids or (NID, EID)
        self.m = w.mesh(self.X, [(c[0], c[1]) for c in self.cells], nid=self.nid, eid=self.eid)
        s.call(self.m, "generateFaces", V("tol"))
        self.sides = [(e, fc) for e, c in enumerate(self.cells) for fc in c[2]]
        self.shared = {frozenset(f) for e, f in self.sides if sum(1 for _, g in self.sides if set(g) == set(f)) == 2}

    def make(self):
        return self.s.new("CFvmMesh", self.m, name="fvm")

    def corners(self, pl):
        """the corner positions of a polygon"""
        s = self.s
        l = s.call(pl, "polyline")
        n = s.int(s.call(l, "nbVertices"))
        r = [s.vec(s.call(l, "vertex", C(i))) for i in range(n)]
        if n > 1 and all(alg.is_zero(x - y) for x, y in zip(r[0], r[-1])):
            r = r[:-1]
        return r

    def ref(self, P_):
        """the node numbers of corner positions"""
        r = []
        for p in P_:
            k = [i for i, x in enumerate(self.X) if all(alg.is_zero(u - v) for u, v in zip(x, p))]
            r.append(k[0] if k else None)
        return tuple(r)


def orient(got, want):
    """1 same cyclic order, -1 opposite, 0 different"""
    n = len(want)
    if len(got) != n or set(got) != set(want):
        return 0
    k = got.index(want[0])
    r = tuple(got[(k + i) % n] for i in range(n))
    if r == tuple(want):
        return 1
    return -1 if (r[0],) + tuple(reversed(r[1:])) == tuple(want) else 0


def built(x, key, fm, where):
    """the accessors describe the tiling exactly"""
    s, ctx = x.s, x.ctx
    nf, nc = s.int(s.call(fm, "nbFaces")), s.int(s.call(fm, "nbControlVolumes"))
    uniq = {frozenset(f) for _, f in x.sides}
    ctx.ob(key + ":nb-faces", nf == len(uniq), where, "%d faces for %d distinct sides" % (nf, len(uniq)))
    ctx.ob(key + ":nb-cells", nc == len(x.cells), where, "%d control volumes for %d elements" % (nc, len(x.cells)))
    fid = [s.int(s.call(fm, "faceId", C(i))) for i in range(nf)]
    cid = [s.int(s.call(fm, "controlVolumeId", C(i))) for i in range(nc)]
    ctx.ob(key + ":ids", len(set(fid)) == nf and len(set(cid)) == nc, where, "ids are listed twice: %s %s" % (fid, cid))
    ix = ([s.int(s.call(fm, "faceIndex", C(i))) for i in fid], [s.int(s.call(fm, "controlVolumeIndex", C(i))) for i in cid])
    ctx.ob(key + ":indices", ix == (list(range(nf)), list(range(nc))), where, "indices of listed ids are %s" % (ix,))
    ctx.ob(key + ":cell-ids", sorted(cid) == sorted(x.eid[:nc]), where, "control volumes %s for elements %s" % (cid, x.eid[:nc]))
    nx = (s.int(s.call(fm, "nextFaceId")), s.int(s.call(fm, "nextControlVolumeId")))
    ctx.ob(key + ":next", nx[0] > max(fid + [-1]) and nx[1] > max(cid + [-1]), where, "next free ids %s for %s and %s" % (nx, fid, cid))
    seen = {}
    for i in fid:
        f = s.call(fm, "face", C(i))
        r = x.ref(x.corners(f))
        k = frozenset(r)
        own = [e for e, g in x.sides if set(g) == set(r)]
        ctx.ob(key + ":face-corners", len(own) > 0 and k not in seen, where, "face %d has corners %s, which is no side or a second copy of it" % (i, list(r)))
        seen[k] = i
        hp = s.call(f, "hasPair")
        if hp not in (TRUE, FALSE):
            raise Unk("hasPair not decided")
        ctx.ob(key + ":has-pair", (hp == TRUE) == (k in x.shared), where, "face %d over nodes %s: hasPair is %s" % (i, list(r), hp == TRUE))
        o = s.int(s.call(f, "controlVolumeId"))
        ids = [x.eid[e] for e in own]
        ctx.ob(key + ":owner", o in ids, where, "face %d over nodes %s is owned by %d, its elements are %s" % (i, list(r), o, ids))
        if len(ids) == 2:
            for p, q in (ids, ids[::-1]):
                g = (s.int(s.call(f, "controlVolumeId", C(p))), s.int(s.call(f, "neighborId", C(p))))
                ctx.ob(key + ":neighbour", g == (p, q), where, "seen from cell %d the face between %s is owned by %d and leads to %d" % (p, ids, g[0], g[1]))
        else:
            g = s.int(s.call(f, "controlVolumeId", C(o)))
            ctx.ob(key + ":boundary-owner", g == o, where, "a boundary face of cell %d is seen from it as owned by %d" % (o, g))
    tot = ZERO
    for e, (et, conn, faces, vol) in enumerate(x.cells):
        cv = s.call(fm, "controlVolume", C(x.eid[e]))
        ctx.ob(key + ":cell-id", s.int(s.call(cv, "controlVolumeId")) == x.eid[e], where, "control volume of element %d has another id" % x.eid[e])
        n = s.int(s.call(cv, "nbFaces"))
        l = [s.int(s.call(cv, "faceId", C(k))) for k in range(n)]
        want = [seen.get(frozenset(f)) for f in faces]
        ctx.ob(key + ":cell-faces", sorted(map(str, l)) == sorted(map(str, want)), where, "the control volume of element %d lists faces %s, its sides are %s" % (x.eid[e], l, want))
        for i in fid:
            c = s.call(cv, "containsFace", C(i))
            ctx.ob(key + ":contains", c == (TRUE if i in want else FALSE), where, "containsFace(%d) of cell %d" % (i, x.eid[e]))
        s.call(cv, "calculateCentroid", FALSE)
        s.call(cv, "calculateVolume", FALSE)
        s.call(cv, "calculateSurfaceArea", FALSE)
        cen = s.vec(s.call(cv, "centroid"))
        flux = [ZERO] * 3
        area = ZERO
        side = []
        for f in faces:
            i = seen.get(frozenset(f))
            if i is None:
                continue
            for k in ("calculateFaceArea", "calculateFaceNormal", "calculateFaceCentroid"):
                s.call(cv, k, C(i), FALSE)
            A = s.num(s.call(cv, "faceArea", C(i)))
            N = s.vec(s.call(cv, "faceNormal", C(i)))
            D = s.vec(s.call(cv, "faceDist", C(i)))
            W_ = varea([x.X[k] for k in f])
            judge(ctx, key + ":face-area", [("area", A, norm(W_))], where, "side %s of cell %d" % (f, x.eid[e]))
            judge(ctx, key + ":face-outward", [(k, A * N[k], W_[k]) for k in range(3)], where, "area times normal of side %s seen from cell %d" % (f, x.eid[e]))
            judge(ctx, key + ":face-dist", [(k, D[k] + cen[k], mean([x.X[j] for j in f])[k]) for k in range(3)], where, "centroid of the cell plus the distance to side %s" % (f,))
            flux = [u + A * v for u, v in zip(flux, N)]
            area = area + norm(W_)
        judge(ctx, key + ":closed", [(k, flux[k], ZERO) for k in range(3)], where, "sum of outward areas of cell %d" % x.eid[e])
        judge(ctx, key + ":volume", [("volume", s.num(s.call(cv, "volume")), vol)], where, "volume of cell %d" % x.eid[e])
        judge(ctx, key + ":surface", [("area", s.num(s.call(cv, "surfaceArea")), area)], where, "surface of cell %d" % x.eid[e])
        tot = tot + vol
    judge(ctx, key + ":total-volume", [("volume", s.num(s.call(fm, "volume")), tot)], where, "volume of the mesh")
    ctx.count("tilings")
    ctx.seen(s.I)


def tiling(ctx, shape):
    for k, ids in enumerate(IDSETS):
        key = "tiling:%s:%d" % (shape, k)

        def go():
            x = F(ctx, shape, ids)
            built(x, key, x.make(), x.s.where("CFvmMesh", "set"))
        attempt(ctx, key, key, go)
    key = "again:" + shape

    def go():
        x = F(ctx, shape)
        fm = x.make()
        x.s.call(fm, "set", x.m)
        built(x, key, fm, x.s.where("CFvmMesh", "set"))
    attempt(ctx, key, key, go)


def listing(ctx, what, remove):
    """ids, indices and next ids after add / replace / remove histories"""
    key = "list:" + what.lower()

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CFvmMesh", "add" + what)

        def obj(k):
            o = s.new("CFvmFace" if what == "Face" else "CFvmControlVolume")
            s.call(o, "setControlVolumeId", C(k))
            return o
        H = [("add", 9), ("add", 4), ("add", 12), ("add", 4)] + ([("remove", 4), ("add", 7), ("remove", 12), ("remove", 12), ("add", 12), ("remove", 9)] if remove else [("add", 9), ("add", 30)])
        fm = s.new("CFvmMesh")
        want = []
        for op, k in H:
            if op == "add":
                s.call(fm, "add" + what, C(k), obj(k))
                if k not in want:
                    want.append(k)
            else:
                s.call(fm, "remove" + what, C(k))
                if k in want:
                    want.remove(k)
            nm = what[0].lower() + what[1:]
            n = s.int(s.call(fm, "nb%ss" % what))
            ids = [s.int(s.call(fm, nm + "Id", C(i))) for i in range(n)]
            kk = "%s:%s%d" % (key, op, k)
            ctx.ob(kk + ":ids", ids == want, where, "ids are %s, expected %s" % (ids, want))
            ix = [s.int(s.call(fm, nm + "Index", C(i))) for i in ids]
            ctx.ob(kk + ":indices", ix == list(range(n)), where, "indices of %s are %s" % (ids, ix))
            nx = s.int(s.call(fm, "next%sId" % what))
            ctx.ob(kk + ":next", nx > max(ids + [-1]), where, "next free id %d while %s are in use" % (nx, ids))
            g = [s.int(s.call(s.call(fm, nm, C(i)), "controlVolumeId")) for i in ids]
            ctx.ob(kk + ":entities", g == ids, where, "ids %s lead to the entities added as %s" % (ids, g))
        s.call(fm, "reset")
        ctx.ob(key + ":reset", s.int(s.call(fm, "nb%ss" % what)) == 0 and s.int(s.call(fm, "next%sId" % what)) == 0, where, "entities survive reset")
        s.call(fm, "add" + what, C(5), obj(5))
        ctx.ob(key + ":reset-add", s.int(s.call(fm, "nb%ss" % what)) == 1 and s.int(s.call(fm, nm + "Index", C(5))) == 0, where, "the first entity after reset has an index other than 0")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def replaced(ctx):
    key = "replace:face"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CFvmMesh", "setFace")
        fm = s.new("CFvmMesh")
        for k in (6, 2):
            f = s.new("CFvmFace")
            s.call(f, "setControlVolumeId", C(k))
            s.call(fm, "addFace", C(k), f)
        g = s.new("CFvmFace")
        s.call(g, "setControlVolumeId", C(77))
        s.call(g, "setNeighborId", C(78))
        s.call(fm, "setFace", C(6), g)
        r = [s.int(s.call(s.call(fm, "face", C(k)), "controlVolumeId")) for k in (6, 2)]
        ctx.ob(key, r == [77, 2] and s.int(s.call(fm, "nbFaces")) == 2, where, "faces lead to cells %s after replacing the first" % r)
        f = s.call(fm, "face", C(6))
        for q, e in ((77, (77, 78)), (78, (78, 77))):
            r = (s.int(s.call(f, "controlVolumeId", C(q))), s.int(s.call(f, "neighborId", C(q))))
            ctx.ob("face:sides", r == e, where, "from cell %d the face belongs to %d and leads to %d" % (q, r[0], r[1]))
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def reset(ctx):
    """reset objects behave as new ones"""
    key = "reset:face"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CFvmFace", "reset")
        f = s.new("CFvmFace")
        for k in range(3):
            s.call(f, "addNode", s.xyz("CFvmNode", *[V("p%d%s" % (k, q)) for q in "xyz"]))
        s.call(f, "setControlVolumeId", C(5))
        s.call(f, "setNeighborId", C(6))
        s.call(f, "setHasPair", TRUE)
        s.call(f, "setElementId", C(5))
        s.call(f, "addNodeId", C(5))
        s.call(f, "setBoundaryType", s.enum("EFvmBoundaryType", "BT_WALL") if False else s.call(s.new("CFvmFace"), "boundaryType"))
        s.call(f, "reset")
        q = s.new("CFvmFace")
        for nm in ("controlVolumeId", "nbNodeIds"):
            ctx.ob("%s:%s" % (key, nm), s.int(s.call(f, nm)) == s.int(s.call(q, nm)), where, "%s survives reset" % nm)
        ctx.ob(key + ":neighborId", s.int(s.call(f, "neighborId", C(0))) == s.int(s.call(q, "neighborId", C(0))), where, "the neighbour survives reset")
        ctx.ob(key + ":hasPair", s.call(f, "hasPair") == s.call(q, "hasPair"), where, "hasPair survives reset")
        n = s.int(s.call(s.call(f, "polyline"), "nbVertices"))
        ctx.ob(key + ":corners", n == 0, where, "%d corners survive reset" % n)
        ctx.seen(s.I)
    attempt(ctx, key, key, go)
    key = "reset:cell"

    def go():
        x = F(ctx, "hexahedron")
        s = x.s
        where = s.where("CFvmControlVolume", "reset")
        cv = s.call(x.make(), "controlVolume", C(x.eid[0]))
        for k in ("calculateCentroid", "calculateVolume", "calculateSurfaceArea", "calculateOriginalVolume"):
            s.call(cv, k, FALSE)
        s.call(cv, "setClippedFaceId", C(4))
        s.call(cv, "setClipped", TRUE)
        s.call(cv, "reset")
        ctx.ob(key + ":faces", s.int(s.call(cv, "nbFaces")) == 0, where, "faces survive reset")
        ctx.ob(key + ":clipped", s.call(cv, "isClipped") == FALSE, where, "the control volume stays clipped")
        ctx.ob(key + ":clipped-face", s.int(s.call(cv, "clippedFaceId")) == s.int(s.call(s.new("CFvmControlVolume"), "clippedFaceId")), where, "the clipped face id survives reset")
        judge(ctx, key + ":original", [("volume", s.num(s.call(cv, "originalVolume")), ZERO)], where, "original volume after reset")
        # built again it measures the new shape
        y = meshes()["hexahedron"]
        for i, f in enumerate(y[1][1][2]):
            g = s.new("CFvmFace")
            for k in f:
                s.call(g, "addNode", s.xyz("CFvmNode", *y[0][k]))
            s.call(g, "close")
            s.call(cv, "addFace", C(i), g)
        s.call(cv, "calculateVolume", FALSE)
        judge(ctx, key + ":volume", [("volume", s.num(s.call(cv, "volume")), y[1][1][3])], where, "volume of the shape built after reset")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)
    key = "set:face"

    def go():
        w = world(ctx)
        s = w.s
        facts(s)
        where = s.where("CFvmFace", "set")

        G = {"p": [(0, 0, 0), (4, 0, 1), (5, 4, 2), (0, 4, 1)], "q": [(7, 0, 0), (13, 0, 6), (4, 6, 9)]}

        def poly(pre, n):
            p = s.new("CGeoPolyline")
            for k in range(n):
                s.call(p, "addVertex", s.xyz("CGeoCoordinate", *[C(q) for q in G[pre][k]]))
            g = s.new("CGeoPolygon")
            s.call(g, "setPolyline", p)
            return g
        f = s.new("CFvmFace", poly("p", 4))
        s.call(f, "calculateCentroid", FALSE)
        s.call(f, "set", poly("q", 3))
        s.call(f, "calculateCentroid", FALSE)
        l = s.call(f, "polyline")
        got = [s.vec(s.call(l, "vertex", C(i))) for i in range(s.int(s.call(l, "nbVertices")))]
        want = [[C(q) for q in G["q"][k]] for k in (0, 1, 2, 0)]
        ok = len(got) in (3, 4) and all(alg.is_zero(a - b) for u, v in zip(got, want) for a, b in zip(u, v))
        ctx.ob(key + ":corners", ok, where, "set leaves %d corners for a triangle" % len(got))
        if ok:
            judge(ctx, key + ":centroid", [(k, v, mean(want[:3])[k]) for k, v in enumerate(s.vec(s.call(f, "centroid")))], where, "centroid after set")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def clipping(ctx):
    """a cell that is clipped and restored reports the measures of the shape it stands for"""
    key = "clip"

    def go():
        x = F(ctx, "hexahedron")
        s = x.s
        where = s.where("CFvmControlVolume", "clip")
        vol = x.cells[0][3]
        cv = s.call(x.make(), "controlVolume", C(x.eid[0]))

        def clip(I, f, this, a, st, line):
            """the clipped shape: the second cell of the mesh"""
            r = s.new("CGeoPolyhedron")
            for i, fc in enumerate(x.cells[1][2]):
                pl = s.new("CGeoPolyline")
                for k in list(fc) + [fc[0]]:
                    s.call(pl, "addVertex", s.xyz("CGeoCoordinate", *x.X[k]))
                g = s.new("CGeoPolygon")
                s.call(g, "setPolyline", pl)
                s.call(r, "addPolygon", C(50 + i), g)
            return r
        n0 = len([g for g in ctx.prog.F if g.get("cls", "").startswith("ENigMA::geometry::CGeoPolyhedron<") and g["name"].split("::")[-1] == "clip"])
        if not n0:
            raise Broken("clip not found")
        x.s.I.hooks["CGeoPolyhedron<double>::clip"] = clip
        for k in ("calculateCentroid", "calculateVolume", "calculateSurfaceArea", "calculateOriginalVolume"):
            s.call(cv, k, FALSE)

        def state(tag, c, clipped):
            X, V_ = x.X, x.cells[c][3]
            for k in ("calculateCentroid", "calculateVolume", "calculateSurfaceArea"):
                s.call(cv, k, FALSE)
            ctx.ob("%s:%s:is" % (key, tag), s.call(cv, "isClipped") == (TRUE if clipped else FALSE), where, "isClipped")
            judge(ctx, "%s:%s:volume" % (key, tag), [("volume", s.num(s.call(cv, "volume")), V_)], where, "volume when %s" % tag)
            cen = [mean([X[i] for i in x.cells[c][1]])[k] for k in range(3)]
            judge(ctx, "%s:%s:centroid" % (key, tag), [(k, v, cen[k]) for k, v in enumerate(s.vec(s.call(cv, "centroid")))], where, "centroid when %s" % tag)
            area = sum((norm(varea([X[i] for i in f])) for f in x.cells[c][2]), ZERO)
            judge(ctx, "%s:%s:surface" % (key, tag), [("area", s.num(s.call(cv, "surfaceArea")), area)], where, "surface when %s" % tag)
            judge(ctx, "%s:%s:original" % (key, tag), [("volume", s.num(s.call(cv, "originalVolume")), vol)], where, "original volume when %s" % tag)
        state("whole", 0, False)
        frac, it = s.tmp("frac", "double"), s.tmp("it", "int")
        nrm = s.xyz("CGeoNormal", ONE, ZERO, ZERO)
        s.call(cv, "clip", nrm, V("f"), frac, it, C(50), V("ft"), V("tol"))
        state("clipped", 1, True)
        l = [s.int(s.call(cv, "faceId", C(i))) for i in range(s.int(s.call(cv, "nbFaces")))]
        ctx.ob(key + ":clipped:faces", l == [50 + i for i in range(6)], where, "faces of the clipped cell are %s" % l)
        s.call(cv, "setClipped", FALSE)
        state("restored", 0, False)
        s.call(cv, "setClipped", TRUE)
        state("clipped again", 1, True)
        s.call(cv, "calculateOriginalVolume", TRUE)
        state("original again", 1, True)
        r = s.num(s.call(cv, "originalAvFaceDist", C(50)))
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def search(ctx):
    key = "search"

    def go():
        x = F(ctx, "hexahedron")
        s = x.s
        where = s.where("CFvmMeshSearch", "build")
        fm = x.make()
        q = s.new("CFvmMeshSearch", fm)
        for rep in (1, 2):
            s.call(q, "build")
            for e, f in x.sides:
                c = mean([x.X[i] for i in f])
                out = s.vector("int", "out%d%s%d" % (rep, "".join(map(str, f)), e))
                push(s, out, C(99))
                s.assume(absint.compare("<", ZERO, V("dist")))
                s.call(q, "findClosestBoundaryFaces", s.xyz("CGeoCoordinate", *c), V("dist"), out)
                ids = [s.int(s.at(out, i, "int")) for i in range(s.size(out))]
                want = []
                for i in range(s.int(s.call(fm, "nbFaces"))):
                    k = s.int(s.call(fm, "faceId", C(i)))
                    if set(x.ref(x.corners(s.call(fm, "face", C(k))))) == set(f):
                        want.append(k)
                if frozenset(f) in x.shared:
                    want = []
                ctx.ob("%s:found:%d" % (key, rep), ids == want, where, "at the centre of side %s the boundary faces found are %s, expected %s" % (f, ids, want))
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def check(ctx):
    ctx.rule("on two-cell meshes with symbolic sizes, in three numberings: one face per distinct side, mutual owner and neighbour, outward area vectors, closed cells, volumes equal to the geometry and adding up")
    ctx.rule("after add, replace, remove and reset histories: ids listed once in insertion order, indices the positions in that list, next ids unused, ids leading to the entities added")
    ctx.rule("measures of a control volume follow clipping, restoring and resetting it")
    for k in sorted(meshes()):
        tiling(ctx, k)
    listing(ctx, "Face", True)
    listing(ctx, "ControlVolume", False)
    replaced(ctx)
    reset(ctx)
    clipping(ctx)
    search(ctx)
