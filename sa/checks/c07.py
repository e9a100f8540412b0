"""Cached measures: every history of computing, resetting, refilling, moving corners, copying and
recalculating is interpreted abstractly on symbolic corners; the measure obtained at its end must be
the value a fresh object with the same corners yields (identical normal forms)."""
from checks.c06 import *

MIN = 20

MEAS = {
    "CGeoTriangle": (3, ["area", "normal", "centroid", "box"]),
    "CGeoQuadrilateral": (4, ["area", "normal", "centroid", "box"]),
    "CGeoTetrahedron": (4, ["volume", "surfaceArea", "centroid", "box"]),
    "CGeoTriangularPrism": (6, ["volume", "centroid", "box"]),
    "CGeoHexahedron": (8, ["volume", "centroid", "box"]),
    "CGeoPolyline": (4, ["length", "box"]),
    "CGeoPolygon": (4, ["area", "normal", "centroid", "box"]),
    "CGeoPolyhedron": (8, ["volume", "surfaceArea", "centroid", "box"]),
    "CGeoLine": (2, ["length", "box"]),
    "CGeoLineList": (3, ["length"]),
}
CALC = {"area": "calculateArea", "normal": "calculateNormal", "centroid": "calculateCentroid", "box": "calculateBoundingBox",
        "volume": "calculateVolume", "surfaceArea": "calculateSurfaceArea", "length": "calculateLength"}


class M:
    def __init__(self, g, cls):
        self.g, self.s, self.cls = g, g.s, cls

    def pts(self, tag, n):
        if self.cls == "CGeoPolyhedron":
            a, b, c = (V(x + tag) for x in "abc")
            for x in "abc":
                alg.POSITIVE.add(alg.atom_id(("sym", x + tag)))
            # another orientation for the earlier shape: its faces have other normals
            turn = (lambda r: [r[2], r[0], r[1]]) if tag == "y" else (lambda r: r)
            return [turn([a * C(p[0]), b * C(p[1]), c * C(p[2])]) for p in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1))]
        if self.cls == "CGeoPolygon":
            # first side along an axis: the closed forms stay small
            A, D = V("A" + tag), V("D" + tag)
            alg.POSITIVE.update((alg.atom_id(("sym", "A" + tag)), alg.atom_id(("sym", "D" + tag))))
            o = [V(x + tag) for x in "xyz"]
            X = [[o[0], o[1], o[2]], [o[0] + A, o[1], o[2]], [V("u" + tag), o[1] + D, o[2]], [V("v" + tag), V("w" + tag), o[2]]]
            return [[q[2], q[0], q[1]] for q in X] if tag == "y" else X
        return symp(n, "p" + tag)

    def fill(self, o, X):
        s = self.s
        xs = [s.xyz("CGeoCoordinate", *x) for x in X]
        if self.cls == "CGeoLine":
            s.call(o, "setStartPoint", xs[0])
            s.call(o, "setEndPoint", xs[1])
        elif self.cls == "CGeoPolygon":
            s.call(o, "setPolyline", self.g.shape("CGeoPolyline", X + [X[0]]))
        elif self.cls == "CGeoLineList":
            for p, q in zip(X, X[1:]):
                s.call(o, "addLine", self.g.line(p, q))
        elif self.cls == "CGeoPolyhedron":
            src = s.new("CGeoPolyhedron", self.g.shape("CGeoHexahedron", X))
            s.call(o, "set", src)
        else:
            for x in xs:
                s.call(o, "addVertex", x)

    def move(self, o, X):
        """the corners of an existing object are changed in place"""
        s = self.s
        xs = [s.xyz("CGeoCoordinate", *x) for x in X]
        if self.cls == "CGeoLine":
            s.call(o, "setEndPoint", xs[1])
            s.call(o, "setStartPoint", xs[0])
        elif self.cls == "CGeoPolygon":
            pl = s.call(o, "polyline")
            for i, x in enumerate(xs + [xs[0]]):
                s.call(pl, "setVertex", C(i), x)
        elif self.cls == "CGeoLineList":
            for i in range(len(xs) - 1):
                l = s.call(o, "line", C(i))
                s.call(l, "setStartPoint", xs[i])
                s.call(l, "setEndPoint", xs[i + 1])
        elif self.cls == "CGeoPolyhedron":
            src = s.new("CGeoPolyhedron", self.g.shape("CGeoHexahedron", X))
            for i in range(6):
                pl = s.call(s.call(o, "polygon", C(i)), "polyline")
                q = s.call(s.call(src, "polygon", C(i)), "polyline")
                for k in range(5):
                    s.call(pl, "setVertex", C(k), s.call(q, "vertex", C(k)))
        else:
            for i, x in enumerate(xs):
                s.call(o, "setVertex", C(i), x)

    def calc(self, o, m, force):
        self.s.call(o, CALC[m], force)

    def get(self, o, m):
        s = self.s
        if m == "box":
            b = s.call(o, "boundingBox")
            return [("min " + "xyz"[i], v) for i, v in enumerate(s.vec(s.call(b, "min")))] + [("max " + "xyz"[i], v) for i, v in enumerate(s.vec(s.call(b, "max")))]
        if m in ("normal", "centroid"):
            return [("xyz"[i], v) for i, v in enumerate(s.vec(s.call(o, m)))]
        return [("", s.num(s.call(o, m)))]


def histories(ctx, cls):
    n, meas = MEAS[cls]
    s0 = G(ctx).s
    for m in meas:
        where = s0.where(cls, CALC[m])

        def run(name, what, f):
            def go():
                alg.POSITIVE.clear()
                g = G(ctx)
                h = M(g, cls)
                s = g.s
                Y, X = h.pts("y", n), h.pts("x", n)
                eps = P.atom(("sym", "numeric_limits", "epsilon"))
                if cls in ("CGeoPolygon", "CGeoPolyhedron"):
                    prs = [("A", "D")] if cls == "CGeoPolygon" else [("a", "b"), ("b", "c"), ("a", "c")]
                    s.assume(*[absint.compare("<", eps, V(p + t) * V(q + t)) for p, q in prs for t in "xy"], absint.compare("<", eps, ONE))
                o = s.new(cls)
                h.fill(o, X)
                h.calc(o, m, False)
                want = h.get(o, m)
                got = f(h, s, X, Y)
                judge(ctx, "%s:%s:%s" % (cls[4:], m, name), [(l, a, b) for (l, a), (_, b) in zip(got, want)], where, what, sig=True)
                ctx.seen(s.I)
            attempt(ctx, "%s:%s:%s" % (cls[4:], m, name), where, go)

        def others(h, o):
            for k in meas:
                h.calc(o, k, False)

        def refill(h, s, X, Y):
            o = s.new(cls)
            h.fill(o, Y)
            others(h, o)
            s.call(o, "reset")
            h.fill(o, X)
            h.calc(o, m, False)
            return h.get(o, m)

        def moved(h, s, X, Y):
            o = s.new(cls)
            h.fill(o, Y)
            others(h, o)
            h.move(o, X)
            h.calc(o, m, True)
            return h.get(o, m)

        def again(h, s, X, Y):
            o = s.new(cls)
            h.fill(o, X)
            others(h, o)
            others(h, o)
            h.calc(o, m, True)
            return h.get(o, m)

        def copied(h, s, X, Y):
            o = s.new(cls)
            h.fill(o, X)
            h.calc(o, m, False)
            t = (("obj", "copy", id(o)), ())
            c = Ref(t, o.ty)
            s.I.copy(s.st, t, o.loc, quiet=True)
            h.calc(c, m, False)
            return h.get(c, m)
        run("refilled", "measure of an object that was reset and filled again", refill)
        run("moved", "recalculated measure after the corners were moved", moved)
        run("repeated", "measure after further calculations", again)
    if cls in ("CGeoLine", "CGeoPolygon"):
        # these setters replace the figure: no request to recalculate is needed
        for m in meas:
            def go():
                alg.POSITIVE.clear()
                g = G(ctx)
                h = M(g, cls)
                s = g.s
                Y, X = h.pts("y", n), h.pts("x", n)
                eps = P.atom(("sym", "numeric_limits", "epsilon"))
                if cls == "CGeoPolygon":
                    s.assume(*[absint.compare("<", eps, V("A" + t) * V("D" + t)) for t in "xy"], absint.compare("<", eps, ONE))
                o = s.new(cls)
                h.fill(o, X)
                h.calc(o, m, False)
                want = h.get(o, m)
                o = s.new(cls)
                h.fill(o, Y)
                for k in meas:
                    h.calc(o, k, False)
                h.fill(o, X)
                h.calc(o, m, False)
                judge(ctx, "%s:%s:replaced" % (cls[4:], m), [(l, a, b) for (l, a), (_, b) in zip(h.get(o, m), want)], s.where(cls, CALC[m]), "measure after the figure was replaced", sig=True)
            attempt(ctx, "%s:%s:replaced" % (cls[4:], m), s0.where(cls, CALC[m]), go)
    if cls == "CGeoPolyhedron":
        # the earlier figure had more faces than the new one
        T = [[ZERO, ZERO, ZERO], [V("k"), ZERO, ZERO], [ZERO, V("k"), ZERO], [ZERO, ZERO, V("k")]]
        for m in meas:
            def go():
                alg.POSITIVE.clear()
                g = G(ctx)
                h = M(g, cls)
                s = g.s
                Y = h.pts("y", n)
                alg.POSITIVE.add(alg.atom_id(("sym", "k")))
                eps = P.atom(("sym", "numeric_limits", "epsilon"))
                s.assume(*[absint.compare("<", eps, V(p + "y") * V(q + "y")) for p, q in (("a", "b"), ("b", "c"), ("a", "c"))], absint.compare("<", eps, V("k") * V("k")), absint.compare("<", eps, ONE))
                src = s.new(cls, g.shape("CGeoTetrahedron", T))

                def fill(o):
                    for i in range(4):
                        s.call(o, "addPolygon", C(i), s.call(src, "polygon", C(i)))
                o = s.new(cls)
                fill(o)
                h.calc(o, m, False)
                want = h.get(o, m)
                o = s.new(cls)
                h.fill(o, Y)
                for k in meas:
                    h.calc(o, k, False)
                s.call(o, "reset")
                fill(o)
                h.calc(o, m, False)
                judge(ctx, "%s:%s:smaller" % (cls[4:], m), [(l, a, b) for (l, a), (_, b) in zip(h.get(o, m), want)], s.where(cls, "reset"), "measure of a figure with fewer parts than the one before it", sig=True)
            attempt(ctx, "%s:%s:smaller" % (cls[4:], m), s0.where(cls, CALC[m]), go)
    ctx.count("classes")


def edits(ctx):
    """sequence edits of a vertex list"""
    g = G(ctx)
    s = g.s
    cls = "CGeoPolyline"
    X = symp(5)
    W = lambda m: s.where("CGeoVertexList", m)

    def seq(o):
        k = int(s.num(s.call(o, "nbVertices")).cval())
        return [s.vec(s.call(o, "vertex", C(i))) for i in range(k)]

    def cmp(key, o, want, where, what):
        got = seq(o)
        prs = [("number of vertices", C(len(got)), C(len(want)))]
        prs += [("vertex %d.%s" % (i, l), a, b) for i, (p, q) in enumerate(zip(got, want)) for l, a, b in lab(p, q)]
        judge(ctx, key, prs, where, what, sig=True)
    mk = lambda k: g.shape(cls, X[:k])
    q = lambda i: s.xyz("CGeoCoordinate", *X[i])

    def ins():
        for at in range(4):
            o = mk(4)
            s.call(o, "insertVertex", C(at), q(4))
            cmp("edit:insert-%d" % at, o, X[:at] + [X[4]] + X[at:4], W("insertVertex"), "inserting a vertex")

    def rem():
        for at in range(4):
            o = mk(4)
            s.call(o, "removeVertex", C(at))
            cmp("edit:remove-%d" % at, o, X[:at] + X[at + 1:4], W("removeVertex"), "removing a vertex")

    def inv():
        for k in (1, 2, 3, 4, 5):
            o = mk(k)
            s.call(o, "invert")
            cmp("edit:invert-%d" % k, o, X[:k][::-1], W("invert"), "inverting a vertex list")

    def wrap():
        o = mk(4)
        for i in range(4, 8):
            judge(ctx, "edit:wrap-%d" % i, lab(s.vec(s.call(o, "vertex", C(i))), X[i - 4]), W("vertex"), "vertex index past the end starts over", sig=True)
        s.call(o, "setVertex", C(5), q(4))
        cmp("edit:set-wrap", o, [X[0], X[4], X[2], X[3]], W("setVertex"), "vertex index past the end starts over")

    def clr():
        o = mk(4)
        s.call(o, "reset")
        judge(ctx, "edit:reset", [("", s.num(s.call(o, "nbVertices")), ZERO)], W("reset"), "a reset list is empty", sig=True)

    def pinv():
        alg.POSITIVE.clear()
        h = M(g, "CGeoPolygon")
        Y = h.pts("y", 4)
        eps = P.atom(("sym", "numeric_limits", "epsilon"))
        s.assume(absint.compare("<", eps, V("Ay") * V("Dy")), absint.compare("<", eps, ONE))
        o = s.new("CGeoPolygon")
        h.fill(o, Y)
        for k in ("normal", "area", "centroid"):
            h.calc(o, k, False)
        b = [h.get(o, k) for k in ("normal", "area", "centroid")]
        s.call(o, "invert")
        a = [h.get(o, k) for k in ("normal", "area", "centroid")]
        judge(ctx, "edit:polygon-invert", [("normal " + l, x, -y) for (l, x), (_, y) in zip(a[0], b[0])] + [("area", a[1][0][1], b[1][0][1])] + [("centroid " + l, x, y) for (l, x), (_, y) in zip(a[2], b[2])], s.where("CGeoPolygon", "invert"), "inverting a polygon reverses its normal and keeps area and centroid", sig=True)
        po = s.call(o, "polyline")
        Z = Y + [Y[0]]
        judge(ctx, "edit:polygon-invert-order", [("vertex %d.%s" % (i, l), x, y) for i in range(5) for l, x, y in lab(s.vec(s.call(po, "vertex", C(i))), Z[4 - i])], s.where("CGeoPolygon", "invert"), "inverting a polygon reverses the order of its corners", sig=True)
        s.I.facts = None

    def linv():
        o = s.new("CGeoLineList")
        for p, r in zip(X, X[1:]):
            s.call(o, "addLine", g.line(p, r))
        s.call(o, "invert")
        prs = []
        for i in range(4):
            l = s.call(o, "line", C(i))
            prs += [("line %d %s" % (i, t), a, b) for t, a, b in lab(g.v3(l, None, "startPoint"), X[4 - i]) + lab(g.v3(l, None, "endPoint"), X[3 - i]) + lab(g.v3(l, None, "vector"), minus(X[3 - i], X[4 - i]))]
        judge(ctx, "edit:linelist-invert", prs, s.where("CGeoLineList", "invert"), "inverting a list of lines reverses order and every line", sig=True)

    def ids():
        p = s.new("CGeoPolyhedron")
        for i in (4, 2, 9, 2):
            po = s.new("CGeoPolygon")
            s.call(po, "setPolyline", g.shape("CGeoPolyline", X[:3]))
            s.call(p, "addPolygon", C(i), po)
        judge(ctx, "edit:polygon-ids", [("nbPolygons", s.num(s.call(p, "nbPolygons")), C(3))] + [("id %d" % k, s.num(s.call(p, "polygonId", C(k))), C(v)) for k, v in enumerate((4, 2, 9))]
              + [("contains %d" % v, cnd(s, s.call(p, "containsPolygon", C(v))), TRUE if v in (2, 4, 9) else FALSE) for v in (2, 3, 4, 9)], s.where("CGeoPolyhedron", "addPolygon"), "polygons are listed once, in the order in which they were added", sig=True)
        s.call(p, "reset")
        judge(ctx, "edit:polyhedron-reset", [("nbPolygons", s.num(s.call(p, "nbPolygons")), ZERO), ("contains 4", cnd(s, s.call(p, "containsPolygon", C(4))), FALSE)], s.where("CGeoPolyhedron", "reset"), "a reset polyhedron is empty", sig=True)
    for nm, f in (("insert", ins), ("remove", rem), ("invert", inv), ("wrap", wrap), ("reset", clr), ("polygon-invert", pinv), ("linelist-invert", linv), ("polygon-ids", ids)):
        attempt(ctx, "edit:" + nm, W("invert"), f)
    ctx.seen(s.I)


def check(ctx):
    for cls in MEAS:
        histories(ctx, cls)
    edits(ctx)
    alg.POSITIVE.clear()
    ctx.rule("the measure at the end of a history has the normal form a fresh object with the same corners yields")
    ctx.need("classes", 3)
