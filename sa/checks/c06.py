"""Abstract interpretation of the measures of every geometric object on symbolic corner
positions; each resulting closed form (length, area, normal, volume, centroid, bounding box,
projection, decimation) is compared with its geometric definition, piecewise where the code
distinguishes cases."""
from checks.femutil import *
import pw
from fractions import Fraction as Fr

MIN = 25


def minus(a, b):
    return [x - y for x, y in zip(a, b)]


def plus(*vs):
    return [sum((v[i] for v in vs), ZERO) for i in range(3)]


def scale(a, k):
    return [x * k for x in a]


def norm(a):
    return alg.fn("sqrt", dot(a, a))


def triple(a, b, c):
    return dot(cross(a, b), c)


def lab(got, want):
    return [("xyz"[i], g, w) for i, (g, w) in enumerate(zip(got, want))]


def positive(*ps):
    return [c for c in (absint.compare("<", ZERO, p) for p in ps) if c is not TRUE]


class G:
    def __init__(self, ctx):
        self.ctx = ctx
        self.s = Scn(ctx.prog)

    def shape(self, cls, P_):
        o = self.s.new(cls)
        for q in P_:
            self.s.call(o, "addVertex", self.s.xyz("CGeoCoordinate", *q))
        return o

    def num(self, o, meth, get):
        self.s.call(o, meth, False)
        return self.s.num(self.s.call(o, get))

    def v3(self, o, meth, get):
        if meth:
            self.s.call(o, meth, False)
        return self.s.vec(self.s.call(o, get))

    def box(self, o):
        self.s.call(o, "calculateBoundingBox", False)
        b = self.s.call(o, "boundingBox")
        return self.s.vec(self.s.call(b, "min")), self.s.vec(self.s.call(b, "max"))

    def line(self, a, b):
        return self.s.new("CGeoLine", self.s.xyz("CGeoCoordinate", *a), self.s.xyz("CGeoCoordinate", *b))


def fold(name, xs):
    r = xs[0]
    for x in xs[1:]:
        r = alg.fn(name, r, x)
    return r


def wbox(X):
    return [fold("min", [p[d] for p in X]) for d in range(3)], [fold("max", [p[d] for p in X]) for d in range(3)]


def symp(n, pre="p"):
    return [[V("%s%d%s" % (pre, i, d)) for d in "xyz"] for i in range(n)]


def attempt(ctx, key, where, f):
    """one group of obligations; what cannot be evaluated is undecided"""
    try:
        f()
    except absint.Unsupported as e:
        ctx.ob(key, None, where, "not evaluated: %s" % e)
    except (Unk, Broken, KeyError) as e:
        ctx.ob(key, None, where, "not evaluated: %s" % e)


def boxes(ctx, key, g, o, X, where):
    def f():
        mn, mx = g.box(o)
        wn, wx = wbox(X)
        judge(ctx, key + ":bounding-box", [("min " + l, a, b) for l, a, b in lab(mn, wn)] + [("max " + l, a, b) for l, a, b in lab(mx, wx)], where, "bounding box", sig=True)
    attempt(ctx, key + ":bounding-box", where, f)


def lines(ctx):
    g = G(ctx)
    s = g.s
    a, b, q = symp(3)
    W = lambda m: s.where("CGeoLine", m)

    def basic():
        l = g.line(a, b)
        judge(ctx, "line:length", [("", g.num(l, "calculateLength", "length"), norm(minus(b, a)))], W("calculateLength"), "length of a line")
        judge(ctx, "line:vector", lab(g.v3(l, None, "vector"), minus(b, a)), W("vector"), "direction of a line")
        f = V("f")
        judge(ctx, "line:midpoint", lab(s.vec(s.call(l, "midPoint", f)), plus(a, scale(minus(b, a), f))), W("midPoint"), "interpolated point of a line")
        boxes(ctx, "line", g, l, [a, b], W("calculateBoundingBox"))
        s.call(l, "invert")
        judge(ctx, "line:invert", lab(g.v3(l, None, "startPoint"), b) + lab(g.v3(l, None, "endPoint"), a) + lab(g.v3(l, None, "vector"), minus(a, b)), W("invert"), "inverted line")
    attempt(ctx, "line:basic", W("calculateLength"), basic)

    def setters():
        for first in (0, 1):
            l = s.new("CGeoLine")
            for k in ((0, 1), (1, 0))[first]:
                s.call(l, ("setStartPoint", "setEndPoint")[k], s.xyz("CGeoCoordinate", *(a, b)[k]))
            judge(ctx, "line:set-%s-last" % ("end", "start")[first], lab(g.v3(l, None, "vector"), minus(b, a)) + [("length", g.num(l, "calculateLength", "length"), norm(minus(b, a)))],
                  W(("setEndPoint", "setStartPoint")[first]), "line built point by point")
    attempt(ctx, "line:setters", W("setStartPoint"), setters)

    def dist():
        # point to line: the three positions of the foot of the perpendicular
        l = g.line(a, b)
        out, d = s.tmp("foot", s.cname("CGeoCoordinate")), s.tmp("dist", "double")
        v, w = minus(b, a), minus(q, a)
        tt = dot(w, v) / dot(v, v)
        par = alg.ite(absint.compare("<", tt, ZERO), ZERO, alg.ite(absint.compare("<", ONE, tt), ONE, tt))
        foot = plus(a, scale(v, par))
        s.call(l, "distance", s.xyz("CGeoCoordinate", *q), out, d, ZERO)
        facts = positive(dot(v, v))
        judge(ctx, "line:point-distance", lab(s.vec(out), foot) + [("distance", s.num(d), norm(minus(q, foot)))], W("distance"), "nearest point of a line", facts=facts)
    attempt(ctx, "line:point-distance", W("distance"), dist)

    def clip():
        # the part of the segment on the side of the plane where n.p < d
        l = g.line(a, b)
        n, d = symp(1, "n")[0], V("d")
        pl = s.new("CGeoPlane", s.xyz("CGeoNormal", *n), d)
        r = s.call(l, "clip", pl, ZERO)
        v = minus(b, a)
        fa, fb = dot(n, a) - d, dot(n, b) - d
        x = plus(a, scale(v, -fa / dot(n, v)))
        ina, inb = absint.compare("<", fa, ZERO), absint.compare("<", fb, ZERO)
        outa, outb = absint.compare("<", ZERO, fa), absint.compare("<", ZERO, fb)
        sp, ep = g.v3(r, None, "startPoint"), g.v3(r, None, "endPoint")
        judge(ctx, "line:clip-inside", lab(sp, a) + lab(ep, b), W("clip"), "a line on the kept side is kept whole", facts=[ina, inb])
        judge(ctx, "line:clip-leaving", lab(sp, a) + lab(ep, x), W("clip"), "a line leaving the kept side ends on the plane", facts=[ina, outb])
        judge(ctx, "line:clip-entering", lab(sp, x) + lab(ep, b), W("clip"), "a line entering the kept side starts on the plane", facts=[outa, inb])
        judge(ctx, "line:clip-outside", lab(minus(ep, sp), [ZERO] * 3), W("clip"), "nothing is left of a line on the other side", facts=[outa, outb])
    attempt(ctx, "line:clip", W("clip"), clip)

    def meet():
        l = g.line(a, b)
        n, d = symp(1, "n")[0], V("d")
        pl = s.new("CGeoPlane", s.xyz("CGeoNormal", *n), d)
        pt, ty = s.tmp("pt", s.cname("CGeoCoordinate")), s.tmp("ty", s.p.cname_enum("CGeoIntersectionType") if hasattr(s.p, "cname_enum") else "int")
        r = s.call(l, "intersects", pl, pt, ty, ZERO)
        fa, fb = dot(n, a) - d, dot(n, b) - d
        facts = [absint.compare("==", dot(n, n), ONE)]
        unit = alg.ONE - n[1] * n[1] - n[2] * n[2]
        # unit normal: n.x is eliminated through n.x^2 = 1 - n.y^2 - n.z^2
        nn = alg.atom_id(("sym", "n0x"))
        pos = positive(fb * C(-1) * fa) if False else None
        r_ = r if isinstance(r, Cond) else absint.compare("==", s.num(r), ONE)
        cross_ = absint.cor(absint.cand(absint.compare("<", fa, ZERO), absint.compare("<", ZERO, fb)), absint.cand(absint.compare("<", ZERO, fa), absint.compare("<", fb, ZERO)))
        return r_, cross_, pt
    # judged for the coordinate planes (unit normals without a square root)
    def meetaxes():
        for ax in range(3):
            for sg in (1, -1):
                l = g.line(a, b)
                n = [C(sg) if i == ax else ZERO for i in range(3)]
                d = V("d")
                pl = s.new("CGeoPlane", s.xyz("CGeoNormal", *n), d)
                pt, ty = s.tmp("pt", s.cname("CGeoCoordinate")), s.tmp("ty", "int")
                r = s.call(l, "intersects", pl, pt, ty, ZERO)
                fa, fb = dot(n, a) - d, dot(n, b) - d
                x = plus(a, scale(minus(b, a), -fa / dot(n, minus(b, a))))
                lt = lambda p, q_: absint.compare("<", p, q_)
                for nm, facts in (("through", [lt(fa, ZERO), lt(ZERO, fb)]), ("back", [lt(ZERO, fa), lt(fb, ZERO)])):
                    judge(ctx, "line:plane-%s-%s%s" % (nm, "+-"[sg < 0], "xyz"[ax]), [("found", cnd(s, r), TRUE)] + lab(s.vec(pt), x), W("intersects"), "a line crossing a plane meets it in the crossing point", facts=facts)
                for nm, facts in (("above", [lt(ZERO, fa), lt(ZERO, fb)]), ("below", [lt(fa, ZERO), lt(fb, ZERO)])):
                    judge(ctx, "line:plane-%s-%s%s" % (nm, "+-"[sg < 0], "xyz"[ax]), [("found", cnd(s, r), FALSE)], W("intersects"), "a line on one side of a plane does not meet it", facts=facts)
    attempt(ctx, "line:plane", W("intersects"), meetaxes)
    ctx.seen(s.I)
    ctx.count("shapes")


def cnd(s, r):
    r = s.I.rv(r, s.st)
    if isinstance(r, Cond):
        return r
    return absint.cnot(absint.compare("==", s.num(r), ZERO))


def planes(ctx):
    g = G(ctx)
    s = g.s
    n, p = symp(2)
    d = V("d")
    W = lambda m: s.where("CGeoPlane", m)

    def f():
        pl = s.new("CGeoPlane", s.xyz("CGeoNormal", *n), d)
        q = s.xyz("CGeoCoordinate", *p)
        sd = dot(n, p) - d
        out = s.tmp("foot", s.cname("CGeoCoordinate"))
        judge(ctx, "plane:distance", [("", s.num(s.call(pl, "distance", q)), alg.fn("fabs", sd))], W("distance"), "distance to a plane")
        r = s.num(s.call(pl, "distance", q, out))
        judge(ctx, "plane:foot", [("distance", r, alg.fn("fabs", sd))] + lab(s.vec(out), minus(p, scale(n, sd))), W("distance"), "projection on a plane")
        s.call(pl, "invert")
        judge(ctx, "plane:invert", lab(g.v3(pl, None, "normal"), scale(n, C(-1))) + [("d", s.num(s.call(pl, "d")), -d)], W("invert"), "inverted plane")
        s.call(pl, "set", s.xyz("CGeoNormal", *n), d)
        e = V("e")
        s.call(pl, "setD", e)
        judge(ctx, "plane:set", lab(g.v3(pl, None, "normal"), n) + [("d", s.num(s.call(pl, "d")), e)], W("set"), "plane set to a normal and a distance")
    attempt(ctx, "plane", W("distance"), f)
    ctx.seen(s.I)
    ctx.count("shapes")


def flat(ctx, cls, n):
    g = G(ctx)
    s = g.s
    X = symp(n)
    nm = "triangle" if n == 3 else "quadrilateral"
    W = lambda m: s.where(cls, m)
    N = cross(minus(X[1], X[0]), minus(X[2], X[0])) if n == 3 else cross(minus(X[2], X[0]), minus(X[3], X[1]))
    A = norm(N) * C(Fr(1, 2))
    facts = positive(A)

    def f():
        o = g.shape(cls, X)
        judge(ctx, nm + ":area", [("", g.num(o, "calculateArea", "area"), A)], W("calculateArea"), "area")
        o = g.shape(cls, X)
        judge(ctx, nm + ":normal", lab(g.v3(o, "calculateNormal", "normal"), [x / norm(N) for x in N]), W("calculateNormal"), "unit normal", facts=facts)
        judge(ctx, nm + ":centroid", lab(g.v3(o, "calculateCentroid", "centroid"), scale(plus(*X), C(Fr(1, n)))), W("calculateCentroid"), "centroid")
        boxes(ctx, nm, g, o, X, W("calculateBoundingBox"))
    attempt(ctx, nm, W("calculateArea"), f)
    if n == 3:
        def pl():
            o = g.shape(cls, X)
            p = s.call(o, "getPlane")
            pn, d = g.v3(p, None, "normal"), s.num(s.call(p, "d"))
            judge(ctx, "triangle:plane", lab(pn, [x / norm(N) for x in N]) + [("d", d, dot(N, X[0]) / norm(N))], W("getPlane"), "plane through the corners", facts=facts)
        attempt(ctx, "triangle:plane", W("getPlane"), pl)
    else:
        def de():
            o = g.shape(cls, X)
            v = s.vector(s.cname("CGeoTriangle"))
            s.call(o, "decimate", v)
            k = s.size(v)
            T = []
            for i in range(k):
                t = s.at(v, i, s.cname("CGeoTriangle"))
                T.append([s.vec(s.call(t, "vertex", C(j))) for j in range(3)])
            tot = plus(*[cross(minus(t[1], t[0]), minus(t[2], t[0])) for t in T])
            judge(ctx, "quadrilateral:decimate", lab(tot, N), W("decimate"), "the triangles of a quadrilateral cover it with its orientation")
            own = all(any(all(alg.eq(c[d], x[d]) for d in range(3)) for x in X) for t in T for c in t)
            ctx.ob("quadrilateral:decimate-corners", own, W("decimate"), "triangles use the corners of the quadrilateral")
        attempt(ctx, "quadrilateral:decimate", W("decimate"), de)
    ctx.seen(s.I)
    ctx.count("shapes")


def solids(ctx):
    g = G(ctx)
    s = g.s
    T = symp(4)
    W = lambda m: s.where("CGeoTetrahedron", m)
    vol = lambda a, b, c, d: -triple(minus(b, a), minus(c, a), minus(d, a)) * C(Fr(1, 6))

    def f():
        o = g.shape("CGeoTetrahedron", T)
        judge(ctx, "tetrahedron:volume", [("", g.num(o, "calculateVolume", "volume"), vol(*T))], W("calculateVolume"), "volume")
        judge(ctx, "tetrahedron:centroid", lab(g.v3(o, "calculateCentroid", "centroid"), scale(plus(*T), C(Fr(1, 4)))), W("calculateCentroid"), "centroid")
        boxes(ctx, "tetrahedron", g, o, T, W("calculateBoundingBox"))
    attempt(ctx, "tetrahedron", W("calculateVolume"), f)

    def sa():
        # corners on the axes keep the square roots readable; the general case follows from the triangle area
        a, b, c = V("a"), V("b"), V("c")
        Q = [[V("x%d" % i), V("y%d" % i), V("z%d" % i)] for i in range(4)]
        o = g.shape("CGeoTetrahedron", Q)
        want = ZERO
        for i, j, k in ((0, 1, 2), (0, 1, 3), (1, 2, 3), (2, 0, 3)):
            want = want + norm(cross(minus(Q[j], Q[i]), minus(Q[k], Q[i]))) * C(Fr(1, 2))
        judge(ctx, "tetrahedron:surface", [("", g.num(o, "calculateSurfaceArea", "surfaceArea"), want)], W("calculateSurfaceArea"), "surface area")
    attempt(ctx, "tetrahedron:surface", W("calculateSurfaceArea"), sa)

    def inside():
        # a point given by barycentric coordinates with respect to a positively oriented tetrahedron
        B = [[C(x) for x in q] for q in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1))]
        o = g.shape("CGeoTetrahedron", B)
        u, v, w = V("u"), V("v"), V("w")
        r = cnd(s, s.call(o, "contains", s.xyz("CGeoCoordinate", u, v, w), ZERO))
        lt = lambda a, b: absint.compare("<", a, b)
        judge(ctx, "tetrahedron:contains-inside", [("", r, TRUE)], W("contains"), "points inside are found inside", facts=[lt(ZERO, u), lt(ZERO, v), lt(ZERO, w), lt(u + v + w, ONE)])
        for nm, fc in (("x", lt(u, ZERO)), ("y", lt(v, ZERO)), ("z", lt(w, ZERO)), ("slant", lt(ONE, u + v + w))):
            judge(ctx, "tetrahedron:contains-beyond-" + nm, [("", r, FALSE)], W("contains"), "points beyond a face are found outside", facts=[fc])
    attempt(ctx, "tetrahedron:contains", W("contains"), inside)

    # parallelepiped hexahedron and prism
    o_, e1, e2, e3 = symp(4, "h")
    comb = lambda a, b, c: plus(o_, scale(e1, C(a)), scale(e2, C(b)), scale(e3, C(c)))
    H = [comb(*q) for q in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))]
    Pm = [comb(*q) for q in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1))]
    for cls, nm, X, fac in (("CGeoHexahedron", "hexahedron", H, ONE), ("CGeoTriangularPrism", "prism", Pm, C(Fr(1, 2)))):
        Wc = lambda m, cls=cls: s.where(cls, m)

        def vo():
            o = g.shape(cls, X)
            judge(ctx, nm + ":volume", [("", g.num(o, "calculateVolume", "volume"), -triple(e1, e2, e3) * fac)], Wc("calculateVolume"), "volume of a parallel-sided solid")
        attempt(ctx, nm + ":volume", Wc("calculateVolume"), vo)

        def ce():
            o = g.shape(cls, X)
            judge(ctx, nm + ":centroid", lab(g.v3(o, "calculateCentroid", "centroid"), scale(plus(*X), C(Fr(1, len(X))))), Wc("calculateCentroid"), "centroid", sig=True)
        attempt(ctx, nm + ":centroid", Wc("calculateCentroid"), ce)
        boxes(ctx, nm, g, g.shape(cls, symp(len(X), "q")), symp(len(X), "q"), Wc("calculateBoundingBox"))

    def hd():
        Wc = lambda m: s.where("CGeoHexahedron", m)
        X = symp(8)
        o = g.shape("CGeoHexahedron", X)
        v = s.vector(s.cname("CGeoTetrahedron"))
        s.call(o, "decimate", v)
        Ts = []
        for i in range(s.size(v)):
            t = s.at(v, i, s.cname("CGeoTetrahedron"))
            Ts.append([s.vec(s.call(t, "vertex", C(j))) for j in range(4)])
        # on a parallelepiped all tetrahedra have the same orientation and fill it
        idx = []
        for t in Ts:
            ii = []
            for c in t:
                m = [k for k in range(8) if all(alg.eq(c[d], X[k][d]) for d in range(3))]
                ii.append(m[0] if m else None)
            idx.append(ii)
        ok = all(None not in i for i in idx)
        ctx.ob("hexahedron:decimate-corners", ok, Wc("decimate"), "tetrahedra use the corners of the hexahedron")
        if ok:
            vs = [vol(*[H[k] for k in i]) for i in idx]
            full = -triple(e1, e2, e3)
            judge(ctx, "hexahedron:decimate", [("sum", sum(vs, ZERO), full)], Wc("decimate"), "the tetrahedra fill the hexahedron")
            ctx.ob("hexahedron:decimate-orientation", all(any(alg.eq(x, full * C(Fr(k, 6))) for k in (1, 2, 3)) for x in vs), Wc("decimate"), "all tetrahedra have the orientation of the hexahedron: volumes %s" % [alg.show(x / full)[:40] if full.t else "0" for x in vs][:2])
            faces = {}
            for i in idx:
                for a in range(4):
                    k = frozenset(i[:a] + i[a + 1:])
                    faces[k] = faces.get(k, 0) + 1
            ctx.ob("hexahedron:decimate-conforming", all(c <= 2 for c in faces.values()) and sum(1 for c in faces.values() if c == 1) == 12, Wc("decimate"), "tetrahedra meet face to face and leave two triangles on each side")
    attempt(ctx, "hexahedron:decimate", s.where("CGeoHexahedron", "decimate"), hd)
    ctx.seen(s.I)
    ctx.count("shapes", 3)


def rounds(ctx):
    g = G(ctx)
    s = g.s
    c = symp(1, "c")[0]
    r = V("r")
    alg.POSITIVE.add(alg.atom_id(("sym", "r")))
    pi = alg.fn("acos", C(-1))
    for cls, nm in (("CGeoSphere", "sphere"), ("CGeoCircle", "circle")):
        W = lambda m: s.where(cls, m)

        def f():
            o = s.new(cls, s.xyz("CGeoCoordinate", *c), r)
            judge(ctx, nm + ":center", lab(g.v3(o, "calculateCentroid", "centroid"), c) + lab(g.v3(o, None, "center"), c) + [("radius", s.num(s.call(o, "radius")), r)], W("calculateCentroid"), "centre")
            if nm == "sphere":
                judge(ctx, "sphere:volume", [("", g.num(o, "calculateVolume", "volume"), pi * C(Fr(4, 3)) * r.pow(3))], W("calculateVolume"), "volume")
                judge(ctx, "sphere:surface", [("", g.num(o, "calculateSurfaceArea", "surfaceArea"), pi * C(4) * r.pow(2))], W("calculateSurfaceArea"), "surface area")
            else:
                judge(ctx, "circle:area", [("", g.num(o, "calculateArea", "area"), pi * r.pow(2))], W("calculateArea"), "area")
                judge(ctx, "circle:normal", lab(g.v3(o, "calculateNormal", "normal"), [ZERO, ZERO, ONE]), W("calculateNormal"), "normal of a circle in the xy plane")
            mn, mx = g.box(o)
            h = [r, r, r if nm == "sphere" else ZERO]
            judge(ctx, nm + ":bounding-box", [("min " + l, a, b) for l, a, b in lab(mn, minus(c, h))] + [("max " + l, a, b) for l, a, b in lab(mx, plus(c, h))], W("calculateBoundingBox"), "bounding box")
            q = symp(1, "q")[0]
            res = cnd(s, s.call(o, "contains", s.xyz("CGeoCoordinate", *q), ZERO))
            judge(ctx, nm + ":contains", [("", res, absint.compare("<=", norm(minus(q, c)), r))], W("contains"), "points within the radius are inside")
        attempt(ctx, nm, W("calculateBoundingBox"), f)

        def circ():
            n = 4 if nm == "sphere" else 3
            if n == 3:
                x, y, z, A, B, m, t = (V(q) for q in "x y z A B m t".split())
                # corners described by their steps from the middle one; every non-degenerate triangle
                # has such a description, once with a slanted and once with a vertical first step
                for tag, st1, st2, tt in (("slanted", (A, A * m), (B, B * (m + t)), (A, B, m, t, m + t)), ("vertical", (ZERO, A), (B, B * m), (A, B, m)),
                                          ("vertical-horizontal", (ZERO, A), (B, ZERO), (A, B)), ("horizontal-vertical", (A, ZERO), (ZERO, B), (A, B)),
                                          ("horizontal", (A, ZERO), (B, B * m), (A, B, m)), ("slanted-vertical", (A, A * m), (ZERO, B), (A, B, m)), ("slanted-horizontal", (A, A * m), (B, ZERO), (A, B, m))):
                    X = [[x + st1[0], y + st1[1], z], [x, y, z], [x + st2[0], y + st2[1], z]]
                    one(tag, X, [absint.cnot(absint.compare("==", q, ZERO)) for q in tt])
            else:
                X = symp(n)
                one("", X, [absint.cnot(absint.compare("==", triple(minus(X[1], X[0]), minus(X[2], X[0]), minus(X[3], X[0])), ZERO))])

        def one(tag, X, facts):
            o = s.new(cls, *([s.xyz("CGeoCoordinate", *x) for x in X] + [ZERO]))
            ce = g.v3(o, None, "center")
            rad = s.num(s.call(o, "radius"))
            prs = [("corner %d" % i, dot(minus(x, ce), minus(x, ce)), rad.pow(2)) for i, x in enumerate(X)]
            judge(ctx, nm + ":circumscribed" + ("-" + tag if tag else ""), prs, W(cls), "circumscribed %s passes through all points" % nm, facts=facts)
        attempt(ctx, nm + ":circumscribed", W(cls), circ)
    ctx.seen(s.I)
    ctx.count("shapes", 2)


def polys(ctx):
    for n in range(3, 7 if ctx.tier == "quick" else 10):
        polygon(ctx, n)
    polyhedra(ctx)


def polygon(ctx, n):
    g = G(ctx)
    s = g.s
    nm = "polygon-%d" % n
    W = lambda m: s.where("CGeoPolygon", m)
    # a polygon in the plane spanned by two axes, general corner positions
    U = [V("u%d" % i) for i in range(n)]
    Vv = [V("v%d" % i) for i in range(n)]
    k = V("k")
    shoe = sum((U[i] * Vv[(i + 1) % n] - U[(i + 1) % n] * Vv[i] for i in range(n)), ZERO) * C(Fr(1, 2))
    for ax in range(3):
        a1, a2 = (ax + 1) % 3, (ax + 2) % 3
        X = []
        for i in range(n):
            x = [k, k, k]
            x[a1], x[a2] = U[i], Vv[i]
            X.append(x)

        def f():
            pl = g.shape("CGeoPolyline", X)
            s.call(pl, "close", ZERO)
            if ax == 0:
                ln = sum((norm(minus(X[(i + 1) % n], X[i])) for i in range(n)), ZERO)
            # the constructor's duplicate test leaves the closing vertex conditional when corners could coincide
            nb = s.call(pl, "nbVertices")
            po = s.new("CGeoPolygon")
            q = g.shape("CGeoPolyline", X + [X[0]])
            if ax == 0:
                judge(ctx, nm + ":polyline-length", [("", g.num(q, "calculateLength", "length"), ln)], s.where("CGeoPolyline", "calculateLength"), "length of a closed polyline")
                judge(ctx, nm + ":polyline-lines", [("nbLines", s.num(s.call(q, "nbLines")), C(n))] + [("line %d" % i, a, b) for i in range(n) for l, a, b in lab(g.v3(s.call(q, "line", C(i)), None, "startPoint"), X[i]) + lab(g.v3(s.call(q, "line", C(i)), None, "endPoint"), X[(i + 1) % n])], s.where("CGeoPolyline", "line"), "sides of a closed polyline")
                judge(ctx, nm + ":polyline-closed", [("", cnd(s, s.call(q, "isClosed", ZERO)), TRUE)], s.where("CGeoPolyline", "isClosed"), "a polyline that ends where it starts is closed")
            s.call(po, "setPolyline", q)
            if ax == 0:
                judge(ctx, nm + ":centroid", lab(g.v3(po, "calculateCentroid", "centroid"), scale(plus(*X), C(Fr(1, n)))), W("calculateCentroid"), "mean of the corners")
                boxes(ctx, nm, g, po, X, W("calculateBoundingBox"))
                boxes(ctx, nm + "-polyline", g, q, X, s.where("CGeoPolyline", "calculateBoundingBox"))
        attempt(ctx, nm + ":" + "xyz"[ax], W("calculateArea"), f)

        def oriented(along, sg):
            # first side parallel to an axis, the next corner on its left (sg) or right, the rest anywhere
            A, D = V("A"), V("D")
            alg.POSITIVE.update((alg.atom_id(("sym", "A")), alg.atom_id(("sym", "D"))))
            e1, e2 = ((ONE, ZERO), (ZERO, ONE)) if along == 0 else ((ZERO, ONE), (C(-1), ZERO))
            Y = [(U[i], Vv[i]) for i in range(n)]
            Y[1] = (U[0] + A * e1[0], Vv[0] + A * e1[1])
            if along == 0:
                Y[2] = (U[2], Vv[0] + D * sg)
            else:
                Y[2] = (U[0] - D * sg, Vv[2])
            Z = []
            for u, v in Y:
                x = [k, k, k]
                x[a1], x[a2] = u, v
                Z.append(x)
            sh = sum((Y[i][0] * Y[(i + 1) % n][1] - Y[(i + 1) % n][0] * Y[i][1] for i in range(n)), ZERO) * C(Fr(1, 2))
            e = [sg if d == ax else ZERO for d in range(3)]
            eps = P.atom(("sym", "numeric_limits", "epsilon"))
            po = s.new("CGeoPolygon")
            s.call(po, "setPolyline", g.shape("CGeoPolyline", Z + [Z[0]]))
            facts = [absint.compare("<", eps, A * D), absint.compare("<", eps, ONE)]
            s.assume(*facts)
            tag = "%s%s-%d" % ("minus-" if sg != ONE else "", "xyz"[ax], along)
            judge(ctx, nm + ":normal-" + tag, lab(g.v3(po, "calculateNormal", "normal"), e), W("calculateNormal"), "normal of a %sclockwise polygon" % ("counter-" if sg == ONE else ""), facts=facts)
            judge(ctx, nm + ":area-" + tag, [("", g.num(po, "calculateArea", "area"), sh * sg)], W("calculateArea"), "area of a polygon", facts=facts)
            s.I.facts = None
        for along in (0, 1):
            for sg in (ONE, C(-1)):
                attempt(ctx, "%s:%s-%d%s" % (nm, "xyz"[ax], along, sg), W("calculateArea"), lambda: oriented(along, sg))
    ctx.seen(s.I)
    ctx.count("shapes")


def polyhedra(ctx):
    g = G(ctx)
    s = g.s
    W = lambda m: s.where("CGeoPolyhedron", m)
    a, b, c = V("a"), V("b"), V("c")
    for x in "abc":
        alg.POSITIVE.add(alg.atom_id(("sym", x)))
    o_ = [V("ox"), V("oy"), V("oz")]
    comb = lambda p: [o_[0] + a * C(p[0]), o_[1] + b * C(p[1]), o_[2] + c * C(p[2])]
    H = [comb(q) for q in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1))]
    eps = P.atom(("sym", "numeric_limits", "epsilon"))
    facts = [absint.compare("<", eps, x * y) for x, y in ((a, b), (b, c), (a, c))] + [absint.compare("<", eps, ONE)]

    def f():
        o = g.shape("CGeoHexahedron", H)
        s.assume(*facts)
        ph = s.new("CGeoPolyhedron", o)
        judge(ctx, "polyhedron:volume", [("", g.num(ph, "calculateVolume", "volume"), a * b * c)], W("calculateVolume"), "volume of a box", facts=facts)
        judge(ctx, "polyhedron:surface", [("", g.num(ph, "calculateSurfaceArea", "surfaceArea"), C(2) * (a * b + b * c + a * c))], W("calculateSurfaceArea"), "surface area of a box", facts=facts)
        judge(ctx, "polyhedron:centroid", lab(g.v3(ph, "calculateCentroid", "centroid"), [o_[0] + a * C(Fr(1, 2)), o_[1] + b * C(Fr(1, 2)), o_[2] + c * C(Fr(1, 2))]), W("calculateCentroid"), "centroid of a box", facts=facts)
        boxes(ctx, "polyhedron", g, ph, H, W("calculateBoundingBox"))
        judge(ctx, "polyhedron:faces", [("", s.num(s.call(ph, "nbPolygons")), C(6))], W("nbPolygons"), "number of faces")
    attempt(ctx, "polyhedron", W("calculateVolume"), f)
    ctx.seen(s.I)
    ctx.count("shapes")


def bounds(ctx):
    g = G(ctx)
    s = g.s
    lo, hi, lo2, hi2, p = symp(5, "b")
    k = V("k")
    W = lambda m: s.where("CGeoBoundingBox", m)
    mk = lambda l, h: s.new("CGeoBoundingBox", *(l + h))
    le = lambda x, y: absint.compare("<=", x, y)

    def conj(cs):
        r = TRUE
        for x in cs:
            r = absint.cand(r, x)
        return r
    mm = lambda b: (s.vec(s.call(b, "min")), s.vec(s.call(b, "max")))

    def f():
        b = mk(lo, hi)
        q = s.xyz("CGeoCoordinate", *p)
        t = V("t")
        judge(ctx, "box:contains", [("", cnd(s, s.call(b, "contains", q, t)), conj([le(lo[d] - t, p[d]) for d in range(3)] + [le(p[d], hi[d] + t) for d in range(3)]))], W("contains"), "a box contains exactly the points between its corners")
        b2 = mk(lo2, hi2)
        judge(ctx, "box:contains-box", [("", cnd(s, s.call(b, "contains", b2, t)), conj([le(lo[d] - t, lo2[d]) for d in range(3)] + [le(hi2[d], hi[d] + t) for d in range(3)]))], W("contains"), "a box contains exactly the boxes between its corners")
        judge(ctx, "box:intersects", [("", cnd(s, s.call(b, "intersects", b2, t)), conj([le(lo[d] - t, hi2[d]) for d in range(3)] + [le(lo2[d], hi[d] + t) for d in range(3)]))], W("intersects"), "boxes intersect exactly when their extents overlap in all directions")
        for nm, args, am in (("grow", [k], [k, k, k]), ("grow", [V("gx"), V("gy"), V("gz")], [V("gx"), V("gy"), V("gz")]), ("shrink", [k], [-k, -k, -k])):
            b = mk(lo, hi)
            s.call(b, nm, *args)
            mn, mx = mm(b)
            judge(ctx, "box:%s-%d" % (nm, len(args)), lab(mn, minus(lo, am)) + lab(mx, plus(hi, am)), W(nm), nm + " moves every side outwards by its amount" if nm == "grow" else "shrink moves every side inwards")
        b = mk(lo, hi)
        s.call(b, "addCoordinate", q)
        mn, mx = mm(b)
        judge(ctx, "box:add", lab(mn, [alg.fn("min", lo[d], p[d]) for d in range(3)]) + lab(mx, [alg.fn("max", hi[d], p[d]) for d in range(3)]), W("addCoordinate"), "adding a point extends the box just enough")
        s.call(b, "reset")
        s.call(b, "addCoordinate", q)
        mn, mx = mm(b)
        judge(ctx, "box:reset", lab(mn, p) + lab(mx, p), W("reset"), "after a reset the box only covers what is added afterwards")
    attempt(ctx, "box", W("contains"), f)
    ctx.seen(s.I)
    ctx.count("shapes")


def vectors(ctx):
    g = G(ctx)
    s = g.s
    a, b = symp(2)

    def f():
        v, w = s.xyz("CGeoVector", *a), s.xyz("CGeoVector", *b)
        eps = P.atom(("sym", "numeric_limits", "epsilon"))
        cosv = dot(a, b) / alg.fn("sqrt", dot(a, a) * dot(b, b))
        facts = [absint.compare("<", eps, dot(a, a)), absint.compare("<", eps, dot(b, b)), absint.compare("<=", C(-1), cosv), absint.compare("<=", cosv, ONE)]
        judge(ctx, "vector:angle", [("", s.num(s.call(v, "angle", w)), alg.fn("acos", cosv))], s.where("CGeoVector", "angle"), "angle between two vectors", facts=facts)
    attempt(ctx, "vector:angle", s.where("CGeoVector", "angle"), f)

    def r():
        rr, th, al = V("rr"), V("th"), V("al")
        v = s.xyz("CGeoVector", *a)
        s.call(v, "rotate", al)
        got = s.vec(v)
        R = alg.fn("sqrt", a[0] * a[0] + a[1] * a[1])
        T = alg.fn("atan2", a[1], a[0])
        judge(ctx, "vector:rotate", lab(got, [R * alg.fn("cos", T + al), R * alg.fn("sin", T + al), a[2]]), s.where("CGeoVector", "rotate"), "rotation about the z axis")
    attempt(ctx, "vector:rotate", s.where("CGeoVector", "rotate"), r)
    ctx.seen(s.I)
    ctx.count("shapes")


def check(ctx):
    alg.POSITIVE.clear()
    lines(ctx)
    planes(ctx)
    flat(ctx, "CGeoTriangle", 3)
    flat(ctx, "CGeoQuadrilateral", 4)
    solids(ctx)
    rounds(ctx)
    polys(ctx)
    bounds(ctx)
    vectors(ctx)
    alg.POSITIVE.clear()
    ctx.rule("the closed form of each measure on symbolic corners equals its geometric definition (normal forms; joint case distinction where the code distinguishes cases)")
    ctx.need("shapes", 5)
