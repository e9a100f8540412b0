"""Abstract interpretation of the containment and intersection predicates on families of configurations
given by positive symbols (segment lengths, barycentric weights, offsets): the family lies strictly on one
side of every test the definition makes, so sign analysis decides the branches and the verdict, the kind of
intersection and the point must be the geometric ones for the whole family.  Every family is embedded in
space along axes, mirrored, permuted, rotated and translated by a symbolic origin."""
from checks.meshutil import *
from checks.c08 import attempt, pos
from checks.c06 import cnd, minus, plus, scale, norm, lab
from checks.femutil import judge
from fractions import Fraction as Fr
from fw import parallel
import alg
import absint
from scn import Unk, V
from ir import Broken

MIN = 30
H = Fr(1, 2)

# orthonormal frames (columns: images of the local axes)
FRAMES = [
    ("xyz", ((1, 0, 0), (0, 1, 0), (0, 0, 1))),
    ("zxy", ((0, 0, 1), (1, 0, 0), (0, 1, 0))),
    ("-yxz", ((0, -1, 0), (1, 0, 0), (0, 0, 1))),
    ("rot", ((Fr(3, 5), Fr(4, 5), 0), (Fr(-4, 5), Fr(3, 5), 0), (0, 0, 1))),
    ("tilt", ((Fr(2, 3), Fr(2, 3), Fr(1, 3)), (Fr(-2, 3), Fr(1, 3), Fr(2, 3)), (Fr(1, 3), Fr(-2, 3), Fr(2, 3)))),
]


AXES = ("xyz", "zxy", "-yxz")


class N:
    """objects placed in one frame at a symbolic origin"""

    def __init__(self, ctx, frame, origin=True):
        self.ctx = ctx
        self.s = s = Scn(ctx.prog)
        s.I.limits = {"epsilon": ZERO}
        self.fn, self.fr = frame
        self.o = [V("o" + d) for d in "xyz"] if origin else [ZERO] * 3
        import pw
        s.I.facts, s.I.resolver = pw.Facts(), pw.resolve

    def pt(self, u, v=0, w=0):
        c = [x if isinstance(x, P) else C(x) for x in (u, v, w)]
        return [self.o[d] + sum((c[k].scale(self.fr[k][d]) for k in range(3)), ZERO) for d in range(3)]

    def vec(self, u, v=0, w=0):
        return minus(self.pt(u, v, w), self.o)

    def co(self, q):
        return self.s.xyz("CGeoCoordinate", *self.pt(*q))

    def line(self, a, b):
        return self.s.new("CGeoLine", self.co(a), self.co(b))

    def shape(self, cls, X):
        o = self.s.new(cls)
        for q in X:
            self.s.call(o, "addVertex", self.co(q))
        return o

    def plane(self, n, q):
        """plane with local unit normal n through the local point q"""
        nn = self.vec(*n)
        return self.s.new("CGeoPlane", self.s.xyz("CGeoNormal", *nn), sum((x * y for x, y in zip(nn, self.pt(*q))), ZERO))


KINDS = ("IT_NONE", "IT_VERTEX", "IT_EDGE", "IT_COINCIDENT", "IT_INTERNAL", "IT_SWAP")


def iskind(s, k, name):
    for e, d in s.p.enums.items():
        if name in d and "IT_NONE" in d:
            return cnd(s, s.call(k, "operator==", C(d[name])))
    raise Broken("enumerator %s not found" % name)


def verdict(ctx, key, n, f, where, msg, found, kind=None, point=None, others=()):
    """f(point ref, kind ref) -> condition"""
    def g():
        s = n.s
        p, k = s.tmp("hit", s.cname("CGeoCoordinate")), s.new("CGeoIntersectionType")
        r = cnd(s, f(p, k))
        rows = [("found", r, TRUE if found else FALSE)]
        if found and isinstance(point, list):
            at = s.vec(p)
            if not any(all(alg.eq(x, y) for x, y in zip(at, n.pt(*q))) for q in point):
                rows += lab(at, n.pt(*point[0]))
        elif found and point is not None:
            rows += lab(s.vec(p), n.pt(*point))
        if kind:
            ok = FALSE
            for x in kind:
                ok = absint.cor(ok, iskind(s, k, x))
            was = [x for x in KINDS if iskind(s, k, x) is TRUE]
            rows.append(("kind (%s)" % ", ".join(was), ok, TRUE))
        judge(ctx, key, rows, where, msg)
    attempt(ctx, key, where, g)


def positive(*names):
    alg.POSITIVE.clear()
    alg.LEAST.clear()
    pos(*names)
    return [V(x) for x in names]


def line_contains(ctx):
    p, q, r, h = positive("p", "q", "r", "h")
    L = p + q
    for fr in FRAMES:
        for nm, X, found, kind in (
                ("inside", (p, 0, 0), True, "IT_INTERNAL"), ("end", (L, 0, 0), True, "IT_VERTEX"),
                ("before", (-r, 0, 0), False, None), ("beyond", (L + r, 0, 0), False, None),
                ("aside", (3 * p, 4 * p, 0), False, None), ("aside-start", (0, h, 0), False, None), ("above", (3 * p, 0, -4 * p), False, None), ("behind", (-3 * p, 0, 4 * p), False, None)):
            n = N(ctx, fr)
            l = n.line((0, 0, 0), (L, 0, 0))
            w = n.s.where("CGeoLine", "contains")
            verdict(ctx, "line:contains:%s:%s" % (nm, fr[0]), n, lambda pt, k: n.s.call(l, "contains", n.co(X), k, ZERO), w, "a point %s the segment" % nm, found, [kind or "IT_NONE"])


def line_line(ctx):
    a, b = positive("a", "b")
    for p, q, r, t, tag in ((a, 2 * a, b, 3 * b, ""), (3 * a, a, 5 * b, b, "-2")):
        some_lines(ctx, a, p, q, r, t, tag)


def some_lines(ctx, a, p, q, r, t, tag):
    O = (0, 0, 0)
    V_, I_, K_, X_ = ["IT_VERTEX"], ["IT_INTERNAL"], ["IT_COINCIDENT"], None
    a2, a3, a4 = 2 * a, 3 * a, 4 * a
    cases = [
        ("cross", (-p, 0, 0), (q, 0, 0), (0, -r, 0), (0, t, 0), True, I_, O),
        ("cross-oblique", (-p, 0, 0), (q, 0, 0), (-3 * r, -4 * r, 0), (3 * t, 4 * t, 0), True, I_, O),
        ("cross-space", (-p, -2 * p, 2 * p), (q, 2 * q, -2 * q), (-3 * r, -4 * r, 0), (3 * t, 4 * t, 0), True, I_, O),
        ("corner-ss", O, (p, 0, 0), O, (3 * t, 4 * t, 0), True, V_, O),
        ("corner-ee", (p, 0, 0), O, (3 * t, 4 * t, 0), O, True, V_, O),
        ("corner-se", O, (p, 0, 0), (3 * t, 4 * t, 0), O, True, V_, O),
        ("corner-es", (p, 0, 0), O, O, (3 * t, 4 * t, 0), True, V_, O),
        ("straight-ss", O, (p, 0, 0), O, (-q, 0, 0), True, V_, O),
        ("straight-ee", (p, 0, 0), O, (-q, 0, 0), O, True, V_, O),
        ("straight-se", O, (p, 0, 0), (-q, 0, 0), O, True, V_, O),
        ("straight-es", (p, 0, 0), O, O, (-q, 0, 0), True, V_, O),
        ("same", O, (p, 0, 0), O, (p, 0, 0), True, K_, [O, (p, 0, 0)]),
        ("reversed", O, (p, 0, 0), (p, 0, 0), O, True, K_, [O, (p, 0, 0)]),
        ("overlap", O, (p + q, 0, 0), (p, 0, 0), (p + q + a, 0, 0), True, I_, [(p, 0, 0), (p + q, 0, 0)]),
        ("overlap-opposed", O, (p + q, 0, 0), (p + q + a, 0, 0), (p, 0, 0), True, I_, [(p, 0, 0), (p + q, 0, 0)]),
        ("within", O, (p + q + a, 0, 0), (p, 0, 0), (p + q, 0, 0), True, I_, [(p, 0, 0), (p + q, 0, 0)]),
        ("share-start", O, (p + q, 0, 0), O, (p, 0, 0), True, I_, [O, (p, 0, 0)]),
        ("share-end", O, (p + q, 0, 0), (p, 0, 0), (p + q, 0, 0), True, I_, [(p, 0, 0), (p + q, 0, 0)]),
        ("share-opposed", O, (p + q, 0, 0), (p + q, 0, 0), (p, 0, 0), True, I_, [(p, 0, 0), (p + q, 0, 0)]),
        ("share-opposed-start", O, (p + q, 0, 0), (p, 0, 0), O, True, I_, [O, (p, 0, 0)]),
        ("apart", O, (p, 0, 0), (0, q, 0), (0, q + r, 0), False, X_, None),
        ("short", O, (a4, a4, 0), (a4, 0, 0), (a3, a, 0), False, X_, None),
        ("parallel", O, (a2, a2, 0), (a, 0, 0), (a3, a2, 0), False, X_, None),
        ("in-line-apart", O, (p, 0, 0), (p + q, 0, 0), (p + q + a, 0, 0), False, X_, None),
        ("in-line-apart-space", O, (2 * p, p, 2 * p), (2 * p + 2 * q, p + q, 2 * p + 2 * q), (4 * p + 2 * q, 2 * p + q, 4 * p + 2 * q), False, X_, None),
        ("skew", (-a2, -a2, -a2), (a2, a2, a2), (a2, -a2, 0), (-a2, a2, a2), False, X_, None),
        ("over", (-p, 0, 0), (q, 0, 0), (0, -r, a), (0, t, a), False, X_, None),
    ]
    for fr in FRAMES:
        for nm, A, B, Q, R, found, kind, at in cases:
            for swap in (0, 1):
                n = N(ctx, fr)
                l, m = n.line(A, B), n.line(Q, R)
                if swap:
                    l, m = m, l
                w = n.s.where("CGeoLine", "intersects", 4)
                verdict(ctx, "line:line:%s%s%s:%s" % (nm, tag, "-swapped" if swap else "", fr[0]), n, lambda pt, k: n.s.call(l, "intersects", m, pt, k, ZERO), w,
                        "two segments (%s)" % nm, found, kind, at)


def line_plane(ctx):
    p, r, t = positive("p", "r", "t")
    q = 2 * p
    V_, I_ = ["IT_VERTEX"], ["IT_INTERNAL"]
    cases = [("through", (r, t, -p), (-2 * q + r, t + q, 2 * q), True, I_, None), ("through-straight", (r, t, -p), (r, t, q), True, I_, (r, t, 0)), ("back", (r, t, p), (r, t, -q), True, I_, (r, t, 0)),
             ("start", (r, t, 0), (0, 3 * q, 4 * q), True, V_, (r, t, 0)), ("end", (0, 3 * q, 4 * q), (r, t, 0), True, V_, (r, t, 0)),
             ("above", (r, t, p), (t, r, p + q), False, None, None), ("below", (r, t, -p - q), (t, r, -p), False, None, None), ("parallel", (r, t, p), (t, r, p), False, None, None)]
    for fr in FRAMES:
        for nm, A, B, found, kind, at in cases:
            n = N(ctx, fr)
            l, pl = n.line(A, B), n.plane((0, 0, 1), (t, 0, 0))
            w = n.s.where("CGeoLine", "intersects", 4)
            verdict(ctx, "line:plane:%s:%s" % (nm, fr[0]), n, lambda pt, k: n.s.call(l, "intersects", pl, pt, k, ZERO), w, "a segment and a plane (%s)" % nm, found, kind or ["IT_NONE"], at)


def bary(T, ws):
    """point with the given barycentric weights times their sum"""
    return tuple(sum((w * (x[d] if isinstance(x[d], P) else C(x[d])) for w, x in zip(ws, T)), ZERO) for d in range(3))


def times(T, k):
    return [tuple((x if isinstance(x, P) else C(x)) * k for x in v) for v in T]


def shapes(a, b, c):
    """acute/right and obtuse triangles"""
    return [("acute", [(0, 0, 0), (a + b, 0, 0), (b, c, 0)]), ("obtuse", [(0, 0, 0), (a, 0, 0), (-b, c, 0)]), ("right", [(b, 0, 0), (0, 0, 0), (0, -c, 0)])]


def regions(i, j, m):
    """weights (their sum positive), whether inside, and the kind of contact"""
    R = [("inside", (i, j, m), True, "IT_INTERNAL")]
    for k in range(3):
        rot = lambda w: tuple(w[(x - k) % 3] for x in range(3))
        R.append(("edge%d" % k, rot((i, j, ZERO)), True, "IT_EDGE"))
        R.append(("vertex%d" % k, rot((i, ZERO, ZERO)), True, "IT_VERTEX"))
        R.append(("beyond-edge%d" % k, rot((i + m, j, -i)), False, None))
        R.append(("beyond-vertex%d" % k, rot((i + j + m, -i, -j)), False, None))
        R.append(("on-line%d" % k, rot((i + j, ZERO, -i)), False, None))
        R.append(("on-line-back%d" % k, rot((i + j, -i, ZERO)), False, None))
    return R


def tri_contains(ctx):
    a, b, c, i, j, m = positive("a", "b", "c", "i", "j", "m")
    for fr in FRAMES:
        for sh, T in shapes(a, b, c) if fr[0] in AXES else shapes(C(1), C(Fr(1, 3)), C(2)):
            for turn in (0, 1):
                for nm, ws, found, kind in regions(i, j, m):
                    n = N(ctx, fr)
                    S = sum(ws, ZERO)
                    X = times(T, S)
                    o = n.shape("CGeoTriangle", X if not turn else [X[0], X[2], X[1]])
                    w = n.s.where("CGeoTriangle", "contains")
                    verdict(ctx, "triangle:contains:%s:%s%s:%s" % (nm, sh, "-turned" if turn else "", fr[0]), n, lambda pt, k: n.s.call(o, "contains", n.co(bary(T, ws)), k, ZERO), w,
                            "a point (%s) of the plane of a triangle" % nm, found, [kind or "IT_NONE"])


def tri_line(ctx):
    a, p = positive("a", "p")
    i, j, m, q = a, 2 * a, 3 * a, 2 * p
    K = [(1, 2, 1), (-2, 1, 2), (0, 0, 1)]
    for fr in FRAMES:
        for sh, T in shapes(C(1), C(Fr(1, 3)), C(2)):
            for nm, ws, found, kind in regions(i, j, m):
                S = sum(ws, ZERO)
                X, at = times(T, S), bary(T, ws)
                for t, d in enumerate(K):
                    n = N(ctx, fr)
                    o = n.shape("CGeoTriangle", X)
                    A, B = [tuple(x - y * C(z) for x, z in zip(at, d)) for y in (p, -q)]
                    if t == 1:
                        A, B = B, A
                    l = n.line(A, B)
                    w = n.s.where("CGeoTriangle", "intersects", 4)
                    verdict(ctx, "triangle:line:%s:%s%d:%s" % (nm, sh, t, fr[0]), n, lambda pt, k: n.s.call(o, "intersects", l, pt, k, ZERO), w,
                            "a triangle and a line that meets its plane at a point (%s)" % nm, found, [kind] if found else None, at if found else None)
            for nm, A, B in (("short", p, p + q), ("short-below", -p - q, -p)):
                n = N(ctx, fr)
                X = times(T, a)
                o = n.shape("CGeoTriangle", X)
                at = bary(T, (a.scale(Fr(1, 3)),) * 3)
                l = n.line(tuple(at[:2]) + (A,), tuple(at[:2]) + (B,))
                w = n.s.where("CGeoTriangle", "intersects", 4)
                verdict(ctx, "triangle:line:%s:%s:%s" % (nm, sh, fr[0]), n, lambda pt, k: n.s.call(o, "intersects", l, pt, k, ZERO), w,
                        "a triangle and a segment that stops before its plane", False)


def tri_tri(ctx, frames):
    a, = positive("a")
    alg.LEAST.add(alg.atom_id(("sym", "a")))
    tol = C(Fr(1, 1000))
    T = [(0, 0, 0), (4, 0, 0), (0, 4, 0)]
    CO, ED, SW, VE, IN = ["IT_COINCIDENT"], ["IT_EDGE"], ["IT_SWAP"], ["IT_VERTEX"], ["IT_INTERNAL"]
    cases = [
        ("same", T, True, CO),
        ("fold-up", [(0, 0, 0), (4, 0, 0), (1, 0, 3)], True, ED),
        ("fold-sharp", [(0, 0, 0), (0, 4, 0), (2, 1, 2)], True, ED),
        ("fold-hypotenuse", [(4, 0, 0), (0, 4, 0), (3, 3, -2)], True, ED),
        ("neighbour", [(0, 0, 0), (4, 0, 0), (1, -3, 0)], True, ED),
        ("neighbour-2", [(0, 4, 0), (0, 0, 0), (-2, 1, 0)], True, ED),
        ("neighbour-hypotenuse", [(4, 0, 0), (0, 4, 0), (4, 4, 0)], True, ED),
        ("overlap-edge", [(0, 0, 0), (4, 0, 0), (4, 4, 0)], True, SW),
        ("overlap-edge-2", [(0, 0, 0), (0, 4, 0), (4, 3, 0)], True, SW),
        ("vertex-flat", [(0, 0, 0), (-3, -1, 0), (-1, -3, 0)], True, VE),
        ("vertex-out", [(0, 0, 0), (-3, -1, 1), (-1, -3, 2)], True, VE),
        ("vertex-up", [(4, 0, 0), (6, 0, 1), (5, 2, 3)], True, VE),
        ("pierce", [(1, 1, -2), (1, 1, 3), (8, 8, 1)], True, IN),
        ("pierce-two", [(1, 1, -2), (1, 1, 3), (2, 1, 3)], True, IN),
        ("pierced-side", [(2, -2, -3), (2, 3, -3), (2, 0, 5)], True, IN),
        ("above", [(0, 0, 2), (4, 0, 2), (0, 4, 2)], False, None),
        ("above-tilted", [(1, 1, 1), (3, 1, 2), (1, 3, 3)], False, None),
        ("aside", [(3, 3, -1), (3, 3, 2), (4, 4, 1)], False, None),
        ("aside-deep", [(2, 3, -1), (3, 2, -1), (3, 3, 4)], False, None),
        ("flat-apart", [(3, 3, 0), (4, 3, 0), (3, 4, 0)], False, None),
        ("flat-apart-2", [(5, 5, 0), (8, 5, 0), (5, 8, 0)], False, None),
        ("nested", [(1, 1, 0), (2, 1, 0), (1, 2, 0)], True, IN),
        ("around", [(-1, -1, 0), (9, -1, 0), (-1, 9, 0)], True, IN),
        ("star", [(3, 3, 0), (-1, 3, 0), (3, -1, 0)], True, IN),
        ("tip", [(1, 1, 0), (5, 3, 0), (3, 5, 0)], True, IN),
    ]
    for fr in frames:
        for nm, U, found, kind in cases:
            for order in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
                for swap in (0, 1):
                    n = N(ctx, fr)
                    o, u = n.shape("CGeoTriangle", times(T, a)), n.shape("CGeoTriangle", times([U[x] for x in order], a))
                    if swap:
                        o, u = u, o
                    w = n.s.where("CGeoTriangle", "intersects", 3)
                    verdict(ctx, "triangle:triangle:%s:%d%d%d%s:%s" % ((nm,) + order + ("-swapped" if swap else "", fr[0])), n,
                            lambda pt, k: n.s.call(o, "intersects", u, k, tol), w, "two triangles (%s)" % nm, found, kind)


def quad_contains(ctx):
    a, i, j, m = positive("a", "i", "j", "m")
    some_quads(ctx, i, j, m, (0, 2), "")
    some_quads(ctx, a, 2 * a, 3 * a, (1, 3), "")
    some_quads(ctx, 7 * a, a, 2 * a, (1, 3), "-2")


def some_quads(ctx, i, j, m, shifts, tag):
    Q = [(0, 0, 0), (4, 0, 0), (5, 3, 0), (-1, 4, 0)]
    R = [("half-1", (i, j, m, ZERO), True), ("half-2", (i, ZERO, j, m), True), ("diagonal", (i, ZERO, j, ZERO), True)]
    for k in range(4):
        z = [ZERO] * 4
        z[k], z[(k + 1) % 4] = i, j
        R.append(("side%d" % k, tuple(z), True))
        z = [ZERO] * 4
        z[k] = i
        R.append(("corner%d" % k, tuple(z), True))
        z = [ZERO] * 4
        # beyond the side k, k+1: an affine combination of its ends and of the following corner, with a negative weight
        z[k], z[(k + 1) % 4], z[(k + 2) % 4] = i + m, j, -m
        R.append(("beyond-side%d" % k, tuple(z), False))
        z = [ZERO] * 4
        z[k], z[(k + 1) % 4], z[(k + 3) % 4] = i + j + m, -i, -j
        R.append(("beyond-corner%d" % k, tuple(z), False))
    for fr in FRAMES:
        for shift in shifts:
            for turn in (0, 1):
                for nm, ws, found in R:
                    n = N(ctx, fr)
                    X = times(Q, sum(ws, ZERO))
                    o = n.shape("CGeoQuadrilateral", [X[(shift + (4 - k if turn else k)) % 4] for k in range(4)])
                    w = n.s.where("CGeoQuadrilateral", "contains")
                    kind = ["IT_VERTEX"] if nm.startswith("corner") else ["IT_NONE"] if not found else None
                    verdict(ctx, "quadrilateral:contains:%s%s:%d%s:%s" % (nm, tag, shift, "-turned" if turn else "", fr[0]), n,
                            lambda pt, k: n.s.call(o, "contains", n.co(bary(Q, ws)), k, ZERO), w, "a point (%s) of the plane of a quadrilateral" % nm, found, kind)


def tet_contains(ctx):
    i, j, m, q = positive("i", "j", "m", "q")
    T = [(0, 0, 0), (1, 3, 0), (4, 0, 0), (1, 1, 5)]
    R = [("inside", (i, j, m, q), True)]
    for k in range(4):
        rot = lambda w: tuple(w[(x - k) % 4] for x in range(4))
        R += [("face%d" % k, rot((ZERO, i, j, m)), True), ("edge%d" % k, rot((i, j, ZERO, ZERO)), True), ("across%d" % k, rot((i, ZERO, j, ZERO)), True), ("corner%d" % k, rot((i, ZERO, ZERO, ZERO)), True),
              ("beyond-face%d" % k, rot((-i, j + i, m, q)), False), ("beyond-corner%d" % k, rot((i + j + m + q, -i, -j, -m)), False), ("beyond-edge%d" % k, rot((i + m, j + q, -m, -q)), False)]
    for fr in FRAMES:
        for nm, ws, found in R:
            for pn, order in (("", (0, 1, 2, 3)), ("-r", (1, 2, 0, 3)), ("-s", (3, 2, 1, 0))):
                n = N(ctx, fr)
                X = times(T, sum(ws, ZERO))
                o = n.shape("CGeoTetrahedron", [X[x] for x in order])
                w = n.s.where("CGeoTetrahedron", "contains")
                verdict(ctx, "tetrahedron:contains:%s%s:%s" % (nm, pn, fr[0]), n, lambda pt, k: n.s.call(o, "contains", n.co(bary(T, ws)), ZERO), w,
                        "a point (%s) and a tetrahedron of positive volume" % nm, found)


def tri_distance(ctx):
    a, h = positive("a", "h")
    some_distances(ctx, a, h, a.scale(Fr(1, 4)), "")
    some_distances(ctx, a, h, a.scale(Fr(1, 50)), "-near")


def some_distances(ctx, a, h, p, tag):
    T = [(0, 0, 0), (4, 0, 0), (0, 4, 0)]
    cases = [("above", (a, a, h), (a, a, 0), h), ("below", (a, 2 * a, -h), (a, 2 * a, 0), h), ("above-edge", (a, 0, h), (a, 0, 0), h),
             ("off-edge", (a, -3 * p, 4 * p), (a, 0, 0), 5 * p), ("off-edge-low", (3 * a, -4 * p, -3 * p), (3 * a, 0, 0), 5 * p), ("off-left", (-3 * p, 2 * a, 4 * p), (0, 2 * a, 0), 5 * p),
             ("off-long", (2 * a + 2 * p, 2 * a + 2 * p, p), (2 * a, 2 * a, 0), 3 * p), ("off-long-flat", (a + p, 3 * a + p, 0), (a, 3 * a, 0), alg.fn("sqrt", C(2)) * p),
             ("off-corner", (-2 * p, -p, 2 * p), (0, 0, 0), 3 * p), ("off-corner-2", (4 * a + 2 * p, -p, 2 * p), (4 * a, 0, 0), 3 * p), ("off-corner-3", (-p, 4 * a + 2 * p, -2 * p), (0, 4 * a, 0), 3 * p),
             ("at-corner", (0, 0, 0), (0, 0, 0), ZERO), ("in-plane", (a, a, 0), (a, a, 0), ZERO)]
    for fr in FRAMES:
        for nm, X, at, d in cases:
            for order in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
                key = "triangle:distance:%s%s:%d%d%d:%s" % ((nm, tag) + order + (fr[0],))

                def g():
                    n = N(ctx, fr)
                    s = n.s
                    U = times(T, a)
                    o = n.shape("CGeoTriangle", [U[x] for x in order])
                    pt, dist = s.tmp("foot", s.cname("CGeoCoordinate")), s.tmp("dist", "double")
                    r = cnd(s, s.call(o, "distance", n.co(X), pt, dist, ZERO))
                    judge(ctx, key, [("found", r, TRUE), ("distance", s.num(dist), d)] + lab(s.vec(pt), n.pt(*at)), s.where("CGeoTriangle", "distance"), "distance from a point (%s) to a triangle" % nm)
                attempt(ctx, key, "CGeoTriangle::distance", g)


def check(ctx):
    def run(c, f, *a):
        f(c, *a)
        alg.POSITIVE.clear()
        alg.LEAST.clear()
    parallel(ctx, [(run, (tri_tri, [fr])) for fr in FRAMES] + [(run, (f,)) for f in (tri_contains, line_line, tri_line, quad_contains, tri_distance, tet_contains, line_contains, line_plane)])
    ctx.rule("points, segments, triangles, quadrilaterals and tetrahedra: containment and intersection verdicts, kinds and points")
