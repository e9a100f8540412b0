"""Abstract interpretation of every scalar finite element with symbolic corner positions:
its matrices are compared, as normal forms, with the variational definition. Elements that
integrate numerically are given symbolic integration points, so their integrand is compared
as a polynomial in the local coordinates (the tabulated rules are judged by C03)."""
from checks.femutil import *
from fractions import Fraction as Fr

MIN = 30
CUBE = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
LEX = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)]
WEDGE = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)]
SQUARE = [(0, 0), (1, 0), (1, 1), (0, 1)]


PRIMES = [Fr(p, 7) for p in (2, 3, 5, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97)]


def place(i, q, dim):
    """general position: symbolic in the plane; in space the reference corner plus a generic distortion"""
    if dim == 2:
        return (V("x%d" % i), V("y%d" % i), ZERO)
    return tuple(C(5 * k + PRIMES[3 * i + d] / 31) for d, k in enumerate(q))


def beam(ctx, X, k, dt):
    cv, s = V("cv"), ONE
    # ---- beam
    el = El(ctx, "CFemBeam<double,2,1,1>", [])
    el.call("setStartPoint", el.s.xyz("CGeoCoordinate", *X[0]))
    el.call("setEndPoint", el.s.xyz("CGeoCoordinate", *X[1])) if False else None
    el = El(ctx, "CFemBeam<double,2,1,1>", [])
    el.s.call(el.e, "setStartPoint", el.s.xyz("CGeoCoordinate", *X[0]))
    el.s.call(el.e, "setEndPoint", el.s.xyz("CGeoCoordinate", *X[1]))
    el.call("calculateLength", False)
    L = el.s.num(el.call("length"))
    want = alg.fn("sqrt", sum(((X[1][d] - X[0][d]).pow(2) for d in range(3)), ZERO))
    judge(ctx, "beam:length", [("length", L, want)], el.where("calculateLength"), "length of the beam")
    el.fact_positive(L)
    for nm, v in (("setDiffusionCoefficient", k), ("setConvectionCoefficient", cv), ("setDt", dt)):
        el.call(nm, v)
    el.call("setTransient", True)
    el.call("update")
    sgn = [[-1, 1], [1, -1]]
    m = el.mat("laplacian")
    judge(ctx, "beam:diffusion", [((i, j), m.e[(i, j)], k * s * C(sgn[i][j]) / L) for i in range(2) for j in range(2)], el.where("update"), "beam diffusion matrix")
    m = el.mat("divergence")
    judge(ctx, "beam:convection", [((i, j), m.e[(i, j)], cv * C(Fr(2 * j - 1, 2))) for i in range(2) for j in range(2)], el.where("update"), "beam convection matrix")
    m = el.mat("ddt")
    judge(ctx, "beam:mass", [((i, j), m.e[(i, j)], L * s * C(Fr(1 + (i == j), 6)) / dt) for i in range(2) for j in range(2)], el.where("update"), "beam mass matrix")
    ctx.seen(el.s.I)
    ctx.count("elements")


def triangle(ctx, X, k, dt):
    # ---- triangle, in the plane
    P3 = [(X[i][0], X[i][1], ZERO) for i in range(3)]
    el = El(ctx, "CFemTriangle<double,3,1,1>", P3)
    el.call("calculateArea", False)
    Ar = el.s.num(el.call("area"))
    D = (P3[1][0] - P3[0][0]) * (P3[2][1] - P3[0][1]) - (P3[2][0] - P3[0][0]) * (P3[1][1] - P3[0][1])
    judge(ctx, "triangle:area", [("4*area^2", (Ar * Ar).scale(4), D * D)], el.where("calculateArea"), "area")
    el.fact_positive(Ar)
    t = V("t")
    el.call("setThickness", t)
    el.call("setDt", dt)
    el.call("setTransient", True)
    el.call("update")
    g = []
    for i in range(3):
        p, q = P3[(i + 1) % 3], P3[(i + 2) % 3]
        g.append(((p[1] - q[1]), (q[0] - p[0])))
    m = el.mat("laplacian")
    judge(ctx, "triangle:diffusion", [((i, j), m.e[(i, j)] * Ar.scale(4), -dot(g[i], g[j]) * t) for i in range(3) for j in range(3)], el.where("update"), "triangle diffusion matrix (times 4*area)")
    m = el.mat("ddt")
    judge(ctx, "triangle:mass", [((i, j), m.e[(i, j)], Ar * C(Fr(1 + (i == j), 12)) / dt) for i in range(3) for j in range(3)], el.where("update"), "triangle mass matrix (unit thickness)")
    ctx.seen(el.s.I)
    ctx.count("elements")


def tetrahedron(ctx, X, k, dt):
    # ---- tetrahedron
    P4 = [tuple(X[i]) for i in range(4)]
    el = El(ctx, "CFemTetrahedron<double,4,1,1>", P4)
    el.call("calculateVolume", False)
    Vo = el.s.num(el.call("volume"))
    e = [[P4[i][d] - P4[0][d] for d in range(3)] for i in (1, 2, 3)]
    D = dot(cross(e[0], e[1]), e[2])
    judge(ctx, "tetrahedron:volume", [("volume", (Vo * Vo).scale(36), D * D)], el.where("calculateVolume"), "volume squared times 36")
    el.fact_positive(Vo)
    el.call("setDt", dt)
    el.call("setTransient", True)
    el.call("update")
    g = [None, cross(e[1], e[2]), cross(e[2], e[0]), cross(e[0], e[1])]
    g[0] = [-(g[1][d] + g[2][d] + g[3][d]) for d in range(3)]
    m = el.mat("laplacian")
    judge(ctx, "tetrahedron:diffusion", [((i, j), m.e[(i, j)] * Vo.scale(36), -dot(g[i], g[j])) for i in range(4) for j in range(4)], el.where("update"), "tetrahedron diffusion matrix (times 36*volume)")
    m = el.mat("ddt")
    judge(ctx, "tetrahedron:mass", [((i, j), m.e[(i, j)], Vo * C(Fr(1 + (i == j), 20)) / dt) for i in range(4) for j in range(4)], el.where("update"), "tetrahedron mass matrix")
    ctx.seen(el.s.I)
    ctx.count("elements")


def local(kind, q, loc, half):
    """shape function of a corner and its local derivatives at the symbolic local point"""
    if kind == "wedge":
        xi, eta, zeta = loc
        w = (ONE - zeta).scale(half) if q[2] == 0 else (ONE + zeta).scale(half)
        dw = C(-half) if q[2] == 0 else C(half)
        if q[0]:
            l, dl = xi, (1, 0)
        elif q[1]:
            l, dl = eta, (0, 1)
        else:
            l, dl = ONE - xi - eta, (-1, -1)
        return l * w, [w * C(dl[0]), w * C(dl[1]), l * dw]
    f = [(ONE + x).scale(half) if k else (ONE - x).scale(half) for k, x in zip(q, loc)]
    n = ONE
    for x in f:
        n = n * x
    d = []
    for j in range(len(q)):
        p = C(half if q[j] else -half)
        for i, x in enumerate(f):
            if i != j:
                p = p * x
        d.append(p)
    return n, d


def integrated(ctx, key, cls, base, kind, corners, axes, half, thick, known=False):
    dim = len(axes)
    dt = V("dt")
    alg.POSITIVE.clear()
    alg.POSITIVE.add(alg.atom_id(("sym", "dt")))
    def go():
        el = El(ctx, cls, [place(i, q, dim) for i, q in enumerate(corners)], (base, 1, axes))
        t = ONE
        if thick:
            t = V("t")
            el.call("setThickness", t)
        el.call("setDt", dt)
        el.call("setTransient", True)
        el.call("update")
        loc = [V(x + "_0") for x in axes]
        w = ONE
        for x in axes:
            w = w * V("w" + x + "_0")
        N = [local(kind, q, loc, half) for q in corners]
        X = [place(i, q, dim) for i, q in enumerate(corners)]
        J = [[dot([d[k] for _, d in N], [x[c] for x in X]) for c in range(dim)] for k in range(dim)]
        if dim == 2:
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            dual = [[J[1][1], -J[1][0]], [-J[0][1], J[0][0]]]
        else:
            dual = [cross(J[1], J[2]), cross(J[2], J[0]), cross(J[0], J[1])]
            det = dot(dual[0], J[0])
        W = w * alg.fn("fabs", det) * t
        g = [[dot(d, [dual[k][x] for k in range(dim)]) for x in range(dim)] for _, d in N]
        n = len(corners)
        ij = [(0, 0), (0, 2)] if known else [(i, j) for i in range(n) for j in range(n)]
        m = el.mat("laplacian")
        i2 = det.inv().pow(2)
        judge(ctx, key + ":diffusion", [((i, j), m.e[(i, j)], -dot(g[i], g[j]) * W * i2) for i, j in ij], el.where("update"), key + " diffusion integrand", sig=known)
        m2 = el.mat("ddt")
        judge(ctx, key + ":mass", [((i, j), m2.e[(i, j)], N[i][0] * N[j][0] * W / dt) for i, j in ij], el.where("update"), key + " mass integrand", sig=known)
        ctx.seen(el.s.I)
        ctx.count("elements")
        # with two points the contributions add up
        if not known:
            el2 = El(ctx, cls, [place(i, q, dim) for i, q in enumerate(corners)], (base, 2, axes))
            if thick:
                el2.call("setThickness", t)
            el2.call("setDt", dt)
            el2.call("setTransient", True)
            el2.call("update")
            sw = {}
            for x in axes:
                for pre in ("", "w"):
                    sw[alg.atom_id(("sym", pre + x + "_0"))] = V(pre + x + "_1")
            for nm, one in (("laplacian", m), ("ddt", m2)):
                two = el2.mat(nm)
                ij = [(i, j) for i in range(n) for j in range(i, n)][:: 1 if n <= 4 else 5]
                judge(ctx, key + ":" + nm + "-sum", [(k, two.e[k], one.e[k] + swap(one.e[k], sw)) for k in ij], el2.where("update"), "contributions of several integration points")
    attempt(ctx, key + ":matrices", cls, go)


# right-handed frames: directions of the two local axes
PLANES = [("raised", (1, 0, 0), (0, 1, 0), 2), ("leaning", (Fr(3, 5), Fr(4, 5), 0), (Fr(-12, 25), Fr(9, 25), Fr(4, 5)), 0), ("upright", (0, 1, 0), (0, 0, 1), 0),
          ("tilted", (Fr(2, 3), Fr(2, 3), Fr(1, 3)), (Fr(-2, 3), Fr(1, 3), Fr(2, 3)), 3)]


def embed(fr, q):
    return tuple(C(fr[1][d] * q[0] + fr[2][d] * q[1] + (fr[3] if d == 2 else 0)) for d in range(3))


def tilted(ctx, fr):
    """plane elements anywhere in space have the matrices of the same shape in its own plane"""
    dt, t = V("dt"), V("t")
    alg.POSITIVE.clear()
    alg.POSITIVE.add(alg.atom_id(("sym", "dt")))
    Q = [(0, 0), (14, 0), (5, 12)]
    for turn in range(3):
        for flip in (0, 1):
            order = [(turn + (3 - k if flip else k)) % 3 for k in range(3)]
            q = [Q[k] for k in order]
            el = El(ctx, "CFemTriangle<double,3,1,1>", [embed(fr, x) for x in q])
            el.call("setThickness", t)
            el.call("setDt", dt)
            el.call("setTransient", True)
            el.call("calculateArea", False)
            el.call("update")
            g = [(q[(i + 1) % 3][1] - q[(i + 2) % 3][1], q[(i + 2) % 3][0] - q[(i + 1) % 3][0]) for i in range(3)]
            key = "triangle:%s:%d%s" % (fr[0], turn, "-turned" if flip else "")
            m = el.mat("laplacian")
            judge(ctx, key + ":diffusion", [((i, j), m.e[(i, j)], t * C(Fr(-(g[i][0] * g[j][0] + g[i][1] * g[j][1]), 4 * 84))) for i in range(3) for j in range(3)], el.where("update"), "diffusion matrix of a triangle in space")
            m = el.mat("ddt")
            judge(ctx, key + ":mass", [((i, j), m.e[(i, j)], C(84 * Fr(1 + (i == j), 12)) / dt) for i in range(3) for j in range(3)], el.where("update"), "mass matrix of a triangle in space")
            ctx.seen(el.s.I)
    S = [(0, 0), (14, 0), (15, 11), (5, 12)]
    el = El(ctx, "CFemQuadrilateral<double,4,1,1>", [embed(fr, x) for x in S], ("CIntQuadrilateral", 1, ("xi", "eta")))
    for n, v in (("setThickness", t), ("setDt", dt), ("setTransient", True)):
        el.call(n, v)
    el.call("update")
    loc = [V("xi_0"), V("eta_0")]
    N = [local("cube", q, loc, Fr(1, 2)) for q in SQUARE]
    J = [[dot([d[k] for _, d in N], [C(x[c]) for x in S]) for c in range(2)] for k in range(2)]
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    dual = [[J[1][1], -J[1][0]], [-J[0][1], J[0][0]]]
    W = V("wxi_0") * V("weta_0") * alg.fn("fabs", det) * t
    g = [[dot(d, [dual[k][x] for k in range(2)]) for x in range(2)] for _, d in N]
    i2 = det.inv().pow(2)
    key = "quadrilateral:" + fr[0]
    m = el.mat("laplacian")
    judge(ctx, key + ":diffusion", [((i, j), m.e[(i, j)], -dot(g[i], g[j]) * W * i2) for i in range(4) for j in range(4)], el.where("update"), "diffusion integrand of a quadrilateral in space")
    m = el.mat("ddt")
    judge(ctx, key + ":mass", [((i, j), m.e[(i, j)], N[i][0] * N[j][0] * W / dt) for i in range(4) for j in range(4)], el.where("update"), "mass integrand of a quadrilateral in space")
    ctx.seen(el.s.I)


def swap(p, sw):
    return p.subst(sw.get)


def sources(ctx, cls, n, edges):
    nm = cls[4:cls.index("<")].lower()
    for e in edges:
        el = El(ctx, cls, [])
        v = V("q")
        el.call("setSourceOnEdge", e, v)
        el.call("setSourceOnEdge", e, v)
        m = el.mat("source")
        judge(ctx, "%s:edge-source-%d" % (nm, e), [(i, m.e[(i, 0)], v if i in (e, (e + 1) % n) else ZERO) for i in range(n)], el.where("setSourceOnEdge"), "source applied twice to edge %d" % e)
    el = El(ctx, cls, [])
    for i in range(n):
        el.call("setSourceOnNode", i, V("q%d" % i))
        el.call("setSourceOnNode", i, V("r%d" % i))
    m = el.mat("source")
    judge(ctx, nm + ":node-source", [(i, m.e[(i, 0)], V("q%d" % i) + V("r%d" % i)) for i in range(n)], el.where("setSourceOnNode"), "sources applied to the nodes")


def check(ctx):
    ctx.rule("diffusion matrix = -(integral of grad Ni . grad Nj) * coefficient, mass matrix = (integral of Ni Nj)/dt, entry by entry as normal forms over symbolic corner positions")
    X = [[V("x%d" % i), V("y%d" % i), V("z%d" % i)] for i in range(4)]
    for f in (beam, triangle, tetrahedron):
        alg.POSITIVE.clear()
        alg.POSITIVE.add(alg.atom_id(("sym", "dt")))
        attempt(ctx, f.__name__ + ":analysis", f.__name__, lambda: f(ctx, X, V("k"), V("dt")))
    for fr in PLANES:
        attempt(ctx, "plane-elements:%s:analysis" % fr[0], "CFemTriangle, CFemQuadrilateral", lambda: tilted(ctx, fr))
    integrated(ctx, "quadrilateral", "CFemQuadrilateral<double,4,1,1>", "CIntQuadrilateral", "cube", SQUARE, ("xi", "eta"), Fr(1, 2), True)
    integrated(ctx, "prism", "CFemTriangularPrism<double,6,1,1>", "CIntTriangularPrism", "wedge", WEDGE, ("xi", "eta", "zeta"), Fr(1, 2), False)
    integrated(ctx, "hexahedron-lexicographic", "CFemHexahedron<double,8,1,1>", "CIntHexahedron", "cube", LEX, ("xi", "eta", "zeta"), Fr(1, 2), False)
    integrated(ctx, "hexahedron", "CFemHexahedron<double,8,1,1>", "CIntHexahedron", "cube", CUBE, ("xi", "eta", "zeta"), Fr(1, 2), False, known=True)
    for cls, n, edges in (("CFemBeam<double,2,1,1>", 2, ()), ("CFemTriangle<double,3,1,1>", 3, range(3)), ("CFemQuadrilateral<double,4,1,1>", 4, range(4)), ("CFemTetrahedron<double,4,1,1>", 4, range(3)),
                          ("CFemTriangularPrism<double,6,1,1>", 6, (0, 1, 3, 4)), ("CFemHexahedron<double,8,1,1>", 8, (0, 1, 2, 4, 5, 6))):
        attempt(ctx, cls + ":sources", cls, lambda: sources(ctx, cls, n, edges))
    ctx.need("elements", 5)
