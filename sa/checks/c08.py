"""The discrete operators (ddt, laplacian, divergence, gradient, source) of the finite difference, finite
element and finite volume methods are interpreted abstractly on small meshes with symbolic coordinates,
materials and field values whose node and element identifiers are neither ordered nor contiguous. The
assembled system must be the defining stencil / integral / flux balance, entry by entry."""
from checks.meshutil import *
from checks.c05 import array
from checks.femutil import attempt, judge, dot, cross, El, same
import os
import models
from ir import Broken

MIN = 90


def pos(*names):
    for n in names:
        alg.POSITIVE.add(alg.atom_id(("sym", n)))
    return [V(n) for n in names]


def world(ctx):
    alg.POSITIVE.clear()
    w = W(ctx)
    w.s.I.strict = True
    return w


def typed(ctx, key, w, A, t, where):
    """the declared matrix type is one the solver handles and a symmetric declaration is true"""
    s = w.s
    names = {k: s.enum("EMatrixType", k) for k in ("MT_UNKNOWN", "MT_SPARSE_SYMMETRIC", "MT_SPARSE", "MT_DENSE")}
    if t == names["MT_SPARSE_SYMMETRIC"]:
        judge(ctx, key + ":declared-symmetric", [((i, j), A.e[(i, j)], A.e[(j, i)]) for i in range(A.r) for j in range(i)], where, "declared symmetric")
    else:
        ctx.ob(key + ":declared-type", t in (names["MT_SPARSE"], names["MT_DENSE"]), where, "matrix type left undeclared")


def entries(A, K):
    return [((i, j), A.e[(i, j)], K.get((i, j), ZERO)) for i in range(A.r) for j in range(A.c)]


def vec(b, want):
    return [(i, b.e[(i, 0)], want[i]) for i in range(b.r)]


# ------------------------------------------------------------ finite differences
def fdm(ctx, sim, n):
    dx = V("dx")
    for op, ends in [(o, e) for o in ("ddt", "laplacian", "divergence") for e in ((), (0,), (n - 1,), (0, n - 1), (0, 2, n - 1)) if len(e) < 3 or o == "ddt"]:
        key = "fdm:%s:%s" % (sim[3:].lower(), op) + "".join("-%d" % e for e in ends)

        def go():
            w = world(ctx)
            s = w.s
            where = w.free_where("pde::fdm::%s::%s" % (sim[3:].lower(), op), 2)
            m = w.mesh([[V("L") * C(i), ZERO, ZERO] for i in range(n)], [("ET_BEAM", (i, i + 1)) for i in range(3)])
            s.call(m, "setDx", dx)
            f = w.field(m, "DM_FDM", sim)
            fx = {i: V("g%d" % i) for i in ends}
            for i in ends:
                s.call(f, "setFixedValue", C(i), fx[i])
            A, b, t = w.system(w.free("pde::" + op, f))
            ctx.ob(key + ":size", A.r == n and A.c == n and b.r == n, where, "system is %dx%d with %d right-hand sides for %d nodes" % (A.r, A.c, b.r, n))
            typed(ctx, key, w, A, t, where)
            u = [V("u%d" % i) for i in range(n)]
            if op == "ddt":
                judge(ctx, key + ":matrix", entries(A, {(i, i): ONE for i in range(n)}), where, "coefficient of the time derivative")
                judge(ctx, key + ":previous", vec(b, [fx.get(i, u[i]) for i in range(n)]), where, "previous (or prescribed) value")
            elif op == "laplacian":
                K = {}
                for i in range(n):
                    K[(i, i)] = C(-2) / dx / dx
                    for j in (i - 1, i + 1):
                        if 0 <= j < n:
                            K[(i, j)] = ONE / dx / dx
                for i in (0, n - 1):
                    if i not in fx:
                        K[(i, i)] = C(-1) / dx / dx        # free end: the flux through it vanishes
                judge(ctx, key + ":matrix", entries(A, K), where, "second difference")
                judge(ctx, key + ":prescribed", vec(b, [-fx[i] / dx / dx if i in fx else ZERO for i in range(n)]), where, "prescribed end value")
            else:
                K = {}
                for i in range(1, n - 1):
                    K[(i, i + 1)], K[(i, i - 1)] = ONE / dx.scale(2), C(-1) / dx.scale(2)
                judge(ctx, key + ":matrix", [e for e in entries(A, K) if 0 < e[0][0] < n - 1], where, "central difference")
                one = {0: lambda: (u[1] - fx[0]) / dx, n - 1: lambda: (fx[n - 1] - u[n - 2]) / dx}
                judge(ctx, key + ":rhs", vec(b, [-one[i]() if i in fx else ZERO for i in range(n)]), where, "central difference inside, one-sided difference to a prescribed end")
            ctx.count("operators")
            ctx.seen(s.I)
        attempt(ctx, key, key, go)


# ------------------------------------------------------------ finite elements
def grads(X):
    """measure and shape-function gradients of a linear simplex"""
    n = len(X)
    e = [[X[i][d] - X[0][d] for d in range(3)] for i in range(1, n)]
    if n == 2:
        L = dot(e[0], e[0])
        return alg.fn("sqrt", L), [[-x / L for x in e[0]], [x / L for x in e[0]]]
    if n == 3:
        N = cross(e[0], e[1])
        A2 = N[2]
        g = [[X[(i + 1) % 3][1] - X[(i + 2) % 3][1], X[(i + 2) % 3][0] - X[(i + 1) % 3][0], ZERO] for i in range(3)]
        return A2.scale(Fr(1, 2)), [[x / A2 for x in r] for r in g]
    D = dot(cross(e[0], e[1]), e[2])     # a tetrahedron with positive volume in the library is listed left-handed
    g = [None, cross(e[1], e[2]), cross(e[2], e[0]), cross(e[0], e[1])]
    g = [g[0]] + [[x / D for x in r] for r in g[1:]]
    g[0] = [-(g[1][d] + g[2][d] + g[3][d]) for d in range(3)]
    return D.scale(Fr(-1, 6)), g


def shapes():
    """name -> (element type, corner positions, two cells, simplex?)"""
    a, b, c, d = pos("a", "b", "c", "d")
    z = ZERO
    v = lambda *p: list(p)
    line = [v(z, z, z), v(a, a.scale(2), a.scale(2)), v(a + b, (a + b).scale(2), (a + b).scale(2))]
    tri = [v(z, z, z), v(a, z, z), v(a, b, z), v(-c, d, z)]
    quad = [v(z, z, z), v(a, z, z), v(a, b, z), v(z, b, z), v(a + c, z, z), v(a + c, b, z)]
    tet = [v(z, z, z), v(a, z, z), v(z, b, z), v(a, b, c), v(a, b, -d)]
    hexa = [v(a * C(i), b * C(j), c * C(k)) for k in (0, 1) for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]
    hexa += [v(a + d, z, z), v(a + d, b, z), v(a + d, z, c), v(a + d, b, c)]
    pri = [v(z, z, z), v(a, z, z), v(z, b, z), v(z, z, c), v(a, z, c), v(z, b, c), v(a, b, z), v(a, b, c)]
    return {
        "beam": ("ET_BEAM", line, [(0, 1), (2, 1)], True),
        "triangle": ("ET_TRIANGLE", tri, [(0, 1, 2), (2, 3, 0)], True),
        "quadrilateral": ("ET_QUADRILATERAL", quad, [(0, 1, 2, 3), (1, 4, 5, 2)], False),
        "tetrahedron": ("ET_TETRAHEDRON", tet, [(0, 2, 1, 3), (0, 1, 2, 4)], True),
        "triangular-prism": ("ET_TRIANGULAR_PRISM", pri, [(0, 1, 2, 3, 4, 5), (1, 6, 2, 4, 7, 5)], False),
        "hexahedron": ("ET_HEXAHEDRON", hexa, [(0, 1, 2, 3, 4, 5, 6, 7), (1, 8, 9, 2, 5, 10, 11, 6)], False),
    }


CLS = {"beam": "CFemBeam<double,2,1,1>", "triangle": "CFemTriangle<double,3,1,1>", "quadrilateral": "CFemQuadrilateral<double,4,1,1>",
       "tetrahedron": "CFemTetrahedron<double,4,1,1>", "triangular-prism": "CFemTriangularPrism<double,6,1,1>", "hexahedron": "CFemHexahedron<double,8,1,1>"}


def element_matrix(ctx, name, X, op, cls=None):
    """the element's own matrix (judged against its definition by C04)"""
    el = El(ctx, cls or CLS[name], X)
    calc = "calculateVolume" if name in ("tetrahedron", "triangular-prism", "hexahedron") else "calculateArea"
    el.call(calc, False)
    el.call("setTransient", op == "ddt")
    el.call("update")
    return el.mat("ddt" if op == "ddt" else "laplacian").e


def fem_expected(ctx, name, X, cells, simplex, op):
    K = {}
    for cell in cells:
        P_ = [X[i] for i in cell]
        n = len(cell)
        if simplex:
            M, g = grads(P_)
            e = {}
            for i in range(n):
                for j in range(n):
                    if op == "divergence":
                        e[(i, j)] = C(Fr(1, 2) if j else Fr(-1, 2))      # N_i dN_j/dx over a beam
                    elif op == "ddt":
                        e[(i, j)] = M * C(Fr(1 + (i == j), n * (n + 1)))
                    else:
                        e[(i, j)] = -dot(g[i], g[j]) * M
        else:
            e = element_matrix(ctx, name, P_, op)
        for i in range(n):
            for j in range(n):
                k = (cell[i], cell[j])
                K[k] = K.get(k, ZERO) + e[(i, j)]
    return K


def fem(ctx, sim, name, op):
    key = "fem:%s:%s:%s" % (sim[3:].lower(), op, name)

    def go():
        w = world(ctx)
        s = w.s
        where = w.free_where("pde::fem::%s::%s" % (sim[3:].lower(), op), 3 if op == "source" else 2)
        et, X, cells, simplex = shapes()[name]
        n = len(X)
        m = w.mesh(X, [(et, c) for c in cells])
        f = w.field(m, "DM_FEM", sim)
        if op == "source":
            q = V("q")
            b = s.mat(w.free("pde::source", f, q))
            if not isinstance(b, Mat):
                raise Unk("source of unknown shape")
            ctx.ob(key + ":size", b.r == n, where, "%d sources for %d nodes" % (b.r, n))
            judge(ctx, key + ":load", vec(b, [q * C(sum(1 for c in cells if i in c)) for i in range(n)]), where, "nodal source of every adjacent cell")
        else:
            A, b, t = w.system(w.free("pde::" + op, f))
            ctx.ob(key + ":size", A.r == n and A.c == n and b.r == n, where, "system is %dx%d with %d right-hand sides for %d nodes" % (A.r, A.c, b.r, n))
            K = fem_expected(ctx, name, X, cells, simplex, op)
            judge(ctx, key + ":matrix", entries(A, K), where, "assembled matrix")
            typed(ctx, key, w, A, t, where)
            want = [ZERO] * n
            if op == "ddt":
                want = [sum((A.e[(i, j)] * V("u%d" % j) for j in range(n)), ZERO) for i in range(n)]
            judge(ctx, key + ":rhs", vec(b, want), where, "right-hand side")
        ctx.count("operators")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def per_cell(cells, nd, f):
    K = {}
    for e, cell in enumerate(cells):
        m = f(e, cell)
        n = len(cell) * nd
        for i in range(n):
            for j in range(n):
                k = (cell[i // nd] * nd + i % nd, cell[j // nd] * nd + j % nd)
                K[k] = K.get(k, ZERO) + m[(i, j)]
    return K


def flow(ctx, name, op):
    """flow operators on simplex meshes: Galerkin terms from their definition, the stabilised convection
    from the element (judged by C05) fed with the nodal velocities of the cell"""
    key = "fem:flow:%s:%s" % (op, name)

    def go():
        w = world(ctx)
        s = w.s
        et, X, cells, _ = shapes()[name]
        n = len(X)
        dim = len(cells[0]) - 1
        m = w.mesh(X, [(et, c) for c in cells])
        th = [V("t%d" % k) for k in range(len(cells))]
        fs = [w.field(m, "DM_FEM", "ST_FLOW", u=x) for x in "uvw"[:dim]]
        for f in fs:
            w.material(f, DENSITY=V("rho"), VISCOSITY=V("mu"))
        f = fs[0]
        if op == "divergence":
            where = w.free_where("pde::fem::flow::divergence", dim + 2)
            r = w.free("pde::divergence", *(fs + [V("dt")]))
        elif op.startswith("gradient"):
            where = w.free_where("pde::fem::flow::gradient", 3)
            r = w.free("pde::gradient", f, s.enum("EComponent", "CP_" + op[-1].upper()))
        else:
            where = w.free_where("pde::fem::flow::" + op, 2)
            r = w.free("pde::" + op, f)
        A, b, t = w.system(r)
        ctx.ob(key + ":size", A.r == n and A.c == n and b.r == n, where, "system is %dx%d with %d right-hand sides for %d nodes" % (A.r, A.c, b.r, n))

        def one(e, cell):
            P_ = [X[i] for i in cell]
            k = len(cell)
            if op == "divergence":
                el = El(ctx, "CFemFlowTriangle<double,3,1,1>" if k == 3 else "CFemFlowTetrahedron<double,4,1,1>", P_)
                el.call("setDt", V("dt"))
                el.call("calculateArea" if k == 3 else "calculateVolume", False)
                el.call("calculateConvectiveTerm", *[array(el, c, [V("%s%d" % (c, i)) for i in cell]) for c in "uvw"[:dim]])
                return el.mat("divergence").e
            M, g = grads(P_)
            if op == "ddt":
                return {(i, j): M * C(Fr(1 + (i == j), k * (k + 1))) for i in range(k) for j in range(k)}
            if op == "laplacian":
                return {(i, j): -dot(g[i], g[j]) * M for i in range(k) for j in range(k)}
            d = "xyz".index(op[-1])
            return {(i, j): g[j][d] * M.scale(Fr(1, k)) for i in range(k) for j in range(k)}
        judge(ctx, key + ":matrix", entries(A, per_cell(cells, 1, one)), where, "assembled matrix")
        typed(ctx, key, w, A, t, where)
        want = [sum((A.e[(i, j)] * V("u%d" % j) for j in range(n)), ZERO) if op == "ddt" else ZERO for i in range(n)]
        judge(ctx, key + ":rhs", vec(b, want), where, "right-hand side")
        ctx.count("operators")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def structural(ctx, name):
    key = "fem:structural:laplacian:" + name

    def go():
        w = world(ctx)
        s = w.s
        et, X, cells, _ = shapes()[name]
        n = len(X)
        dim = len(cells[0]) - 1
        m = w.s.new("CMshMesh", name="mesh")
        for i, x in enumerate(X):
            s.call(m, "addNode", C(NID[i]), s.xyz("CMshNode", *x))
        th = [V("t%d" % k) for k in range(len(cells))]
        for k, c in enumerate(cells):
            s.call(m, "addElement", C(EID[k]), w.element(et, [NID[i] for i in c], th[k]))
        f = w.field(m, "DM_FEM", "ST_STRUCTURAL", dofs=dim)
        E, nu = V("E"), V("nu")
        w.material(f, ELASTIC_MODULUS=E, POISSON_COEFFICIENT=nu)
        where = w.free_where("pde::fem::structural::laplacian", 2)
        A, b, t = w.system(w.free("pde::laplacian", f))
        nd = n * dim
        ctx.ob(key + ":size", A.r == nd and A.c == nd and b.r == nd, where, "system is %dx%d with %d right-hand sides for %d degrees of freedom" % (A.r, A.c, b.r, nd))

        def one(e, cell):
            el = El(ctx, "CFemConstantStrainTriangle<double,3,2,1>" if dim == 2 else "CFemConstantStrainTetrahedron<double,4,3,1>", [X[i] for i in cell])
            el.call("setElasticModulus", E)
            el.call("setCoeffPoisson", nu)
            if dim == 2:
                el.call("setThickness", th[e])
            el.call("calculateArea" if dim == 2 else "calculateVolume", False)
            el.call("setTransient", False)
            el.call("update")
            return el.mat("laplacian").e
        judge(ctx, key + ":matrix", entries(A, per_cell(cells, dim, one)), where, "assembled stiffness")
        typed(ctx, key, w, A, t, where)
        judge(ctx, key + ":rhs", vec(b, [ZERO] * nd), where, "right-hand side")
        ctx.count("operators")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


# ------------------------------------------------------------ finite volumes
def fvm_meshes():
    a, b, c, d = pos("a", "b", "c", "d")
    z = ZERO
    G = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    box = [[a * C(p), b * C(q), c * C(r)] for p, q, r in G]
    box += [[a + d, z, z], [a + d, b, z], [a + d, z, c], [a + d, b, c]]

    def hexfaces(n):
        b0, b1, b2, b3, t0, t1, t2, t3 = n
        return [(b0, b3, b2, b1), (t0, t1, t2, t3), (b0, b1, t1, t0), (b1, b2, t2, t1), (b2, b3, t3, t2), (b3, b0, t0, t3)]

    def tetfaces(n):
        p, q, r, t = n                # right-handed
        return [(p, r, q), (p, q, t), (q, r, t), (r, p, t)]
    h0, h1 = (0, 1, 2, 3, 4, 5, 6, 7), (1, 8, 9, 2, 5, 10, 11, 6)
    # proportions that keep the area of the oblique faces rational
    ta, td = a.scale(2), a.scale(12)
    tet = [[z, z, z], [ta, z, z], [z, a, z], [z, z, a], [-td, z, z]]
    # cells with positive volume in the library are listed left-handed
    lh = lambda n: n[4:] + n[:4]
    return {
        "hexahedron": (box, [("ET_HEXAHEDRON", lh(h0), hexfaces(h0), a * b * c), ("ET_HEXAHEDRON", lh(h1), hexfaces(h1), d * b * c)]),
        "tetrahedron": (tet, [("ET_TETRAHEDRON", (0, 2, 1, 3), tetfaces((0, 1, 2, 3)), (ta * a * a).scale(Fr(1, 6))),
                              ("ET_TETRAHEDRON", (0, 4, 2, 3), tetfaces((0, 2, 4, 3)), (td * a * a).scale(Fr(1, 6)))]),
    }


def varea(P_):
    """vector area of a polygon"""
    s = [ZERO] * 3
    for i in range(1, len(P_) - 1):
        n = cross([P_[i][k] - P_[0][k] for k in range(3)], [P_[i + 1][k] - P_[0][k] for k in range(3)])
        s = [x + y.scale(Fr(1, 2)) for x, y in zip(s, n)]
    return s


def mean(P_):
    return [sum((x[k] for x in P_), ZERO).scale(Fr(1, len(P_))) for k in range(3)]


def norm(v):
    return alg.fn("sqrt", dot(v, v))


def fvm(ctx, sim, shape, op, rev=False):
    key = "fvm:%s:%s:%s%s" % (sim[3:].lower(), op, shape, "-opposite" if rev else "")

    def go():
        w = world(ctx)
        s = w.s
        w.point_search()
        where = w.free_where("pde::fvm::%s::%s" % (sim[3:].lower(), op), 2)
        X, cells = fvm_meshes()[shape]
        eps = V2("numeric_limits", "epsilon")
        vs = [V(x) for x in "abcd"]
        # sizes well above the rounding unit
        s.assume(*([absint.compare("<", eps, x * y * z) for x in vs for y in vs for z in vs] + [absint.compare("<", eps, x * y) for x in vs for y in vs] + [absint.compare("<", eps, ONE)]))
        conn = [c[1] for c in cells]
        if rev:
            conn = [(c[4:] + c[:4]) if len(c) == 8 else (c[0], c[2], c[1], c[3]) for c in conn]
        m = w.mesh(X, [(c[0], n) for c, n in zip(cells, conn)])
        s.call(m, "generateFaces", V("tol"))
        s.call(m, "calculateFaceCentroid")
        s.call(m, "calculateElementCentroid")
        ids = {}
        for i in range(s.int(s.call(m, "nbFaces"))):
            fi = s.int(s.call(m, "faceId", C(i)))
            f = s.call(m, "face", C(fi))
            ns = frozenset(NID.index(s.int(s.call(f, "nodeId", C(k)))) for k in range(s.int(s.call(f, "nbNodeIds"))))
            ids[(EID.index(s.int(s.call(f, "elementId"))), ns)] = fi
        fld = w.field(m, "DM_FVM", sim, loc="DL_ELEMENT_CENTER")
        K, B = {}, [ZERO] * len(cells)
        cent = [mean([X[i] for i in c[1]]) for c in cells]
        nb = 0
        for e, (et, cn, faces, vol) in enumerate(cells):
            K[(e, e)] = K.get((e, e), ZERO)
            for fc in faces:
                N = varea([X[i] for i in fc])
                other = [k for k, c in enumerate(cells) if k != e and any(set(g) == set(fc) for g in c[2])]
                fx = sum(N, ZERO) / vol
                if op == "ddt":
                    pass
                elif other:
                    o = other[0]
                    if op == "laplacian":
                        k = norm(N) / (norm([x - y for x, y in zip(cent[o], cent[e])]) * vol)
                        K[(e, e)] = K[(e, e)] - k
                        K[(e, o)] = K.get((e, o), ZERO) + k
                    else:
                        h = fx.scale(Fr(1, 2)) * (V("u%d" % e) if sim == "ST_FLOW" else ONE)
                        K[(e, e)] = K[(e, e)] + h
                        K[(e, o)] = K.get((e, o), ZERO) + h
                else:
                    if sum(1 for x in N if not alg.is_zero(x)) > 1 and op == "laplacian":
                        continue              # oblique faces stay free
                    ub = V("ub%d" % nb)
                    nb += 1
                    bc = s.new("CPdeBoundaryCondition", s.enum("EBoundaryConditionType", "BT_GENERIC_FIXED_VALUE"))
                    s.call(bc, "addCondition", s.enum("EConditionType", "CT_GENERIC_FIXED_VALUE"), ub)
                    if (e, frozenset(fc)) not in ids:
                        raise Unk("face not generated")
                    s.call(fld, "addBCFace", C(ids[(e, frozenset(fc))]), bc)
                    if op == "laplacian":
                        k = norm(N) / (norm([x - y for x, y in zip(mean([X[i] for i in fc]), cent[e])]) * vol)
                        K[(e, e)] = K[(e, e)] - k
                        B[e] = B[e] - k * ub
                    else:
                        B[e] = B[e] - fx * ub * (V("u%d" % e) if sim == "ST_FLOW" else ONE)
            if op == "ddt":
                K[(e, e)] = ONE
                B[e] = V("u%d" % e)
                if e == 0:
                    fc = faces[0]
                    bc = s.new("CPdeBoundaryCondition", s.enum("EBoundaryConditionType", "BT_GENERIC_FIXED_VALUE"))
                    s.call(bc, "addCondition", s.enum("EConditionType", "CT_GENERIC_FIXED_VALUE"), V("ub"))
                    s.call(fld, "addBCFace", C(ids[(e, frozenset(fc))]), bc)
        A, b, t = w.system(w.free("pde::" + op, fld))
        n = len(cells)
        ctx.ob(key + ":size", A.r == n and A.c == n and b.r == n, where, "system is %dx%d with %d right-hand sides for %d cells" % (A.r, A.c, b.r, n))
        typed(ctx, key, w, A, t, where)
        judge(ctx, key + ":matrix", entries(A, K), where, "flux balance")
        if op == "ddt":
            judge(ctx, key + ":rhs", vec(b, B)[1:], where, "previous value")
            judge(ctx, key + ":rhs-bounded", vec(b, B)[:1], where, "previous value of a cell with a prescribed face")
        else:
            judge(ctx, key + ":rhs", vec(b, B), where, "prescribed face values")
        if op == "divergence" and sim != "ST_FLOW":
            one = [sum((A.e[(i, j)] for j in range(n)), ZERO) - b.e[(i, 0)] for i in range(n)]
            sub = {alg.atom_id(("sym", "ub%d" % k)): ONE for k in range(nb)}
            one = [x.subst(lambda q: sub.get(q)) for x in one]
            judge(ctx, key + ":constants", [(i, x, ZERO) for i, x in enumerate(one)], where, "divergence of a constant field with the same constant prescribed on every free face")
        ctx.count("operators")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def V2(*k):
    return P.atom(("sym",) + k)


def check(ctx):
    ctx.rule("assembled entries = sum over cells of the defining stencil / variational form / flux balance, at the index of each node or cell")
    for sim in ("ST_GENERIC", "ST_THERMAL"):
        fdm(ctx, sim, 5)
    for name in CLS:
        for op in ("laplacian", "ddt", "source"):
            fem(ctx, "ST_GENERIC", name, op)
        for op in ("laplacian", "ddt"):
            fem(ctx, "ST_THERMAL", name, op)
    for sim in ("ST_GENERIC", "ST_THERMAL"):
        fem(ctx, sim, "beam", "divergence")

    for sim in ("ST_GENERIC", "ST_THERMAL", "ST_FLOW"):
        for shape in ("hexahedron", "tetrahedron"):
            for op in ("laplacian", "divergence", "ddt"):
                fvm(ctx, sim, shape, op)
        fvm(ctx, sim, "hexahedron", "laplacian", rev=True)
    for name in ("triangle", "tetrahedron"):
        for op in ("ddt", "laplacian", "divergence", "gradient-x", "gradient-y"):
            flow(ctx, name, op)
        structural(ctx, name)
    flow(ctx, "tetrahedron", "gradient-z")
