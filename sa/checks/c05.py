"""Abstract interpretation of the flow, structural and thermal finite elements with symbolic
corner positions, velocities and material data; matrices are compared, as normal forms, with
their variational definition (convection, gradient, stabilisation, elasticity, boundary exchange)."""
from checks.femutil import *
from fractions import Fraction as Fr

MIN = 12
# a tetrahedron in general position: no two coordinates related
GENERIC = [[Fr(2, 29), Fr(3, 31), Fr(5, 37)], [1 + Fr(7, 29), Fr(11, 31), Fr(13, 37)], [Fr(17, 29), 1 + Fr(19, 31), Fr(23, 37)], [Fr(1, 29), Fr(6, 31), 1 + Fr(11, 37)]]


def array(el, name, vals):
    r = el.s.tmp(name, "double[%d]" % len(vals))
    for i, v in enumerate(vals):
        el.s.st.setk(r.loc[0], (("#", C(i)),), v)
    return Ptr((r.loc[0], ()), "double")


def geom(ctx, cls, n):
    if n == 3:
        X = [[V("x%d" % i), V("y%d" % i), ZERO] for i in range(n)]
    else:
        X = [[C(x) for x in GENERIC[i]] for i in (0, 2, 1, 3)]
    el = El(ctx, cls, X)
    if n == 3:
        el.call("calculateArea", False)
        M = el.s.num(el.call("area"))
        k = 2
        g = [[X[(i + 1) % 3][1] - X[(i + 2) % 3][1], X[(i + 2) % 3][0] - X[(i + 1) % 3][0]] for i in range(3)]
    else:
        el.call("calculateVolume", False)
        M = el.s.num(el.call("volume"))
        k = 6
        e = [[X[i][d] - X[0][d] for d in range(3)] for i in (1, 2, 3)]
        g = [None, cross(e[1], e[2]), cross(e[2], e[0]), cross(e[0], e[1])]
        g[0] = [-(g[1][d] + g[2][d] + g[3][d]) for d in range(3)]
        D = dot(cross(e[0], e[1]), e[2])
        if same(M.scale(6), -D):
            g = [[-x for x in r] for r in g]
        M = M
    el.fact_positive(M)
    return el, X, M, g, k          # grad N_i = g_i/(k*M)


def flow(ctx, key, cls, n):
    dim = n - 1
    alg.POSITIVE.clear()
    el, X, M, g, k = geom(ctx, cls, n)
    dt = V("dt")
    el.call("setDt", dt)
    u = [[V("%s%d" % (c, i)) for i in range(n)] for c in "uvw"[:dim]]
    args = [array(el, "uvw"[d], u[d]) for d in range(dim)]
    el.call("calculateConvectiveTerm", *args)
    m = el.mat("divergence")
    us = [sum(x, ZERO) for x in u]
    ua = [x.scale(Fr(1, n)) for x in us]
    c0 = Fr(1, k * n * (n + 1))
    got = []
    z = {alg.atom_id(("sym", "dt")): ZERO}
    for i in range(n):
        for j in range(n):
            galerkin = dot([us[d] + u[d][i] for d in range(dim)], g[j]).scale(c0)
            got.append(((i, j), m.e[(i, j)].subst(z.get), galerkin))
    where = el.where("calculateConvectiveTerm")
    judge(ctx, key + ":convection", got, where, "convection matrix without time step")
    got = []
    for i in range(n):
        for j in range(n):
            stab = dot(ua, g[i]) * dot(ua, g[j]) * dt
            got.append(((i, j), (m.e[(i, j)] - m.e[(i, j)].subst(z.get)) * M.scale(k * k), -stab))
    judge(ctx, key + ":stabilisation", got, where, "streamline stabilisation")
    for d in range(dim):
        el, X, M, g, k = geom(ctx, cls, n)
        el.call("calculateGradientTerm", d)
        m = el.mat("gradient")
        judge(ctx, "%s:gradient-%d" % (key, d), [((i, j), m.e[(i, j)], g[j][d].scale(Fr(1, n * k))) for i in range(n) for j in range(n)], el.where("calculateGradientTerm"), "gradient matrix")
    el, X, M, g, k = geom(ctx, cls, n)
    el.call("calculateDiffusiveTerm")
    m = el.mat("laplacian")
    judge(ctx, key + ":diffusion", [((i, j), m.e[(i, j)] * M.scale(k * k), -dot(g[i], g[j])) for i in range(n) for j in range(i, n)], el.where("calculateDiffusiveTerm"), "diffusion matrix")
    alg.POSITIVE.add(alg.atom_id(("sym", "dt")))
    el, X, M, g, k = geom(ctx, cls, n)
    el.call("setDt", dt)
    el.call("calculateTransientTerm")
    m = el.mat("ddt")
    judge(ctx, key + ":mass", [((i, j), m.e[(i, j)], M * C(Fr(1 + (i == j), n * (n + 1))) / dt) for i in range(n) for j in range(n)], el.where("calculateTransientTerm"), "mass matrix")
    ctx.seen(el.s.I)
    ctx.count("elements")


def elastic(ctx, key, cls, n):
    dim = n - 1
    alg.POSITIVE.clear()
    el, X, M, g, k = geom(ctx, cls, n)
    E, v, t = V("E"), V("nu"), ONE
    el.call("setElasticModulus", E)
    el.call("setCoeffPoisson", v)
    if n == 3:
        t = V("t")
        el.call("setThickness", t)
    el.call("update")
    m = el.mat("laplacian")
    nd = n * dim
    where = el.where("update")
    ctx.ob(key + ":size", m.r == nd and m.c == nd, where, "stiffness matrix is %sx%s" % (m.r, m.c))
    src = el.mat("source")
    ctx.ob(key + ":load-size", src.r * src.c == nd, where, "load vector has %s entries for %d degrees of freedom" % (src.r * src.c, nd))
    if n == 3:
        # plane stress
        c = E / (ONE - v * v)
        lam, mu2 = c * v, None
        norm, shear = c, c * (ONE - v).scale(Fr(1, 2))
    else:
        c = E / ((ONE + v) * (ONE - v.scale(2)))
        lam = c * v
        norm, shear = c * (ONE - v), c * (C(Fr(1, 2)) - v)
    got, syms = [], []
    for i in range(n):
        for a in range(dim):
            for j in range(n):
                for b in range(dim):
                    if (j, b) < (i, a):
                        syms.append(((i * dim + a, j * dim + b), m.e[(i * dim + a, j * dim + b)], m.e[(j * dim + b, i * dim + a)]))
                    # integral of sigma(phi_j e_b) : eps(phi_i e_a)
                    w = g[i][a] * g[j][b] * lam + g[i][b] * g[j][a] * shear
                    if a == b:
                        w = g[i][a] * g[j][a] * norm
                        for d in range(dim):
                            if d != a:
                                w = w + g[i][d] * g[j][d] * shear
                    else:
                        w = g[i][a] * g[j][b] * lam + g[i][b] * g[j][a] * shear
                    if n == 3 or (i * dim + a) <= 4:
                        got.append(((i * dim + a, j * dim + b), m.e[(i * dim + a, j * dim + b)] * M.scale(k * k), w * t))
    judge(ctx, key + ":stiffness", got, where, "stiffness matrix (times %d*measure)" % (k * k))
    if n == 3:
        judge(ctx, key + ":symmetric", syms, where, "stiffness matrix symmetry")
    ctx.seen(el.s.I)
    ctx.count("elements")


def exchange(ctx, key, cls, n):
    """convective exchange h on an edge adds the edge's consistent mass times h and h*Tinf to the load"""
    alg.POSITIVE.clear()
    X = [[V("x%d" % i), V("y%d" % i), ZERO] for i in range(n)]
    h, T, t = V("h"), V("T"), V("t")
    for e in range(n):
        el = El(ctx, cls, X)
        el.call("setThickness", t)
        p = [f for f in ctx.prog.allfields(el.cls) if f[1] == "laplacian"]
        lap = Ref((el.e.loc[0], el.e.loc[1] + ("laplacian",)), el.f["laplacian"])
        el.call("calculateArea", False)
        if n == 3:
            el.fact_positive(el.s.num(el.call("area")))
            el.call("update")
            m0 = el.mat("laplacian")
        else:
            models.setmat(el.s.I, el.s.st, lap, Mat(n, n, {(i, j): ZERO for i in range(n) for j in range(n)})) if hasattr(models, "setmat") else None
            m0 = el.mat("laplacian")
        s0 = el.mat("source")
        el.call("setConvectionOnEdge", e, h, T)
        m1, s1 = el.mat("laplacian"), el.mat("source")
        i, j = e, (e + 1) % n
        L = alg.fn("sqrt", sum(((X[j][d] - X[i][d]).pow(2) for d in range(2)), ZERO))
        got = []
        for a in range(n):
            for b in range(n):
                w = ZERO
                if a in (i, j) and b in (i, j):
                    w = h * L * t * C(Fr(1 + (a == b), 6))
                got.append(((a, b), m1.e[(a, b)] - m0.e[(a, b)], w))
        where = el.where("setConvectionOnEdge")
        judge(ctx, "%s:exchange-matrix-%d" % (key, e), got, where, "exchange matrix on edge %d" % e)
        judge(ctx, "%s:exchange-load-%d" % (key, e), [(a, s1.e[(a, 0)] - s0.e[(a, 0)], h * T * L * t * C(Fr(1, 2)) if a in (i, j) else ZERO) for a in range(n)], where, "exchange load on edge %d" % e)
        ctx.seen(el.s.I)
    ctx.count("elements")


def check(ctx):
    ctx.rule("convection = integral Ni u.grad Nj, stabilisation = dt * integral (u.grad Ni)(u.grad Nj), gradient = integral Ni dNj, elasticity = integral sigma:eps, exchange = edge mass; entry by entry over symbolic positions")
    for f, a in ((flow, ("flow-triangle", "CFemFlowTriangle<double,3,1,1>", 3)), (flow, ("flow-tetrahedron", "CFemFlowTetrahedron<double,4,1,1>", 4)),
                 (elastic, ("elastic-triangle", "CFemConstantStrainTriangle<double,3,2,1>", 3)), (elastic, ("elastic-tetrahedron", "CFemConstantStrainTetrahedron<double,4,3,1>", 4)),
                 (exchange, ("thermal-triangle", "CFemLinearTemperatureTriangle<double,3,1,1>", 3))):
        attempt(ctx, a[0] + ":analysis", a[1], lambda: f(ctx, *a))
    ctx.need("elements", 3)
