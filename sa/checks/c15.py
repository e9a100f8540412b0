"""The lattice Boltzmann solver is interpreted abstractly on a lattice whose every node carries its own symbolic
populations, density, velocity and wall flag: the equilibrium must have the moments it stands for (mass,
momentum and momentum flux), and one step must be relaxation, streaming, bounce-back, moments and the lid."""
from checks.meshutil import *
from checks.c08 import attempt, world, pos
from checks.femutil import judge
from fractions import Fraction as Fr
import alg
import absint
from scn import Unk
from ir import Broken

MIN = 15
EXPLANATION = __doc__
CLS = "CLbmLidDrivenSolver<double,2,9>"


class L:
    def __init__(self, ctx, nx, ny):
        self.w = world(ctx)
        self.s = s = self.w.s
        self.nx, self.ny = nx, ny
        self.o = s.new(CLS, C(nx), C(ny), C(1), name="lattice")
        self.e = [[self.int("m_e", k, d) for d in range(2)] for k in range(9)]
        self.wt = [self.get("m_w", k) for k in range(9)]

    def ref(self, name, *ix):
        return Ref((self.o.loc[0], self.o.loc[1] + (name,) + tuple(("#", C(i)) for i in ix)), "double")

    def get(self, name, *ix):
        return self.s.num(self.ref(name, *ix))

    def int(self, name, *ix):
        return self.s.int(self.ref(name, *ix))

    def put(self, name, v, *ix):
        r = self.ref(name, *ix)
        self.s.st.setk(r.loc[0], r.loc[1], v)

    def feq(self, k, rho, u):
        """second-order equilibrium of the D2Q9 lattice"""
        e, w = E9[k], W9[k]
        eu = u[0].scale(e[0]) + u[1].scale(e[1])
        uu = u[0] * u[0] + u[1] * u[1]
        return (rho * (ONE + eu.scale(3) + (eu * eu).scale(Fr(9, 2)) - uu.scale(Fr(3, 2)))).scale(w)


E9 = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (-1, -1), (1, -1)]
W9 = [Fr(4, 9)] + [Fr(1, 9)] * 4 + [Fr(1, 36)] * 4


def lattice(ctx):
    key = "equilibrium"

    def go():
        l = L(ctx, 3, 4)
        s = l.s
        where = s.where(CLS, "feq2")
        ctx.ob(key + ":directions", sorted(map(tuple, l.e)) == sorted(E9), s.where(CLS, "CLbmLidDrivenSolver"), "directions are %s" % (l.e,))
        u = [V("ux"), V("uy")]
        uv = s.vector("double", "uv")
        for i in range(2):
            s.st.setk(uv.loc[0], uv.loc[1] + (("#", C(i)),), u[i])
        s.st.setk(uv.loc[0], uv.loc[1] + ("@size",), C(2))
        f = [s.num(s.call(l.o, "feq2", C(k), V("rho"), uv)) for k in range(9)]
        rho = V("rho")
        sm = lambda g: sum((f[k].scale(g(l.e[k])) for k in range(9)), ZERO)
        judge(ctx, key + ":mass", [("mass", sm(lambda e: 1), rho)], where, "sum of the populations")
        judge(ctx, key + ":momentum", [(d, sm(lambda e: e[d]), rho * u[d]) for d in range(2)], where, "momentum of the populations")
        judge(ctx, key + ":flux", [((d, g), sm(lambda e: e[d] * e[g]), rho * u[d] * u[g] + (rho.scale(Fr(1, 3)) if d == g else ZERO)) for d in range(2) for g in range(2)], where, "momentum flux: pressure rho / 3 plus convection")
        judge(ctx, key + ":rest", [(k, f[k], l.feq(E9.index(tuple(l.e[k])), rho, u).scale(1)) for k in range(9)], where, "second-order equilibrium")
        op = [s.int(l.ref("m_op", k)) for k in range(9)]
        ctx.ob(key + ":opposite", all(tuple(-x for x in l.e[k]) == tuple(l.e[op[k]]) for k in range(9)), where, "opposite directions are %s" % op)
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def starts(ctx, nx, ny):
    key = "start:%dx%d" % (nx, ny)

    def go():
        l = L(ctx, nx, ny)
        s = l.s
        where = s.where(CLS, "init")
        s.call(l.o, "setDensity", C(1), C(2), V("r"))
        s.call(l.o, "setVelocity", C(1), C(2), C(0), V("p"))
        s.call(l.o, "setVelocity", C(2), C(1), C(1), V("q"))
        s.call(l.o, "setBoundary", C(nx), C(1), C(1))
        I = [(i, j) for i in range(nx + 1) for j in range(ny + 1)]
        vel = {(1, 2, 0): V("p"), (2, 1, 1): V("q")}
        judge(ctx, key + ":velocity", [((i, j, d), s.num(s.call(l.o, "getVelocity", C(i), C(j), C(d))), vel.get((i, j, d), ZERO)) for i, j in I for d in range(2)], s.where(CLS, "setVelocity"), "velocity of a node")
        ctx.ob(key + ":flag", all(s.int(s.call(l.o, "getBoundary", C(i), C(j))) == (1 if (i, j) == (nx, 1) else 0) for i, j in I), s.where(CLS, "setBoundary"), "wall flag of a node")
        judge(ctx, key + ":density", [((1, 2), l.get("m_rho", 1, 2), V("r"))], s.where(CLS, "setDensity"), "density of a node")
        s.call(l.o, "init")
        judge(ctx, key + ":rest", [((i, j, k), l.get("m_f", i, j, k), C(W9[E9.index(tuple(l.e[k]))])) for i, j in I for k in range(9)] +
              [((i, j), l.get("m_rho", i, j), ONE) for i, j in I] + [((i, j, d), l.get("m_u", i, j, d), ZERO) for i, j in I for d in range(2)], where, "fluid at rest with unit density")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def step(ctx, nx, ny, walls):
    key = "step:%dx%d:%s" % (nx, ny, "-".join("%d.%d" % w for w in walls) or "free")

    def go():
        l = L(ctx, nx, ny)
        s = l.s
        where = s.where(CLS, "evolve")
        I = [(i, j) for i in range(nx + 1) for j in range(ny + 1)]
        f0, u0, r0 = {}, {}, {}
        for i, j in I:
            r0[i, j] = V("r%d_%d" % (i, j))
            l.put("m_rho", r0[i, j], i, j)
            for d in range(2):
                u0[i, j, d] = V("%s%d_%d" % ("uv"[d], i, j))
                l.put("m_u", u0[i, j, d], i, j, d)
            for k in range(9):
                f0[i, j, k] = V("f%d_%d_%d" % (i, j, k))
                l.put("m_f", f0[i, j, k], i, j, k)
        for w in walls:
            s.call(l.o, "setBoundary", C(w[0]), C(w[1]), C(1))
        s.call(l.o, "evolve", V("tau"))
        ix = [E9.index(tuple(e)) for e in l.e]
        inner = [(i, j) for i, j in I if 0 < i < nx and 0 < j < ny]
        F, R, U = dict(f0), dict(r0), dict(u0)
        got = {}
        for i, j in inner:
            t = {}
            for k in range(9):
                p, q = i - l.e[k][0], j - l.e[k][1]
                t[k] = f0[p, q, k] + (l.feq(ix[k], r0[p, q], [u0[p, q, 0], u0[p, q, 1]]) - f0[p, q, k]) / V("tau")
            if (i, j) in walls:
                t = {k: t[l.e.index([-x for x in l.e[k]])] for k in range(9)}
            for k in range(9):
                F[i, j, k] = t[k]
        judge(ctx, key + ":populations", [((i, j, k), l.get("m_f", i, j, k), F[i, j, k]) for i, j in inner for k in range(9)], where, "relaxed population streamed from the node it comes from (reversed at a wall)")
        for i, j in inner:
            g = [l.get("m_f", i, j, k) for k in range(9)]
            rho = l.get("m_rho", i, j)
            judge(ctx, key + ":density", [((i, j), rho, sum(g, ZERO))], where, "density is the sum of the populations")
            judge(ctx, key + ":velocity", [((i, j, d), l.get("m_u", i, j, d) * rho, sum((g[k].scale(l.e[k][d]) for k in range(9)), ZERO)) for d in range(2)], where, "momentum of the populations")
            judge(ctx, key + ":previous", [((i, j, d), l.get("m_u0", i, j, d), u0[i, j, d]) for d in range(2)], where, "velocity before the step")
        rest = [(i, j) for i, j in I if (i, j) not in inner and j != ny]
        judge(ctx, key + ":walls-keep", [((i, j, k), l.get("m_f", i, j, k), f0[i, j, k]) for i, j in rest for k in range(9)] + [((i, j), l.get("m_rho", i, j), r0[i, j]) for i, j in rest] +
              [((i, j, d), l.get("m_u", i, j, d), u0[i, j, d]) for i, j in rest + [(i, ny) for i in range(nx + 1)] for d in range(2)], where, "nodes of the other walls and the velocity of the lid")
        w = []
        for i in range(nx + 1):
            j = ny - 1
            rho = l.get("m_rho", i, j)
            u = [l.get("m_u", i, j, d) for d in range(2)]
            w.append(((i, ny), l.get("m_rho", i, ny), rho))
            for k in range(9):
                w.append(((i, ny, k), l.get("m_f", i, ny, k) - l.get("m_f", i, j, k), l.feq(ix[k], rho, [u0[i, ny, 0], u0[i, ny, 1]]) - l.feq(ix[k], rho, u)))
        judge(ctx, key + ":lid", w, where, "lid: density of the node below, its departure from equilibrium carried over")
        ctx.count("steps")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def check(ctx):
    J = [(lattice, ()), (starts, (3, 4)), (starts, (4, 2)), (step, (3, 3, ())), (step, (3, 4, ((1, 2),))), (step, (4, 3, ((2, 1), (3, 2), (0, 0)))), (step, (2, 2, ()))]
    parallel(ctx, J)
