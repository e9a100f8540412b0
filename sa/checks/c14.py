"""One step of the finite volume flow, temperature and volume-of-fluid solvers and of the lattice Boltzmann
solver is interpreted abstractly on meshes with symbolic sizes, identifiers out of order and an arbitrary
previous state (every cell and face has its own symbolic density, viscosity, velocity, pressure, flux ...).
The systems handed to the linear solvers, and what is done with the returned unknowns, must be the balance
each step stands for."""
from checks.meshutil import *
from checks.c08 import attempt, world, pos, varea, mean, norm, V2
from checks.c11 import F, NID, EID
from checks.c06 import fold
from checks.femutil import judge, dot
from fractions import Fraction as Fr
import alg
import absint
import models
import pw
from scn import Unk
from ir import Broken

MIN = 20
EXPLANATION = __doc__
H = C(Fr(1, 2))


class G:
    """a flow solver on a mesh of two cells, with its own picture of the geometry"""

    def __init__(self, ctx, cls, shape="hexahedron", ids=None):
        self.x = x = F(ctx, shape, ids)
        self.ctx, self.s = ctx, x.s
        s = x.s
        self.fm = x.make()
        s.I.strict = True
        self.sol = s.new(cls, self.fm, name="solver")
        s.I.solved = {}
        fm = self.fm
        nf = s.int(s.call(fm, "nbFaces"))
        self.fid = [s.int(s.call(fm, "faceId", C(i))) for i in range(nf)]
        self.cid = [s.int(s.call(fm, "controlVolumeId", C(i))) for i in range(len(x.cells))]
        self.row = {c: i for i, c in enumerate(self.cid)}
        key = {frozenset(x.ref(x.corners(s.call(fm, "face", C(i))))): i for i in self.fid}
        cen = {}
        self.cells = {}
        for e, (et, conn, faces, vol) in enumerate(x.cells):
            c = x.eid[e]
            pts = sorted(set(k for f in faces for k in f))
            cen[c] = mean([x.X[k] for k in pts])
            L = []
            for f in faces:
                W_ = varea([x.X[k] for k in f])
                A = norm(W_)
                m = mean([x.X[k] for k in f])
                L.append(dict(id=key[frozenset(f)], A=A, n=[w / A for w in W_], d=norm([p - q for p, q in zip(m, cen[c])]), own=None, nb=None))
            self.cells[c] = dict(vol=vol, faces=L)
        own = {}
        for c in self.cells:
            for f in self.cells[c]["faces"]:
                own.setdefault(f["id"], []).append(c)
        self.owner = {i: s.int(s.call(s.call(fm, "face", C(i)), "controlVolumeId")) for i in self.fid}
        for c in self.cells:
            for f in self.cells[c]["faces"]:
                o = [k for k in own[f["id"]] if k != c]
                f["nb"] = o[0] if o else None
                f["sg"] = 1 if self.owner[f["id"]] == c else -1
                if f["nb"] is not None:
                    g = [h for h in self.cells[f["nb"]]["faces"] if h["id"] == f["id"]][0]
                    f["dd"] = f["d"] + g["d"]
        self.bfaces = [i for i in self.fid if len(own[i]) == 1]
        self.ifaces = [i for i in self.fid if len(own[i]) == 2]

    def member(self, name):
        return (self.sol.loc[0], self.sol.loc[1] + (name,))

    def put(self, name, key, v):
        loc = self.member(name)
        models.touch_key(self.s.I, self.s.st, loc, C(key))
        self.s.st.setk(loc[0], loc[1] + (("#", C(key)),), v)

    def get(self, name, key):
        loc = self.member(name)
        if models.has_key(self.s.I, self.s.st, loc, C(key)) is FALSE:
            raise absint.Trap("%s has no entry for %s" % (name, key), "solver", 0)
        return self.s.num(Ref((loc[0], loc[1] + (("#", C(key)),)), "double"))

    def state(self, cells=(), faces=(), dt=None):
        """arbitrary values for members keyed by cell or face"""
        for nm in cells:
            for i, c in enumerate(self.cid):
                self.put(nm, c, V("%s_%d" % (nm, i)))
        for nm in faces:
            for i, f in enumerate(self.fid):
                self.put(nm, f, V("%s_%d" % (nm, i)))

    def c(self, nm, c):
        return V("%s_%d" % (nm, self.cid.index(c)))

    def f(self, nm, f):
        return V("%s_%d" % (nm, self.fid.index(f)))

    def calls(self):
        r = self.s.I.solved.get("calls", [])
        for A, b, t in r:
            if not isinstance(A, Mat) or not isinstance(b, Mat):
                raise Unk("system handed to the solver is not known entry by entry")
        return r


def rows(A, K, n):
    return [((i, j), A.e[(i, j)], K.get((i, j), ZERO)) for i in range(n) for j in range(n)]


def add(K, i, j, v):
    K[(i, j)] = K.get((i, j), ZERO) + v


SHAPES = [("hexahedron", None), ("hexahedron", (list(reversed(NID)), [21, 3])), ("prism", (NID[3:] + NID[:3], [1, 0]))]


def signs(g, pattern):
    """the sign of every face flux, seen from the owner"""
    sg = {}
    for i, f in enumerate(g.fid):
        sg[f] = pattern[i % len(pattern)]
        g.put("m_flux", f, pos("F%d" % i)[0].scale(sg[f]))
    g.flux = lambda f: V("F%d" % g.fid.index(f)).scale(sg[f])
    return sg


def temperature(ctx, shape, ids, pattern, steady=False):
    key = "temperature:%s:%s:%s%s" % (shape, "own" if ids is None else ids[1][0], "".join("+" if p > 0 else "-" for p in pattern), ":steady" if steady else "")

    def go():
        g = G(ctx, "CFvmTemperatureSolver", shape, ids)
        s = g.s
        where = s.where("CFvmTemperatureSolver", "calculateTemperatureField")
        s.call(g.sol, "setMaterialProperties", V("r"), V("m"), V("k"), V("cp"))
        for nm, v in (("m_dens", "r"), ("m_visc", "m"), ("m_thcond", "k"), ("m_spheat", "cp")):
            judge(ctx, key + ":set:" + nm, [(c, g.get(nm, c), V(v)) for c in g.cid], s.where("CFvmTemperatureSolver", "setMaterialProperties"), "material of the cell")
        g.state(("m_dens", "m_thcond", "m_spheat", "m_T0", "m_T"), ("m_Tf",))
        sg = signs(g, pattern)
        if steady:
            s.call(g.sol, "setTimeInterval", ZERO)
        else:
            s.assume(absint.compare("<", ZERO, V("dt")))
            s.call(g.sol, "setTimeInterval", V("dt"))
        kb = V("kb")
        s.st.setk(*(g.member("m_bthcond") + (kb,)))
        s.call(g.sol, "calculateTemperatureField")
        L = g.calls()
        ctx.ob(key + ":solved", len(L) == 1, where, "%d systems solved" % len(L))
        A, b, t = L[0]
        n = len(g.cid)
        ctx.ob(key + ":size", (A.r, A.c, b.r) == (n, n, n), where, "system of %dx%d, %d" % (A.r, A.c, b.r))
        K, B = {}, {}
        for c, cell in g.cells.items():
            p = g.row[c]
            B[p] = ZERO
            for f in cell["faces"]:
                F_ = g.flux(f["id"]).scale(f["sg"])
                out = sg[f["id"]] * f["sg"] > 0
                if f["nb"] is not None:
                    q = g.row[f["nb"]]
                    a = lambda nm: (g.c(nm, c) + g.c(nm, f["nb"])) * H
                    k = a("m_thcond") * f["A"] / f["dd"]
                    add(K, p, p, k)
                    add(K, p, q, -k)
                    add(K, p, p if out else q, a("m_dens") * a("m_spheat") * F_)
                else:
                    k = (g.c("m_thcond", c) + kb) * H * f["A"] / f["d"]
                    add(K, p, p, k)
                    B[p] = B[p] + k * g.f("m_Tf", f["id"])
                    rc = g.c("m_dens", c) * g.c("m_spheat", c)
                    if out:
                        add(K, p, p, rc * F_)
                    else:
                        B[p] = B[p] - rc * F_ * g.f("m_Tf", f["id"])
            if not steady:
                m = cell["vol"] * g.c("m_dens", c) * g.c("m_spheat", c) / V("dt")
                add(K, p, p, m)
                B[p] = B[p] + m * g.c("m_T0", c)
        judge(ctx, key + ":matrix", rows(A, K, n), where, "conduction k A/d between cells, upwind transport and heat capacity per time step")
        judge(ctx, key + ":rhs", [(i, b.e[(i, 0)], B[i]) for i in range(n)], where, "prescribed face temperatures and previous cell temperature")
        judge(ctx, key + ":stored", [(c, s.num(s.call(g.sol, "T", C(c))), V("sol1_%d" % g.row[c])) for c in g.cid], where, "temperature of the cell after the step")
        ctx.count("systems")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


CELLS = ("m_u", "m_v", "m_w", "m_p", "m_u0", "m_v0", "m_w0", "m_p0")
FACES_ = ("m_uf", "m_vf", "m_wf", "m_pf")


def green_gauss(g, c, var, varf):
    r = [ZERO] * 3
    for f in g.cells[c]["faces"]:
        v = (g.c(var, c) + g.c(var, f["nb"])) * H if f["nb"] is not None else g.f(varf, f["id"])
        r = [x + v * f["A"] * n for x, n in zip(r, f["n"])]
    return [x / g.cells[c]["vol"] for x in r]


def tag(shape, ids):
    return "%s:%s" % (shape, "own" if ids is None else ids[1][0])


def btype(g, types):
    """boundary faces by turns wall, inlet, prescribed pressure and outlet, set through the public interface"""
    s = g.s
    kind = {}
    for i, f in enumerate(g.bfaces):
        k = types[i % len(types)]
        kind[f] = k
        v = s.vector("int")
        models_push(s, v, C(f))
        if k == "BT_INLET_FLOW" or k == "BT_WALL_NO_SLIP":
            s.call(g.sol, "setBoundaryVelocity", v, s.enum("EBoundaryType", k), *[V("%s_%d" % (m, g.fid.index(f))) for m in ("m_uf", "m_vf", "m_wf")])
        else:
            s.call(g.sol, "setBoundaryPressure", v, s.enum("EBoundaryType", k), V("m_pf_%d" % g.fid.index(f)))
    return kind


def models_push(s, ref, v):
    n = s.I.size_of(s.st, ref.loc)
    s.st.setk(ref.loc[0], ref.loc[1] + (("#", n),), v)
    s.st.setk(ref.loc[0], ref.loc[1] + ("@size",), n + ONE)


def piso_momentum(ctx, shape, ids, pattern, steady=False):
    key = "momentum:%s:%s%s" % (tag(shape, ids), "".join("+" if p > 0 else "-" for p in pattern), ":steady" if steady else "")

    def go():
        g = G(ctx, "CFvmPisoSolver", shape, ids)
        s = g.s
        where = s.where("CFvmPisoSolver", "calculateVelocityField")
        s.call(g.sol, "setGravity", V("gx"), V("gy"), V("gz"))
        s.call(g.sol, "setMaterialProperties", V("r"), V("m"))
        for nm, v in (("m_dens", "r"), ("m_visc", "m")):
            judge(ctx, key + ":set:" + nm, [(c, g.get(nm, c), V(v)) for c in g.cid], s.where("CFvmPisoSolver", "setMaterialProperties"), "material of the cell")
        g.state(CELLS + ("m_dens", "m_visc"), FACES_)
        signs(g, pattern)
        if steady:
            s.call(g.sol, "setTimeInterval", ZERO)
        else:
            pos("dt")
            s.call(g.sol, "setTimeInterval", V("dt"))
        for nm, v, vf in (("gradu", "m_u", "m_uf"), ("gradv", "m_v", "m_vf"), ("gradw", "m_w", "m_wf"), ("gradp", "m_p", "m_pf")):
            for c in g.cid:
                judge(ctx, key + ":" + nm, [(k, x, y) for k, (x, y) in enumerate(zip(s.vec(s.call(g.sol, nm, C(c))), green_gauss(g, c, v, vf)))], s.where("CFvmPisoSolver", "gradient"), "face values times outward area over volume")
        s.call(g.sol, "calculateVelocityField")
        L = g.calls()
        ctx.ob(key + ":solved", len(L) == 3, where, "%d systems solved" % len(L))
        n = len(g.cid)
        K, B = {}, [{}, {}, {}]
        gv = [V("gx"), V("gy"), V("gz")]
        gp = {}
        for c, cell in g.cells.items():
            p = g.row[c]
            vol = cell["vol"]
            gp[c] = green_gauss(g, c, "m_p", "m_pf")
            for k in range(3):
                B[k][p] = g.c("m_dens", c) * gv[k] - gp[c][k]
            for f in cell["faces"]:
                F_ = g.flux(f["id"]).scale(f["sg"]) / vol
                if f["nb"] is not None:
                    q = g.row[f["nb"]]
                    a = lambda nm: (g.c(nm, c) + g.c(nm, f["nb"])) * H
                    k = a("m_visc") * f["A"] / f["dd"] / vol
                    add(K, p, p, k + a("m_dens") * F_ * H)
                    add(K, p, q, -k + a("m_dens") * F_ * H)
                else:
                    k = g.c("m_visc", c) * f["A"] / f["d"] / vol
                    add(K, p, p, k)
                    for d, nm in enumerate(("m_uf", "m_vf", "m_wf")):
                        B[d][p] = B[d][p] + (k - g.c("m_dens", c) * F_) * g.f(nm, f["id"])
            if not steady:
                m = g.c("m_dens", c) / V("dt")
                add(K, p, p, m)
                for d, nm in enumerate(("m_u0", "m_v0", "m_w0")):
                    B[d][p] = B[d][p] + m * g.c(nm, c)
        for d, (A, b, t) in enumerate(L[:3]):
            if d == 0:
                judge(ctx, key + ":matrix", rows(A, K, n), where, "diffusion, central transport and inertia per volume")
            else:
                judge(ctx, key + ":same-matrix", [((i, j), A.e[(i, j)], L[0][0].e[(i, j)]) for i in range(n) for j in range(n)], where, "all components share the matrix")
            judge(ctx, key + ":rhs:" + "uvw"[d], [(i, b.e[(i, 0)], B[d][i]) for i in range(n)], where, "gravity, pressure gradient, boundary values and previous velocity")
        for d, nm in enumerate(("m_Hu", "m_Hv", "m_Hw")):
            w = []
            for c in g.cid:
                p = g.row[c]
                h = B[d][p] + gp[c][d]
                for q in range(n):
                    if q != p:
                        h = h - K.get((p, q), ZERO) * V("sol%d_%d" % (d + 1, q))
                w.append((c, g.get(nm, c), h))
            judge(ctx, key + ":" + nm[2:], w, where, "right-hand side without the pressure gradient minus the off-diagonal part of the cell's own row")
        judge(ctx, key + ":diagonal", [(c, g.get("m_ap", c), K[(g.row[c], g.row[c])]) for c in g.cid], where, "diagonal coefficient of the cell")
        ctx.count("systems")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def piso_pressure(ctx, shape, ids, types):
    key = "pressure:%s:%s" % (tag(shape, ids), "-".join(t[3:].lower().split("_")[-1] for t in types))

    def go():
        g = G(ctx, "CFvmPisoSolver", shape, ids)
        s = g.s
        where = s.where("CFvmPisoSolver", "calculatePressureField")
        wflux = s.where("CFvmPisoSolver", "correctFlux")
        s.call(g.sol, "setMaterialProperties", V("r"), V("m"))
        g.state(CELLS + ("m_Hu", "m_Hv", "m_Hw"), FACES_ + ("m_flux",))
        for i, c in enumerate(g.cid):
            g.put("m_ap", c, pos("m_ap_%d" % i)[0])
        kind = btype(g, types)
        for f in g.fid:
            for nm in FACES_:
                g.put(nm, f, g.f(nm, f))
        s.call(g.sol, "calculatePressureField")
        L = g.calls()
        ctx.ob(key + ":solved", len(L) == 1, where, "%d systems solved" % len(L))
        A, b, t = L[0]
        n = len(g.cid)
        K, B = {}, [ZERO] * n
        out = {}
        for c, cell in g.cells.items():
            p = g.row[c]
            for f in cell["faces"]:
                nb = f["nb"]
                a = (lambda nm: (g.c(nm, c) + g.c(nm, nb)) * H) if nb is not None else (lambda nm: g.c(nm, c))
                ap = a("m_ap")
                dd = f["dd"] if nb is not None else f["d"]
                k = f["A"] / (ap * dd)
                h = (a("m_Hu") * f["n"][0] + a("m_Hv") * f["n"][1] + a("m_Hw") * f["n"][2]) / ap * f["A"]
                P_ = V("sol1_%d" % p)
                if nb is not None:
                    q = g.row[nb]
                    add(K, p, p, -k)
                    add(K, p, q, k)
                    B[p] = B[p] + h
                    out[(c, f["id"])] = h - k * (V("sol1_%d" % q) - P_)
                    continue
                ty = kind[f["id"]]
                if ty == "BT_WALL_NO_SLIP":
                    out[(c, f["id"])] = ZERO
                elif ty == "BT_INLET_FLOW":
                    o = (g.f("m_uf", f["id"]) * f["n"][0] + g.f("m_vf", f["id"]) * f["n"][1] + g.f("m_wf", f["id"]) * f["n"][2]) * f["A"]
                    B[p] = B[p] + o
                    out[(c, f["id"])] = o
                else:
                    pf = g.f("m_pf", f["id"]) if ty == "BT_INLET_PRESSURE" else ZERO
                    add(K, p, p, -k)
                    B[p] = B[p] + h - k * pf
                    out[(c, f["id"])] = h - k * (pf - P_)
        judge(ctx, key + ":matrix", rows(A, K, n), where, "area over distance and diagonal between cells and to prescribed pressures")
        judge(ctx, key + ":rhs", [(i, b.e[(i, 0)], B[i]) for i in range(n)], where, "outward flux without pressure gradient")
        judge(ctx, key + ":stored", [(c, s.num(s.call(g.sol, "p", C(c))), V("sol1_%d" % g.row[c])) for c in g.cid], where, "pressure of the cell")
        w = []
        for f in g.bfaces:
            if kind[f] in ("BT_INLET_PRESSURE", "BT_OUTLET"):
                c = g.owner[f]
                q = [h for h in g.cells[c]["faces"] if h["id"] == f][0]
                o = sum((g.c("m_H" + nm, c) * q["n"][d] for d, nm in enumerate("uvw")), ZERO) / g.c("m_ap", c)
                w += [(nm, s.num(s.call(g.sol, nm, C(f))), o * q["n"][d]) for d, nm in enumerate(("uf", "vf", "wf"))]
        if w:
            judge(ctx, key + ":open", w, where, "velocity of a face with prescribed pressure is along its normal and carries the predicted flux")
        s.call(g.sol, "correctFlux")
        fl = {f: s.num(s.call(g.sol, "flux", C(f))) for f in g.fid}
        judge(ctx, key + ":flux", [((c, f["id"]), fl[f["id"]].scale(f["sg"]), out[(c, f["id"])]) for c, cell in g.cells.items() for f in cell["faces"] if f["nb"] is None or f["sg"] > 0], wflux, "flux out of the owner")
        for c, cell in g.cells.items():
            p = g.row[c]
            net = ZERO
            for f in cell["faces"]:
                net = net + fl[f["id"]].scale(f["sg"])
            res = b.e[(p, 0)]
            for q in range(n):
                res = res - A.e[(p, q)] * V("sol1_%d" % q)
            judge(ctx, key + ":continuity", [(c, net, res)], wflux, "net outward flux of a cell against the residual of its pressure equation")
            judge(ctx, key + ":mass", [(c, s.num(s.call(g.sol, "checkMassConservationCell", C(c))), net)], s.where("CFvmPisoSolver", "checkMassConservationCell"), "reported imbalance of a cell")
        w = []
        for f in g.bfaces:
            c = g.owner[f]
            want = {"BT_WALL_NO_SLIP": V("sol1_%d" % g.row[c]), "BT_INLET_FLOW": V("sol1_%d" % g.row[c]), "BT_INLET_PRESSURE": g.f("m_pf", f), "BT_OUTLET": ZERO}[kind[f]]
            w.append((f, s.num(s.call(g.sol, "pf", C(f))), want))
            for d, nm in enumerate(("uf", "vf", "wf")):
                if kind[f] in ("BT_WALL_NO_SLIP", "BT_INLET_FLOW"):
                    w.append((nm, s.num(s.call(g.sol, nm, C(f))), g.f("m_" + nm, f)))
        judge(ctx, key + ":faces", w, wflux, "pressure and prescribed velocity of boundary faces")
        g.state(("m_p",), FACES_)
        s.call(g.sol, "correctVelocityField")
        for d, (nm, h) in enumerate((("u", "m_Hu"), ("v", "m_Hv"), ("w", "m_Hw"))):
            judge(ctx, key + ":corrected:" + nm, [(c, s.num(s.call(g.sol, nm, C(c))), (g.c(h, c) - green_gauss(g, c, "m_p", "m_pf")[d]) / g.c("m_ap", c)) for c in g.cid], s.where("CFvmPisoSolver", "correctVelocityField"), "corrected velocity")
        ctx.count("systems")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def piso_rest(ctx, cls):
    key = "bookkeeping:" + cls

    def go():
        g = G(ctx, cls)
        s = g.s
        extra = {"CFvmTemperatureSolver": ("T", "m_T"), "CFvmVofSolver": ("s", "m_s")}.get(cls)
        pairs = [("m_u", "m_u0"), ("m_v", "m_v0"), ("m_w", "m_w0"), ("m_p", "m_p0")] + ([(extra[1], extra[1] + "0")] if extra else [])
        judge(ctx, key + ":start", [(nm, g.get(nm, c), ZERO) for pr in pairs for nm in pr for c in g.cid] + [(nm, g.get(nm, f), ZERO) for nm in FACES_ + ("m_flux",) + (("m_sf",) if cls == "CFvmVofSolver" else ()) for f in g.fid], s.where("CFvmPisoSolver", "CFvmPisoSolver"), "starts from rest")
        g.state([x for p in pairs for x in p], FACES_)
        n = len(pairs)
        outs = [s.tmp("r%d" % i, "double") for i in range(n)]
        s.call(g.sol, "residual", *outs)
        for (a, b), o in zip(pairs, outs):
            t = ZERO
            for c in g.cid:
                t = t + (g.c(a, c) - g.c(b, c)) * (g.c(a, c) - g.c(b, c))
            judge(ctx, key + ":residual:" + a[2:], [("residual", s.num(o), t)], s.where(cls, "residual"), "squared change since the stored step, over all cells")
        s.call(g.sol, "storePreviousQuantities")
        for a, b in pairs:
            judge(ctx, key + ":store:" + a[2:], [(c, g.get(b, c), g.c(a, c)) for c in g.cid] + [(c, g.get(a, c), g.c(a, c)) for c in g.cid], s.where(cls, "storePreviousQuantities"), "previous value of the cell")
        if cls == "CFvmPisoSolver":
            net = [ZERO, ZERO]
            for f in g.fid:
                o = pos("flux_%d" % f)[0].scale(1 if g.owner[f] == g.cid[0] else -1)
                g.put("m_flux", f, o)
                for i, c in enumerate(g.cid):
                    for q in g.cells[c]["faces"]:
                        if q["id"] == f:
                            net[i] = net[i] + o.scale(q["sg"])
            if g.owner[g.ifaces[0]] == g.cid[0]:
                err = s.tmp("err", "double")
                s.st.setk(err.loc[0], err.loc[1], V("unset"))
                s.call(g.sol, "checkMassConservation", err)
                judge(ctx, key + ":imbalance", [("error", s.num(err), (net[0] - net[1]) * H)], s.where(cls, "checkMassConservation"), "mean magnitude of the net outward flux of the cells")
                judge(ctx, key + ":imbalance-cells", [(c, s.num(s.call(g.sol, "massError", C(c))), net[i]) for i, c in enumerate(g.cid)], s.where(cls, "checkMassConservation"), "net outward flux of the cell")
            g.put("m_p", g.cid[1], V("m_p_0") + pos("rise")[0])
            g.c = lambda nm, c, old=g.c: old("m_p", g.cid[0]) + V("rise") if nm == "m_p" and c == g.cid[1] else old(nm, c)
            s.call(g.sol, "correctPressureField")
            judge(ctx, key + ":reference", [(c, g.get("m_p", c), g.c("m_p", c) - V("m_p_0")) for c in g.cid] + [(f, g.get("m_pf", f), g.f("m_pf", f) - V("m_p_0")) for f in g.fid], s.where(cls, "correctPressureField"), "lowest cell pressure becomes zero and faces shift along")
            for ty in ("BT_INLET_PRESSURE", "BT_OUTLET"):
                v = s.vector("int")
                models_push(s, v, C(g.bfaces[-1]))
                s.call(g.sol, "setBoundaryPressure", v, s.enum("EBoundaryType", ty), V("pb"))
                g.put("m_p", g.cid[0], V("q"))
                g.put("m_p", g.cid[1], V("q") + V("rise"))
                s.call(g.sol, "correctPressureField")
                judge(ctx, key + ":level:" + ty, [(c, g.get("m_p", c), V("q") + (V("rise") if i else ZERO)) for i, c in enumerate(g.cid)] + [("pf", g.get("m_pf", g.bfaces[-1]), V("pb"))], s.where(cls, "correctPressureField"), "a prescribed pressure level stays")
        elif cls == "CFvmTemperatureSolver":
            v = s.vector("int")
            for f in g.bfaces[:2]:
                models_push(s, v, C(f))
            s.call(g.sol, "setBoundaryTemperature", v, s.enum("EBoundaryType", "BT_INLET_FLOW"), V("Tb"))
            judge(ctx, key + ":boundary", [(f, s.num(s.call(g.sol, "Tf", C(f))), V("Tb") if f in g.bfaces[:2] else ZERO) for f in g.fid], s.where(cls, "setBoundaryTemperature"), "prescribed face temperature")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def vof(ctx, shape, ids, pattern):
    key = "gamma:%s:%s" % (tag(shape, ids), "".join("+" if p > 0 else "-" for p in pattern))

    def go():
        g = G(ctx, "CFvmVofSolver", shape, ids)
        s = g.s
        where = s.where("CFvmVofSolver", "calculateGammaField")
        for i, c in enumerate(g.cid):
            s.call(g.sol, "setInitialGamma", C(c), V("m_s_%d" % i))
        judge(ctx, key + ":initial", [(c, s.num(s.call(g.sol, "s", C(c))), g.c("m_s", c)) for c in g.cid], s.where("CFvmVofSolver", "setInitialGamma"), "initial fraction of the cell")
        s.call(g.sol, "setMaterialProperties", V("r0"), V("v0"), V("r1"), V("v1"))
        w = []
        for c in g.cid:
            f = g.c("m_s", c)
            w += [("density", g.get("m_dens", c), V("r0") + (V("r1") - V("r0")) * f), ("viscosity", g.get("m_visc", c), V("v0") + (V("v1") - V("v0")) * f)]
        judge(ctx, key + ":mixture", w, s.where("CFvmVofSolver", "updateProperties"), "mixture of the two fluids by volume fraction")
        for i, f in enumerate(g.bfaces):
            s.call(g.sol, "setBoundaryGamma", C(f), s.enum("EBoundaryType", "BT_INLET_FLOW"), g.f("m_sf", f))
        judge(ctx, key + ":boundary", [(f, s.num(s.call(g.sol, "sf", C(f))), g.f("m_sf", f)) for f in g.bfaces], s.where("CFvmVofSolver", "setBoundaryGamma"), "prescribed fraction of the face")
        g.state(("m_s0",), ("m_betaf",))
        sg = signs(g, pattern)
        pos("dt")
        s.call(g.sol, "setTimeInterval", V("dt"))
        s.call(g.sol, "calculateGammaField")
        L = g.calls()
        A, b, t = L[0]
        n = len(g.cid)
        ctx.ob(key + ":solved", len(L) == 1, where, "%d systems solved" % len(L))
        K, B = {}, [ZERO] * n
        for c, cell in g.cells.items():
            p = g.row[c]
            m = cell["vol"] / V("dt")
            add(K, p, p, m)
            B[p] = B[p] + m * g.c("m_s0", c)
            for f in cell["faces"]:
                F_ = g.flux(f["id"]).scale(f["sg"])
                if f["nb"] is None:
                    B[p] = B[p] - F_ * g.f("m_sf", f["id"])
                    continue
                q = g.row[f["nb"]]
                neg = sg[f["id"]] * f["sg"] < 0
                be = g.f("m_betaf", f["id"]) if neg else ONE - g.f("m_betaf", f["id"])
                add(K, p, p, (ONE - be) * F_ * H)
                add(K, p, q, be * F_ * H)
                B[p] = B[p] - ((ONE - be) * g.c("m_s", c) + be * g.c("m_s", f["nb"])) * F_ * H
        judge(ctx, key + ":matrix", rows(A, K, n), where, "time derivative and half the new face value times the flux")
        judge(ctx, key + ":rhs", [(i, b.e[(i, 0)], B[i]) for i in range(n)], where, "previous fraction, half the old face value and prescribed inflow")
        ex = [("column %d" % q, sum((A.e[(p, q)] for p in range(n)), ZERO), g.cells[g.cid[q]]["vol"] / V("dt")) for q in range(n)]
        judge(ctx, key + ":conserved", ex, where, "what leaves one cell through a shared face enters the other")
        clamp = lambda v: fold("min", [fold("max", [v, ZERO]), ONE])
        judge(ctx, key + ":bounded", [(c, s.num(s.call(g.sol, "s", C(c))), clamp(V("sol1_%d" % g.row[c]))) for c in g.cid], where, "new fraction, kept between zero and one")
        ctx.count("systems")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def order(ctx, cls, names):
    """a step performs its sub-steps in order"""
    key = "step:" + cls

    def go():
        g = G(ctx, cls)
        s = g.s
        seen = []
        for nm in set(names):
            hit = [f for c in [s.cname(cls)] + list(s.p.allbases(s.cname(cls))) for f in s.p.bycls.get(c, []) if f["name"].split("::")[-1] == nm and "body" in f]
            if not hit:
                raise Unk("no function " + nm)
            for f in hit:
                q = f["name"]

                def hook(I, fn, this, a, st, line, nm=nm):
                    seen.append((nm, [I.k(I.rv(x, st)) for x in a]))
                    return absint.VOID
                s.I.hooks[s.p.short(q)] = hook
        s.call(g.sol, "iterate", V("dt"), FALSE)
        got = [n for n, a in seen]
        ctx.ob(key + ":order", got == list(names), s.where(cls, "iterate"), "sub-steps are %s, expected %s" % (got, list(names)))
        ctx.ob(key + ":interval", g.s.num(Ref(g.member("m_dt"), "double")) == V("dt"), s.where(cls, "iterate"), "time interval of the step")
    attempt(ctx, key, key, go)


def check(ctx):
    J = []
    for shape, ids in SHAPES:
        for pattern in ((1, 1, -1), (-1, 1)):
            J.append((piso_momentum, (shape, ids, pattern)))
        for types in (("BT_WALL_NO_SLIP",), ("BT_INLET_FLOW", "BT_OUTLET", "BT_WALL_NO_SLIP"), ("BT_INLET_PRESSURE", "BT_WALL_NO_SLIP", "BT_OUTLET")):
            J.append((piso_pressure, (shape, ids, types)))
        for pattern in ((1, 1, -1), (-1, 1), (1,), (-1,)):
            J.append((temperature, (shape, ids, pattern)))
            if pattern != (-1, 1):
                J.append((vof, (shape, ids, pattern)))
    J.append((temperature, ("hexahedron", None, (1, -1, -1), True)))
    J.append((piso_momentum, ("hexahedron", None, (1,), True)))
    for cls in ("CFvmPisoSolver", "CFvmTemperatureSolver", "CFvmVofSolver"):
        J.append((piso_rest, (cls,)))
    P5 = ("storePreviousQuantities", "calculateVelocityField", "calculatePressureField", "correctFlux", "correctVelocityField", "correctPressureField")
    J.append((order, ("CFvmPisoSolver", P5)))
    J.append((order, ("CFvmTemperatureSolver", P5 + ("calculateTemperatureField",))))
    parallel(ctx, J)
