"""Symbolic (all sizes at once) analysis of the structured meshers: induction
variables give node ids and positions as polynomials in the grid indices, cell
connectivity is compared with the id polynomial at the cell's corners, and the
resulting corner patterns are judged combinatorially (tiling, orientation, conformity)."""
import itertools
from fractions import Fraction as Fr
from scn import Scn, SOFT, Unk, V
from fw import *
from checks.c01 import HEX

MIN = 40


def capture(ctx, setup, args, dims):
    s = Scn(ctx.prog)
    I = s.I
    nodes, els, log = [], [], []

    def hn(I, f, this, a, st, line):
        if I.record:
            I.record = False
            nodes.append((I.num(I.rv(a[0], st)), s.vec2(a[1], st), tuple(l[0] for l in I.loopctx), tuple(l[1] for l in I.loopctx), st.pc))
            I.record = True
            log.append("node")
        return absint.VOID

    def he(I, f, this, a, st, line):
        if I.record:
            I.record = False
            st2, s.st = s.st, st
            try:
                n = s.int(s.call(a[1], "nbNodeIds"))
                ids = [s.num(s.call(a[1], "nodeId", i)) for i in range(n)]
                et = s.int(s.call(a[1], "elementType"))
            finally:
                s.st = st2
                I.record = True
            els.append((I.num(I.rv(a[0], st)), ids, et, tuple(l[0] for l in I.loopctx), tuple(l[1] for l in I.loopctx), st.pc))
            log.append("element")
        return absint.VOID

    def hr(I, f, this, a, st, line):
        if I.record:
            log.append("reset")
        return NotImplemented
    I.hooks["CMshMesh<double>::addNode"] = hn
    I.hooks["CMshMesh<double>::addElement"] = he
    I.hooks["CMshMesh<double>::reset"] = hr

    def vec2(v, st):
        st2, s.st = s.st, st
        try:
            return s.vec(v)
        finally:
            s.st = st2
    s.vec2 = vec2
    m = s.new("CMshBasicMesher")
    g, extra, pc = setup(s)
    del nodes[:], els[:], log[:]
    s.st.pc = tuple(pc)
    f = s.find(s.cname("CMshBasicMesher"), "generate", [g] + [s.conv(a) for a in args + extra])
    I.call(f, m, [g] + [s.conv(a) for a in args + extra], s.st)
    ctx.seen(I, f)
    return s, m, f, nodes, els, log


def radix(trips, ks):
    """all mixed-radix numberings of the loop nest: polynomial -> order"""
    out = []
    for perm in itertools.permutations(range(len(ks))):
        p, w = ZERO, ONE
        for l in perm:
            p = p + P({((ks[l], 1),): 1}) * w
            w = w * trips[l]
        out.append(p)
    return out


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


ROT = []
for perm in itertools.permutations(range(3)):
    for sg in itertools.product((1, -1), repeat=3):
        m = [[sg[i] if perm[i] == j else 0 for j in range(3)] for i in range(3)]
        if det3(*m) == 1:
            ROT.append(m)


def rot(m, x):
    y = [sum(m[i][j] * (2 * x[j] - 1) for j in range(3)) for i in range(3)]
    return tuple((v + 1) // 2 for v in y)


def tiling(ctx, key, cells, dim, where):
    """cells: list of corner tuples (in {0,1}^dim)"""
    if len(cells) == 1 and len(cells[0]) == 2 ** dim:
        c = [tuple(x) + (0,) * (3 - dim) for x in cells[0]]
        if dim == 3:
            good = any([rot(m, h) for h in HEX] == c for m in ROT)
        elif dim == 2:
            q = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
            good = any(q[k:] + q[:k] == c for k in range(4))
        else:
            good = c == [(0, 0, 0), (1, 0, 0)]
        ctx.ob(key + ":cell-order", good, where, "cell corners %s are not listed in right-handed cell order" % (cells[0],))
        return
    # simplices
    full = Fr(1)
    vols = []
    for c in cells:
        if len(c) != dim + 1:
            ctx.ob(key + ":simplex", False, where, "cell %s is not a simplex" % (c,))
            return
        e = [sub(x, c[0]) for x in c[1:]]
        vols.append(Fr(e[0][0] * e[1][1] - e[0][1] * e[1][0], 2) if dim == 2 else Fr(det3(*e), 6))
    ctx.ob(key + ":positive", all(v != 0 for v in vols) and len({v > 0 for v in vols}) == 1, where, "sub-cells have mixed or zero orientation: signed sizes %s" % [str(v) for v in vols])
    ctx.ob(key + ":tiles", sum(abs(v) for v in vols) == full, where, "sub-cell sizes sum to %s of the cell" % sum(abs(v) for v in vols))
    cnt = {}
    for c in cells:
        for i in range(dim + 1):
            f = frozenset(c[:i] + c[i + 1:])
            cnt[f] = cnt.get(f, 0) + 1
    outer = {}
    bad = []
    for f, k in cnt.items():
        side = [(d, v) for d in range(dim) for v in (0, 1) if all(x[d] == v for x in f)]
        if side:
            if k != 1:
                bad.append(tuple(f))
            outer.setdefault(side[0], set()).add(f)
        elif k != 2:
            bad.append(tuple(f))
    ctx.ob(key + ":interior", not bad, where, "sub-cell faces not shared by exactly two sub-cells inside the cell: %s" % bad[:3])
    for d in range(dim):
        lo = outer.get((d, 0), set())
        hi = {frozenset(x[:d] + (0,) + x[d + 1:] for x in f) for f in outer.get((d, 1), set())}
        ctx.ob(key + ":conforming-%s" % "xyz"[d], lo == hi, where, "the split of the two opposite sides in direction %s differs, so neighbouring cells do not match" % "xyz"[d])


def grid(ctx, key, setup, dim, counts, pos, args, etypes, spac):
    try:
        s, m, f, nodes, els, log = capture(ctx, setup, args, dim)
    except SOFT as e:
        ctx.ob(key, None, "CMshBasicMesher::generate", str(e))
        return
    where = "%s CMshBasicMesher::generate[%s]" % (f["floc"], key)
    ctx.count("grid generators")
    if len(nodes) != 1 or len(nodes[0][2]) != dim or any(s.I.trips.get(l) is None for l in nodes[0][2]):
        ctx.ob(key + ":nodes", None, where, "node creation is not a %d-deep counted loop nest" % dim)
        return
    nid, xyz, lids, ks, _ = nodes[0]
    trips = [s.I.trips[l] for l in lids]
    if counts is None:
        counts = [t - ONE for t in reversed(trips)]
    ax = {}
    for d, n in enumerate(counts):
        for l in range(dim):
            if alg.eq(trips[l], n + ONE) and l not in ax.values() and d not in ax:
                ax[d] = l
    ok = len(ax) == dim
    ctx.ob(key + ":node-count", ok, where, "node loops run %s times, expected %s" % ([alg.show(t)[:40] for t in trips], [alg.show(n + ONE)[:40] for n in counts]))
    ctx.ob(key + ":node-ids", any(alg.eq(nid, r) for r in radix(trips, ks)), where, "node ids %s do not number the grid points contiguously from 0" % alg.show(nid)[:200])
    ctx.ob(key + ":reset-first", "reset" in log and log.index("reset") < log.index("node"), where, "a previous grid is not cleared before nodes are added")
    if not ok:
        return
    K = [P({((ks[ax[d]], 1),): 1}) for d in range(dim)]
    want = pos(s, K, counts)
    for c in range(3):
        ctx.ob(key + ":position-%s" % "xyz"[c], alg.eq(xyz[c], want[c]), where, "node position component %s is %s" % ("xyz"[c], alg.show(xyz[c])[:200]))
    # cells
    if not els or any(len(e[3]) != dim for e in els) or any(s.I.trips.get(l) is None for e in els for l in e[3]) or len({e[3] for e in els}) != 1:
        ctx.ob(key + ":cells", None, where, "cell creation is not a %d-deep counted loop nest" % dim)
        return
    elids, eks = els[0][3], els[0][4]
    et = [s.I.trips[l] for l in elids]
    eax = {}
    for d, n in enumerate(counts):
        for l in range(dim):
            if alg.eq(et[l], n) and l not in eax.values() and d not in eax:
                eax[d] = l
    ok = len(eax) == dim
    ctx.ob(key + ":cell-count", ok, where, "cell loops run %s times, expected %s" % ([alg.show(t)[:40] for t in et], [alg.show(n)[:40] for n in counts]))
    if not ok:
        return
    mul = C(len(els))
    rad = radix(et, eks)
    okid = any(all(any(alg.eq(e[0], r * mul + C(i)) for e in els) for i in range(len(els))) for r in rad)
    ctx.ob(key + ":cell-ids", okid, where, "cell ids do not number the cells contiguously from 0: %s" % [alg.show(e[0])[:60] for e in els][:6])
    corner = {}
    for off in itertools.product((0, 1), repeat=dim):
        sb = {ks[ax[d]]: P({((eks[eax[d]], 1),): 1}) + C(off[d]) for d in range(dim)}
        corner[off] = nid.subst(lambda a: sb.get(a))
    cells = []
    bad = False
    for i, e in enumerate(els):
        c = []
        for j, n in enumerate(e[1]):
            o = next((o for o, q in corner.items() if alg.eq(q, n)), None)
            if o is None:
                bad = True
                ctx.ob(key + ":cell%d-node%d" % (i, j), False, where, "cell %d node %d is %s, not the id of one of the grid points at the cell's corners" % (i, j, alg.show(n)[:160]))
            c.append(o)
        cells.append(tuple(c))
        ctx.ob(key + ":cell%d-nodes" % i, None not in c and len(set(c)) == len(c), where, "cell %d refers to corners %s" % (i, c))
        ty = {v: k for k, v in ctx.prog.enums["EElementType"].items()}.get(e[2])
        ctx.ob(key + ":cell%d-type" % i, ty == etypes.get(len(c)), where, "cell with %d nodes is typed %s" % (len(c), ty))
        ctx.count("cells analysed")
    if not bad and all(len(set(c)) == len(c) for c in cells):
        tiling(ctx, key, cells, dim, where)
    mesh = s.call(m, "mesh")
    for d, want in enumerate(spac(s, counts)):
        got = s.num(s.call(mesh, ("dx", "dy", "dz")[d]))
        ctx.ob(key + ":spacing-%s" % "xyz"[d], alg.eq(got, want), where, "recorded spacing d%s is %s" % ("xyz"[d], alg.show(got)[:120]))


def check(ctx):
    ctx.rule("node id = mixed-radix number of its grid indices; node position = affine map of the grid indices; every cell's node ids equal that numbering at distinct corners of one grid cell; simplex splits tile the cell, are equally oriented and match across neighbouring cells")
    nu, nv, nw = V("nu"), V("nv"), V("nw")
    pos3 = (absint.compare(">", nu, ZERO), absint.compare(">", nv, ZERO), absint.compare(">", nw, ZERO))

    def pt(i):
        return [V("p%d%s" % (i, c)) for c in "xyz"]

    def mk(cls, n):
        def f(s):
            g = s.new(cls)
            for i in range(n):
                s.call(g, "addVertex", s.coord("p%d" % i))
            return g, [], pos3
        return f

    def line(s):
        g = s.new("CGeoLine", s.coord("p0"), s.coord("p1"))
        return g, [], pos3

    def affine(corners):
        def f(s, K, counts):
            p0 = pt(0)
            return [p0[c] + sum(((pt(corners[d])[c] - p0[c]) * K[d] / counts[d] for d in range(len(K))), ZERO) for c in range(3)]
        return f

    def spacing(corners):
        def f(s, counts):
            out = []
            for d, q in enumerate(corners):
                u = [pt(q)[c] - pt(0)[c] for c in range(3)]
                out.append(alg.fn("sqrt", u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / counts[d])
            return out
        return f
    T1 = {2: "ET_BEAM"}
    T2 = {3: "ET_TRIANGLE", 4: "ET_QUADRILATERAL"}
    T3 = {4: "ET_TETRAHEDRON", 8: "ET_HEXAHEDRON"}
    grid(ctx, "line", line, 1, [nu], affine([1]), [nu], T1, spacing([1]))
    for dec in (False, True):
        t = "simplex" if dec else "full"
        grid(ctx, "quadrilateral-" + t, mk("CGeoQuadrilateral", 4), 2, [nu, nv], affine([1, 3]), [nu, nv, dec], T2, spacing([1, 3]))
        grid(ctx, "hexahedron-" + t, mk("CGeoHexahedron", 8), 3, [nu, nv, nw], affine([1, 3, 4]), [nu, nv, nw, dec], T3, spacing([1, 3, 4]))

        def box(s):
            g = s.new("CGeoBoundingBox", V("lx"), V("ly"), V("lz"), V("hx"), V("hy"), V("hz"))
            return g, [], ()

        def boxpos(s, K, counts):
            h = V("h")
            out = []
            for d, c in enumerate("xyz"):
                w = V("h" + c) - V("l" + c)
                out.append(V("l" + c) + h * K[d] * w / alg.fn("sqrt", w * w))
            return out
        grid(ctx, "box-" + t, box, 3, None, boxpos, [V("h"), dec], T3, lambda s, c: [V("h")] * 3)
    ctx.need("grid generators", 7)
