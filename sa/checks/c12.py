"""The smoothing kernels are interpreted abstractly at a displacement of symbolic length: each is a piecewise
closed form in q = |r|/h whose exact moments, one-sided limits and derivative are computed on the normal form.
One step of the particle solver is interpreted on three particles with symbolic positions and values."""
from checks.meshutil import *
from checks.c08 import attempt, world, pos
from checks.femutil import judge, same, precise
from fractions import Fraction as Fr
import alg
import pw
import absint
from scn import Unk
from ir import Broken

MIN = 40
KERNELS = {"CSphCubicSpline": True, "CSphConvex": True, "CSphQuintic": True, "CSphSpiky": True, "CSphGaussian": False}
DIRS = ([1, 0, 0], [Fr(3, 5), 0, Fr(4, 5)], [Fr(2, 3), -Fr(2, 3), Fr(1, 3)])


def at(p, name, value):
    i = alg.atom_id(("sym", name))
    return p.subst(lambda a: value if a == i else None)


def powers(p, name):
    """p as a polynomial in one symbol: {exponent: coefficient}; None when the symbol occurs elsewhere"""
    i = alg.atom_id(("sym", name))
    r = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(i, 0)
        x = alg._reduce(tuple(sorted(d.items())), c)
        if i in x.deep_atoms():
            return None
        r[e] = r.get(e, ZERO) + x
    return r


def expand(p):
    """q-dependence made polynomial: integer powers and composite factors multiplied out"""
    def f(a):
        k = alg.atom_key(a)
        if k[0] == "fn" and k[1] == "pow" and k[3].is_const() and k[3].cval() == int(k[3].cval()) and 0 <= k[3].cval() <= 12:
            return expand(k[2]).pow(int(k[3].cval()))
        return None
    return p.subst(f)


def derive(p, name):
    """derivative of a closed form in one symbol (polynomials, exp and real powers of such)"""
    i = alg.atom_id(("sym", name))
    r = ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            rest = m[:k] + m[k + 1:]
            key = alg.atom_key(a)
            if a == i:
                d = ONE
            elif i not in P.atom(key).deep_atoms():
                continue
            elif key[0] == "P":
                d = derive(key[1], name)
            elif key[0] == "fn" and key[1] == "exp":
                d = derive(key[2], name) * P.atom(key)
            elif key[0] == "fn" and key[1] == "pow" and i not in key[3].deep_atoms():
                d = key[3] * alg.fn("pow", key[2], key[3] - ONE) * derive(key[2], name)
            else:
                raise Unk("derivative of %s" % alg.show(P.atom(key))[:60])
            r = r + alg._reduce(rest, c) * P.atom(key).pow(e - 1).scale(e) * d
    return r


def moment(p, name, n, lo, hi):
    """integral of q**n p over [lo, hi] (hi None: infinity, Gaussian forms only)"""
    pp = powers(expand(p), name)
    if pp is not None and hi is not None:
        r = ZERO
        for e, c in pp.items():
            if e + n + 1 <= 0:
                raise Unk("negative power")
            r = r + c.scale((hi ** (e + n + 1) - lo ** (e + n + 1)) / Fr(e + n + 1))
        return r
    raise Unk("not a polynomial in q")


def numeric(p, name, n, lo, hi):
    """quadrature of the extracted closed form; used only to refute"""
    import random
    if hi is None:
        hi = lo + 20
    i = alg.atom_id(("sym", name))
    rng = random.Random(5)
    base = {}
    for a in sorted(p.deep_atoms()):
        k = alg.atom_key(a)
        if k[0] == "sym" and a != i:
            base[a] = rng.uniform(0.5, 2)
    N = 4000
    tot = 0.0
    for k in range(N):
        x = float(lo) + (k + 0.5) * float(hi - lo) / N
        d = dict(base)
        d[i] = x
        tot += x ** n * pw.Ev(rng, False, d).ev(p)
    return tot * float(hi - lo) / N


def unit(ctx, key, PW, n, hd, where, dim):
    try:
        tot = ZERO
        for lo, hi, f in PW[:-1]:
            tot = tot + moment(f * hd, "q", n[0], lo, hi)
        return judge(ctx, key, [("integral", tot * n[1], ONE)], where, "integral over the support in %d dimensions" % dim)
    except Unk:
        pass
    try:
        tot = sum(numeric(f * hd * n[1], "q", n[0], lo, hi) for lo, hi, f in PW[:-1])
    except (pw.Opaque, pw.Skip, ZeroDivisionError, ValueError, OverflowError) as e:
        return ctx.ob(key, None, where, "no closed integral: %s" % e)
    ctx.ob(key, False if abs(tot - 1) > 1e-3 else None, where, "the integral over the support in %d dimensions is about %.4f" % (dim, tot))


def refute(f, g, l, dim, gaussian):
    """points of the extracted closed forms that contradict the definition, found by evaluation: used only when
    the forms are not piecewise in q alone"""
    import random
    q, h = V("q"), V("h")
    qi, hi = alg.atom_id(("sym", "q")), alg.atom_id(("sym", "h"))
    out = []
    for hv in (0.7, 1.0, 1.9):
        def ev(p, x):
            return pw.Ev(random.Random(3), False, {qi: x, hi: hv}).ev(p)
        sf = {1: lambda x: 2.0, 2: lambda x: 2 * 3.141592653589793 * x, 3: lambda x: 4 * 3.141592653589793 * x * x}[dim]
        N = 3000
        tot = sum(sf((k + .5) * 12 / N) * ev(f, (k + .5) * 12 / N) for k in range(N)) * 12 / N * hv ** dim
        if abs(tot - 1) > (1e-2 if gaussian else 2e-3):
            out.append(("unit", "the integral over the support in %d dimensions is about %.4f for h = %s" % (dim, tot, hv)))
        if not gaussian and abs(ev(f, 15.0)) > 1e-9:
            out.append(("support", "the kernel is %.3g at fifteen smoothing lengths" % ev(f, 15.0)))
        for x in (0.23, 0.61, 1.37, 1.83, 2.45):
            d = (ev(f, x + 1e-5) - ev(f, x - 1e-5)) / 2e-5
            sc = 1 + abs(d) * hv
            if g is not None and abs(ev(g, x) + hv * d) > 1e-3 * sc:
                out.append(("gradient", "at q = %s, h = %s the gradient is %.5g, the derivative gives %.5g" % (x, hv, ev(g, x), -hv * d)))
            if l is not None:
                want = hv * (dim * ev(f, x) - x * d)
                if abs(ev(l, x) - want) > 1e-3 * (1 + abs(want)):
                    out.append(("laplacian", "at q = %s, h = %s the Laplacian weight is %.5g instead of %.5g" % (x, hv, ev(l, x), want)))
    return out


def fallback(ctx, key, f, what, where, dim, gaussian, g=None, l=None):
    try:
        bad = refute(f, g, l, dim, gaussian)
    except (pw.Opaque, pw.Skip, ZeroDivisionError, ValueError, OverflowError) as e:
        return ctx.ob(key + ":" + what[0], None, where, "not piecewise in q: %s" % e)
    for n in what:
        x = [m for k, m in bad if k == n]
        ctx.ob(key + ":" + n, False if x else None, where, x[0] if x else "not piecewise in q")


def linear(p):
    try:
        pieces(p, "q")
        return True
    except Unk:
        return False


def pieces(p, name, more=()):
    """[(lo, hi, closed form)] of a gated form in one positive symbol; hi None for the last"""
    out = []
    pw.guards(p, out, set())
    cuts = {Fr(0)} | set(more)
    for g in out:
        g = powers(expand(g), name)
        if g is None or any(not c.is_const() for c in g.values()) or set(g) - {0, 1}:
            raise Unk("a guard is not linear in q")
        if g.get(1, ZERO).t:
            z = -Fr(g.get(0, ZERO).cval()) / Fr(g[1].cval())
            if z > 0:
                cuts.add(z)
    cuts = sorted(cuts)
    r = []
    q = V(name)
    for i, lo in enumerate(cuts):
        hi = cuts[i + 1] if i + 1 < len(cuts) else None
        F = pw.Facts().add(q - C(lo), 1)
        if hi is not None:
            F = F.add(q - C(hi), -1)
            for c in cuts:
                F = F.add(q - C(c), 1 if c <= lo else -1) if c else F
        else:
            for c in cuts:
                F = F.add(q - C(c), 1) if c else F
        v = pw.resolve(p, F, {})
        left = []
        pw.guards(v, left, set())
        if left:
            raise Unk("a guard stays undecided for q in (%s, %s)" % (lo, hi))
        r.append((lo, hi, v))
    return r


def kernel(ctx, cls, dim):
    key = "%s:%d" % (cls[4:].lower(), dim)
    w = world(ctx)
    s = w.s
    q, h = pos("q", "h")
    qi = alg.atom_id(("sym", "q"))
    wW, wG, wL = (s.where(cls, n) for n in ("W", "gradientW", "laplacianW"))
    got = {}

    def fresh():
        return s.new(cls, C(dim))

    def r(d):
        return s.xyz("CGeoVector", *[q * h * C(x) for x in d])

    def W(d):
        return s.num(s.call(fresh(), "W", r(d), h))

    def L(d):
        return s.num(s.call(fresh(), "laplacianW", r(d), h))

    def form(p):
        if not precise(p):
            raise Unk("not a closed form of q")
        return p

    def value():
        f = form(W(DIRS[0]))
        got["W"] = f
        try:
            cuts = {lo for lo, _, _ in pieces(f, "q")}
            PW = pieces(f, "q", cuts)
        except Unk:
            return fallback(ctx, key, f, ("unit", "support"), wW, dim, not KERNELS[cls])
        got["PW"] = PW
        got["cuts"] = cuts
        ctx.ob(key + ":support", not PW[-1][2].t, wW, "the kernel does not vanish beyond the last of its breakpoints %s" % [str(c) for c in sorted(cuts)])
        n = {1: (0, C(2)), 2: (1, pi(s).scale(2)), 3: (2, pi(s).scale(4))}[dim]
        hd = h.pow(dim)
        if KERNELS[cls]:
            unit(ctx, key + ":unit", PW, n, hd, wW, dim)
            for (a, b, f), (_, _, g) in zip(PW, PW[1:]):
                judge(ctx, key + ":continuous", [("q=%s" % b, at(f, "q", C(b)), at(g, "q", C(b)))], wW, "limits from both sides")
            return
        # the untruncated Gaussian: c exp(-q q)
        f = PW[0][2]
        e = alg.atom_id(("fn", "exp", -q * q))
        if len(f.t) == 1 and any(a == e for a, _ in list(f.t)[0]):
            c = f.subst(lambda a: ONE if a == e else None)
            if qi in c.deep_atoms():
                raise Unk("not a Gaussian")
            sp = alg.fn("sqrt", pi(s))
            M = {1: sp.scale(Fr(1, 2)), 2: C(Fr(1, 2)), 3: sp.scale(Fr(1, 4))}[dim]
            judge(ctx, key + ":unit", [("integral", c * hd * M * n[1], ONE)], wW, "integral of the Gaussian in %d dimensions" % dim)
        else:
            unit(ctx, key + ":unit", [(0, None, f), None] if len(PW) < 2 else [(lo, hi, f) for lo, hi, f in PW], n, hd, wW, dim)

    def radial():
        f = W(DIRS[0])
        judge(ctx, key + ":even", [("-r", s.num(s.call(fresh(), "W", s.xyz("CGeoVector", -q * h, ZERO, ZERO), h)), f)], wW, "value at the opposite displacement")
        for d in DIRS[1:]:
            judge(ctx, key + ":radial", [(str([str(x) for x in d]), W(d), f)], wW, "value along another direction")

    def laplacian():
        f, cuts = got.get("W"), got.get("cuts")
        l = form(L(DIRS[0]))
        if f is None:
            raise Unk("no closed form of W")
        for d in DIRS[1:]:
            judge(ctx, key + ":radial-laplacian", [(str([str(x) for x in d]), L(d), l)], wL, "value along another direction")
        try:
            cuts = cuts | {lo for lo, _, _ in pieces(l, "q")}
        except (Unk, TypeError):
            return fallback(ctx, key, f, ("laplacian",), wL, dim, not KERNELS[cls], l=l)
        for (lo, hi, f), (_, _, x) in zip(pieces(f, "q", cuts), pieces(l, "q", cuts)):
            want = h * (f.scale(dim) - q * derive(f, "q"))
            judge(ctx, key + ":laplacian", [("q in (%s, %s)" % (lo, hi), expand(x), expand(want))], wL, "weight of the Laplacian against dim W - q W'", sig=True)

    def gradient():
        W0 = got.get("W")
        if W0 is None:
            raise Unk("no closed form of W")
        for d in DIRS:
            for j, gj in enumerate(s.vec(s.call(fresh(), "gradientW", r(d), h, ZERO))):
                form(gj)
                if "cuts" not in got or not linear(gj):
                    if d[j]:
                        fallback(ctx, key, W0, ("gradient",), wG, dim, not KERNELS[cls], g=gj.scale(1 / Fr(d[j])))
                    continue
                cuts = got["cuts"] | {lo for lo, _, _ in pieces(gj, "q")}
                for (lo, hi, f), (_, _, x) in zip(pieces(W0, "q", cuts), pieces(gj, "q", cuts)):
                    want = -h * derive(f, "q") * C(d[j])
                    judge(ctx, key + ":gradient", [("q in (%s, %s) component %d" % (lo, hi, j), expand(x), expand(want))], wG, "h squared times the derivative of W at the other particle", sig=True)

    def coincident():
        # a tolerance keeps the gradient of a coincident pair finite
        t = V("t")
        alg.POSITIVE.add(alg.atom_id(("sym", "t")))
        s.assume(absint.compare("<", t, C(Fr(1, 10))))
        g0 = s.vec(s.call(fresh(), "gradientW", s.xyz("CGeoVector", ZERO, ZERO, ZERO), h, t))
        judge(ctx, key + ":coincident", [(j, x, ZERO) for j, x in enumerate(g0)], wG, "gradient at zero distance with a tolerance")
        s.I.facts = pw.Facts()
        # away from the tolerance it makes no difference
        a = s.vec(s.call(fresh(), "gradientW", r(DIRS[2]), h, t))
        b = s.vec(s.call(fresh(), "gradientW", r(DIRS[2]), h, ZERO))
        big = [absint.compare("<", t, q), absint.compare("<", ZERO, t)]
        judge(ctx, key + ":tolerance", [(j, x, y) for j, (x, y) in enumerate(zip(a, b))], wG, "gradient of a pair farther apart than the tolerance", facts=big)

    def dimension():
        # the dimension set later counts
        z = s.new(cls)
        for dd in (3, 1, 2):
            if dd != dim:
                s.call(z, "setDimension", C(dd))
                s.call(z, "W", r(DIRS[0]), h)
        s.call(z, "setDimension", C(dim))
        s.I.facts = pw.Facts()
        judge(ctx, key + ":dimension", [("W", s.num(s.call(z, "W", r(DIRS[0]), h)), W(DIRS[0]))], wW, "value after setDimension")
        ctx.count("kernels")
        ctx.seen(s.I)
    for wh, f in ((wW, value), (wW, radial), (wL, laplacian), (wG, gradient), (wG, coincident), (wW, dimension)):
        attempt(ctx, key + ":" + f.__name__, wh, f)


def pi(s):
    return alg.fn("acos", C(-1))


def particles(ctx, cyclic):
    key = "particles" + ("-cyclic" if cyclic else "")

    def go():
        w = world(ctx)
        s = w.s
        I = s.I
        store = {}

        def build(I, f, this, a, st, line):
            return VOID_

        def add(I, f, this, a, st, line):
            store.setdefault(this.loc, []).append((I.num(I.rv(a[0], st)), tuple(vec_in(s, a[1], st))))
            return VOID_

        def find(I, f, this, a, st, line):
            for k, x in reversed(store.get(this.loc, [])):
                push(s, a[0], k, st)
            return VOID_
        I.hooks["CGeoHashGrid<double>::build"] = build
        I.hooks["CGeoHashGrid<double>::find"] = find
        I.hooks["CGeoContainer<CGeoCoordinate<double>,double>::addGeometricObject"] = add

        k = s.new("CSphConvex", C(2))
        p = s.new("CSphParticles", k)
        where = s.where("CSphParticles", "solve")
        X = [[V("p%d%s" % (i, c)) for c in "xyz"] for i in range(3)]
        m = w.mesh(X, [])
        fld = w.field(m, "DM_SPH")
        mass, D, h, dt = [V(x) for x in ("mass", "diff", "h", "dt")]
        s.call(fld, "setFixedValue", C(1), V("g"))
        s.call(p, "init", fld, mass, D, h, dt, TRUE if cyclic else FALSE)
        vel = [V("v" + c) for c in "xyz"]
        s.call(p, "setInitialVelocity", fld, s.xyz("CGeoVector", *vel))
        lo, hi = [V("lo" + c) for c in "xyz"], [V("hi" + c) for c in "xyz"]
        if cyclic:
            s.call(p, "setBoundary", s.new("CGeoBoundingBox", *(lo + hi)))
            bb = s.new("CGeoBoundingBox", *(lo + hi))
            lo, hi = s.vec(s.call(bb, "min")), s.vec(s.call(bb, "max"))
        s.call(p, "solve", fld)

        def Wk(nm, a, b):
            return s.num(s.call(k, {"W": "W", "L": "laplacianW"}[nm], s.xyz("CGeoVector", *[y - x for x, y in zip(a, b)]), h))
        rho = [sum((mass * Wk("W", X[i], X[j]) for j in range(3)), ZERO) for i in range(3)]
        judge(ctx, key + ":density", [(i, s.num(s.call(p, "density", C(i))), rho[i]) for i in range(3)], where, "density from all particles in reach")
        Y = []
        for i in range(3):
            y = []
            for c in range(3):
                v = X[i][c] + vel[c] * dt
                if cyclic:
                    v = alg.ite(absint.compare("<=", hi[c], v), lo[c], alg.ite(absint.compare("<=", v, lo[c]), hi[c], v))
                y.append(v)
            Y.append(y)
        fm = s.call(fld, "mesh")
        got = [s.vec(s.call(fm, "node", C(NID[i]))) for i in range(3)]
        judge(ctx, key + ":move", [((i, c), got[i][c], Y[i][c]) for i in range(3) for c in range(3)], where, "position after a step")
        if not cyclic:
            u0 = [V("u%d" % i) for i in range(3)]
            alt = []
            for inplace in (True, False):
                u = list(u0)
                for i in range(3):
                    if i == 1:
                        u[i] = V("g")
                        continue
                    src = u if inplace else u0
                    u[i] = u0[i] + D * dt * sum(((src[j] - u0[i]) / rho[j] * Wk("L", Y[i], Y[j]) for j in range(3)), ZERO)
                alt.append(u)
            val = [s.num(s.call(fld, "value", C(i))) for i in range(3)]
            use = alt[1] if all(same(a, b) for a, b in zip(val, alt[1])) else alt[0]
            judge(ctx, key + ":diffusion", [(i, val[i], use[i]) for i in range(3)], where, "value after a step")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def check(ctx):
    ctx.rule("every kernel, in every dimension: vanishing beyond its support, integrating to one, continuous at its breakpoints, radial and even; the gradient is its derivative; the Laplacian weight is built from the same function and derivative")
    ctx.rule("a particle step: density from every particle in reach, positions moved along the velocity (wrapped when cyclic), values exchanged pairwise, prescribed values kept")
    for cls in KERNELS:
        for dim in (1, 2, 3):
            kernel(ctx, cls, dim)
    particles(ctx, False)
    particles(ctx, True)
