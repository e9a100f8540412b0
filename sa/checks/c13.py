"""The analytical reference solutions are interpreted abstractly to closed forms whose derivatives, boundary
values and Fourier coefficients are computed exactly: they must satisfy the equation and the conditions they
are the solution of.  Scalar functions and materials: what was set is what is returned, and the root finders
are interpreted on a function with a symbolic root."""
from checks.meshutil import *
from checks.c08 import attempt, world, pos
from checks.femutil import judge, same, precise
from fractions import Fraction as Fr
import alg
import pw
import absint
from absint import Str
from scn import Unk
from ir import Broken

MIN = 25
PI = alg.fn("acos", C(-1))
PIA = alg.atom_id(("fn", "acos", C(-1)))


def sid(n):
    return alg.atom_id(("sym", n))


def put(p, **kw):
    m = {sid(k): v for k, v in kw.items()}
    return trig(p.subst(lambda a: m.get(a)))


def trig(p):
    """sines and cosines at multiples of a right angle"""
    def f(a):
        k = alg.atom_key(a)
        if k[0] == "fn" and k[1] in ("sin", "cos"):
            x = trig(k[2])
            if x.is_const() and x.cval() == 0:
                return ZERO if k[1] == "sin" else ONE
            if len(x.t) == 1:
                (m, c), = x.t.items()
                c = Fr(c) * 2
                if m == ((PIA, 1),) and c.denominator == 1:
                    n = int(c) % 4
                    return C((0, 1, 0, -1)[n] if k[1] == "sin" else (1, 0, -1, 0)[n])
            return alg.fn(k[1], x)
        return None
    return p.subst(f)


def expo(p):
    """exponentials of sums as products of powers of elementary exponentials"""
    def f(a):
        k = alg.atom_key(a)
        if k[0] != "fn" or k[1] not in ("exp", "expm1", "sinh", "cosh"):
            return None
        x = expo(k[2])
        if k[1] == "exp":
            r = ONE
            for m, c in x.t.items():
                c = Fr(c)
                if c.denominator != 1:
                    return alg.fn("exp", x)
                r = r * P.atom(("fn", "exp", alg._reduce(m, 1))).pow(int(c))
            return r
        if k[1] == "expm1":
            return expo(alg.fn("exp", x)) - ONE
        e, n = expo(alg.fn("exp", x)), expo(alg.fn("exp", -x))
        return (e - n if k[1] == "sinh" else e + n).scale(Fr(1, 2))
    return p.subst(f)


def temperature(ctx, name, args, key, post, trunc=None):
    def go():
        w = world(ctx)
        s = w.s
        if trunc:
            s.I.cfg["truncate"] = trunc
        a = s.new("CAnaTemperature")
        T = s.tmp("T", "double")
        where = s.where("CAnaTemperature", name, len(args) + 1)
        v = pos(*args)
        s.call(a, name, *(v + [T]))
        r = s.num(T)
        if not precise(r) or not r.t:
            raise Unk("no closed form")
        post(lambda k, l, msg: judge(ctx, key + ":" + k, l, where, msg), r)
        ctx.count("solutions")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def d2(p, n):
    return p.diff(sid(n)).diff(sid(n))


def solutions(ctx):
    x, y, z, t = [V(k) for k in "xyzt"]

    def s1(j, T):
        j("equation", [("T''", d2(T, "x"), ZERO)], "one-dimensional steady conduction")
        j("ends", [("x=0", put(T, x=ZERO), ZERO), ("x=1", put(T, x=ONE), ONE)], "end temperatures")
    temperature(ctx, "steadyStateHeatConduction1D", ["x"], "steady1", s1)

    def s2(j, T):
        j("equation", [("laplacian", d2(T, "x") + d2(T, "y"), ZERO)], "two-dimensional steady conduction")
        j("cold", [("x=0", put(T, x=ZERO), ZERO), ("x=1", put(T, x=ONE), ZERO), ("y=0", put(T, y=ZERO), ZERO)], "temperature of the cold sides")
        want = sum((C(4) / PI / C(k) * alg.fn("sin", x * PI * C(k)) for k in range(1, 50, 2)), ZERO)
        j("hot", [("y=1", put(T, y=ONE), want)], "temperature of the hot side against the Fourier series of one")
    temperature(ctx, "steadyStateHeatConduction2D", ["x", "y"], "steady2", s2)

    def s3(j, T):
        K = range(1, 9, 2)
        j("equation", [("laplacian", d2(T, "x") + d2(T, "y") + d2(T, "z"), ZERO)], "three-dimensional steady conduction")
        j("cold", [("y=0", put(T, y=ZERO), ZERO), ("y=1", put(T, y=ONE), ZERO), ("z=0", put(T, z=ZERO), ZERO), ("z=1", put(T, z=ONE), ZERO)], "temperature of the cold sides")
        want = sum((C(16) / PI / PI / C(k * l) * alg.fn("sin", y * PI * C(k)) * alg.fn("sin", z * PI * C(l)) for k in K for l in K), ZERO)
        j("hot", [("x=0", put(T, x=ZERO), want.scale(Fr(1, 2))), ("x=1", put(T, x=ONE), want)], "temperature of the hot sides against the Fourier series of one half and one")
    temperature(ctx, "steadyStateHeatConduction3D", ["x", "y", "z"], "steady3", s3, 4)

    def fin(j, T):
        T = expo(T)
        m2 = V("h") * V("perimeter") / (V("k") * V("A"))
        j("equation", [("T''", expo(d2(T, "x")), m2 * (T - V("Tinf")))], "fin equation")
        j("ends", [("x=0", expo(put(T, x=ZERO)), V("Ta")), ("x=length", expo(put(T, x=V("length"))), V("Tb"))], "end temperatures of the fin")
    temperature(ctx, "steadyStateHeatConduction1D", ["x", "Ta", "Tb", "h", "Tinf", "k", "perimeter", "A", "length"], "fin", fin)
    al = V("alpha")

    def t1(j, T):
        j("equation", [("T_t", T.diff(sid("t")), al * d2(T, "x"))], "one-dimensional transient conduction")
        j("sides", [("slope at x=0", put(T.diff(sid("x")), x=ZERO), ZERO), ("x=1", put(T, x=ONE), ZERO)], "adiabatic and cold side")
        want = sum((C(4 * (-1) ** (p + 1)) / PI / C(2 * p - 1) * alg.fn("cos", x * PI * C(Fr(2 * p - 1, 2))) for p in range(1, 100)), ZERO)
        j("start", [("t=0", put(T, t=ZERO), want)], "initial temperature against the Fourier series of one")
    temperature(ctx, "transientHeatConduction1D", ["x", "t", "alpha"], "transient1", t1)

    def tn(n, K):
        X = [x, y, z][:n]
        def go(j, T):
            lap = sum((d2(T, "xyz"[i]) for i in range(n)), ZERO)
            j("equation", [("T_t", T.diff(sid("t")), al * lap)], "transient conduction in %d dimensions" % n)
            for i in range(n):
                c = "xyz"[i]
                j("sides", [("%s=%s" % (c, e), put(T, **{c: C(e)}), ZERO) for e in (Fr(1, 2), -Fr(1, 2))], "cold sides")
            def rec(i):
                if i == n:
                    return [ONE]
                r = rec(i + 1)
                return [C(4 * (-1) ** p) / PI / C(2 * p + 1) * alg.fn("cos", X[i] * PI * C(2 * p + 1)) * q for p in range(K) for q in r]
            j("start", [("t=0", put(T, t=ZERO), sum(rec(0), ZERO))], "initial temperature against the Fourier series of one")
        return go
    temperature(ctx, "transientHeatConduction2D", ["x", "y", "t", "alpha"], "transient2", tn(2, 6), 6)
    temperature(ctx, "transientHeatConduction3D", ["x", "y", "z", "t", "alpha"], "transient3", tn(3, 3), 3)


def burgers(ctx):
    key = "burgers"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CAnaFlow", "viscousBurgersEquation")
        a = s.new("CAnaFlow")
        x, dx, t, L, mu = pos("x", "dx", "t", "L", "mu")
        ph = expo(s.num(s.call(a, "phi", x, t, L, mu)))
        f = s.num(s.call(a, "phi", x, t, L, mu)) / alg.fn("sqrt", t + ONE)
        res = expo(f.diff(sid("t")) + f.diff(sid("x")).scale(4) - mu * d2(f, "x"))
        judge(ctx, key + ":potential", [("residual", res, ZERO)], where, "phi / sqrt(1+t) against the diffusion equation moving with speed 4")
        sh = ph.subst(lambda q: (x + L) if q == sid("x") else None)
        u = s.tmp("u", "double")
        s.call(a, "viscousBurgersEquation", x, dx, t, L, mu, u)
        p1 = s.num(s.call(a, "phi", x + dx, t, L, mu))
        p0 = s.num(s.call(a, "phi", x, t, L, mu))
        judge(ctx, key + ":velocity", [("u", s.num(u), (p1 - p0) / dx / p0 * mu.scale(-2) + C(4))], where, "velocity of the potential")
        # two pulses one period apart
        two = sum((alg.fn("exp", -(x - t.scale(4) - k) * (x - t.scale(4) - k) / (mu * (t + ONE)).scale(4)) for k in (ZERO, L)), ZERO)
        judge(ctx, key + ":pulses", [("phi", p0, two)], where, "two pulses one period apart")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def functions(ctx):
    key = "function:constant"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CAnaFunction", "evaluate")
        f = s.new("CAnaFunction", V("c"))
        name, val = Str("T"), s.tmp("val", "double")
        s.st.setk(val.loc[0], val.loc[1], V("arg"))
        judge(ctx, key, [("evaluate()", s.num(s.call(f, "evaluate")), V("c"))], where, "constant function")
        s.call(f, "set", V("d"))
        judge(ctx, key + ":set", [("evaluate()", s.num(s.call(f, "evaluate")), V("d"))], where, "constant function after set")
        for n in (1, 2):
            v = s.num(s.call(f, "evaluate", *([name, val] * n)))
            if any(alg.atom_key(a)[0] == "call" and "exprtk" in str(alg.atom_key(a)[1]) for a in v.deep_atoms()):
                ctx.ob(key + ":variables", False, where, "a constant function of %d variables evaluates its (empty) expression" % n)
            else:
                judge(ctx, key + ":variables", [("%d variables" % n, v, V("d"))], where, "constant function of a variable")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)
    for n in (1, 2, 4):
        key = "root:bisection:%d" % n

        def go():
            D = [Fr(i, 2 ** n) for i in range(2 ** n + 1)]
            for sgn in (1, -1):
                for lo, hi in zip(D, D[1:]):
                    w = world(ctx)
                    s = w.s
                    I = s.I
                    r, slope = pos("r", "slope")

                    def ev(I, f, this, a, st, line):
                        if len(a) != 2:
                            raise Unk("evaluate")
                        z = F.sign(I.num(I.rv(a[1], st)) - r)
                        if z is None:
                            raise Unk("the function is evaluated away from the halvings")
                        return slope.scale(sgn * z)
                    I.hooks["CAnaFunction<double>::evaluate"] = ev
                    F = pw.Facts()
                    for c in D:
                        F = F.add(r - C(c), 1 if c <= lo else -1) if c else F
                    I.facts, I.resolver = F, pw.resolve
                    I.cfg["loopfacts"] = True
                    f = s.new("CAnaFunction")
                    where = s.where("CAnaFunction", "bisection")
                    it = s.tmp("it", "int")
                    v = s.num(s.call(f, "bisection", Str("x"), ZERO, ONE, it, C(n - 1), ZERO))
                    k = s.int(it)
                    ctx.ob(key + ":iterations", k == n, where, "%d iterations are reported when at most %d are allowed" % (k, n))
                    if not v.is_const():
                        raise Unk("not a dyadic")
                    c = Fr(v.cval())
                    ctx.ob(key, max(abs(c - lo), abs(c - hi)) <= Fr(1, 2 ** n), where, "for a root between %s and %s the result after %d halvings is %s" % (lo, hi, n, c))
                    # stopping on the tolerance
                    it2 = s.tmp("it2", "int")
                    v = s.num(s.call(f, "bisection", Str("x"), ZERO, ONE, it2, C(100), C(Fr(1, 2 ** n))))
                    k = s.int(it2)
                    c = Fr(v.cval()) if v.is_const() else None
                    ctx.ob(key + ":tolerance", k == n and c is not None and lo < c < hi, where, "for a root between %s and %s and a tolerance of %s the result after %d halvings is %s" % (lo, hi, Fr(1, 2 ** n), k, c))
                    ctx.seen(s.I)
        attempt(ctx, key, key, go)
    # a linear function with its root anywhere in an interval: the secant step hits it
    for sgn in (1, -1):
        for lo in range(0, 8):
            key = "root:brent:%d:%d" % (sgn, lo)

            def go():
                w = world(ctx)
                s = w.s
                I = s.I
                r, slope = pos("r", "slope")

                def ev(I, f, this, a, st, line):
                    return (I.num(I.rv(a[1], st)) - r) * C(sgn)
                I.hooks["CAnaFunction<double>::evaluate"] = ev
                F = pw.Facts()
                for c in range(1, 33):
                    F = F.add(r - C(Fr(c, 32)), 1 if c <= 4 * lo else -1 if c >= 4 * lo + 1 else 1)
                I.facts, I.resolver = F, pw.resolve
                I.cfg["loopfacts"] = True
                f = s.new("CAnaFunction")
                where = s.where("CAnaFunction", "brent")
                for a, b in ((ZERO, ONE), (ONE, ZERO)):
                    it = s.tmp("it", "int")
                    v = s.num(s.call(f, "brent", Str("x"), a, b, it, C(30), C(Fr(1, 1024))))
                    judge(ctx, key, [("root", v, r)], where, "root of a linear function between %s and %s" % (alg.show(a), alg.show(b)))
                ctx.seen(s.I)
            attempt(ctx, key, key, go)


def materials(ctx):
    key = "material"

    def go():
        w = world(ctx)
        s = w.s
        where = s.where("CMatMaterial", "addProperty")
        m = s.new("CMatMaterial")
        E = s.p.enums["EPropertyType"] if "EPropertyType" in s.p.enums else None
        names = sorted(E)[:4] if E else []
        if len(names) < 3:
            raise Broken("property types not found")
        for i, n in enumerate(names[:3]):
            s.call(m, "addProperty", s.enum("EPropertyType", n), V("m%d" % i))
        judge(ctx, key + ":stored", [(n, s.num(s.call(m, "propertyValue", s.enum("EPropertyType", n))), V("m%d" % i)) for i, n in enumerate(names[:3])], where, "property")
        s.call(m, "addProperty", s.enum("EPropertyType", names[1]), V("new"))
        judge(ctx, key + ":replaced", [(n, s.num(s.call(m, "propertyValue", s.enum("EPropertyType", n))), V("new") if i == 1 else V("m%d" % i)) for i, n in enumerate(names[:3])], where, "property after one was added again")
        val = s.tmp("val", "double")
        s.st.setk(val.loc[0], val.loc[1], V("arg"))
        for i, n in enumerate(names[:2]):
            s.call(m, "addProperty", s.enum("EPropertyType", n), s.new("CAnaFunction", V("f%d" % i)))
        for k in (1, 2):
            judge(ctx, key + ":function", [(n, s.num(s.call(m, "propertyValue", s.enum("EPropertyType", n), *([Str("T"), val] * k))), V("f%d" % i)) for i, n in enumerate(names[:2])], where, "constant property function")
        ctx.seen(s.I)
    attempt(ctx, key, key, go)


def check(ctx):
    ctx.rule("every reference solution: the residual of its equation is identically zero, the boundary values hold identically, and the series start from the Fourier coefficients of the data")
    ctx.rule("scalar functions and materials return what was set; the bisection keeps a bracket of the root for every root position and reports its iterations")
    solutions(ctx)
    burgers(ctx)
    functions(ctx)
    materials(ctx)
