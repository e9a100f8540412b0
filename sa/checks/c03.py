"""Constant propagation extracts every integration rule's points and weights; the
tables are judged against the exact moments of the reference cell."""
import itertools
from math import factorial, prod
from decimal import Decimal
from scn import Scn, SOFT, Unk
from fw import *

MIN = 60
TOL = 1e-7
REQ = {
    "beam": {1: 1, 2: 3, 3: 5, 4: 7, 6: 11},
    "quadrilateral": {1: 1, 4: 3, 8: 3},
    "hexahedron": {1: 1, 8: 3, 27: 5},
    "prism": {1: 1, 6: 2, 9: 2},
    "triangle": {1: 1, 3: 2, 6: 4, 7: 5, 12: 6, 16: 8, 17: 8, 20: 8},
}
FAM = [
    ("beam", "CIntBeam", "setGaussPoints", ["m_xi"], ["m_wxi"]),
    ("quadrilateral", "CIntQuadrilateral", "setGaussPoints", ["m_xi", "m_eta"], ["m_wxi", "m_weta"]),
    ("hexahedron", "CIntHexahedron", "setGaussPoints", ["m_xi", "m_eta", "m_zeta"], ["m_wxi", "m_weta", "m_wzeta"]),
    ("prism", "CIntTriangularPrism", "setGaussPoints", ["m_xi", "m_eta", "m_zeta"], ["m_wxi", "m_weta", "m_wzeta"]),
    ("triangle", "CIntTriangle", "setBarycentricGaussPoints", ["m_beta1", "m_beta2", "m_beta3"], ["m_wbeta"]),
]


def cnum(x):
    if x.is_const():
        return float(x.cval())
    v = alg._numconst(x)
    if v is None:
        raise Unk("table entry %s is not a constant" % alg.show(x)[:60])
    return float(v)


def table(ctx, cls, meth, n, names):
    s = Scn(ctx.prog)
    o = s.tmp("q", s.cname(cls))
    fields = {f[1] for f in ctx.prog.allfields(o.ty)}
    for nm in names + ["m_integPoints"]:
        if nm not in fields:
            raise ir.Broken("field %s of %s not found" % (nm, cls))
    f = s.find(o.ty, meth, [])
    s.st.setk(o.loc[0], ("m_integPoints",), C(n))
    for nm in names:
        s.st.setk(o.loc[0], (nm, "@size"), ZERO)
    s.I.call(f, o, [], s.st)
    ctx.seen(s.I, f)
    out = {}
    for nm in names:
        sz = s.I.size_of(s.st, (o.loc[0], (nm,)))
        if not sz.is_const():
            raise Unk("size of %s" % nm)
        out[nm] = [s.I.num(s.I.load(s.st, (o.loc[0], (nm, ("#", C(i)))), "double")) for i in range(int(sz.cval()))]
    return f, out


def moment(kind, e):
    """exact integral of the monomial over the reference cell"""
    seg = lambda q: 2.0 / (q + 1) if q % 2 == 0 else 0.0
    if kind in ("beam", "quadrilateral", "hexahedron"):
        return prod(seg(q) for q in e)
    tri = factorial(e[0]) * factorial(e[1]) / factorial(e[0] + e[1] + 2)
    if kind == "prism":
        return tri * seg(e[2])
    return tri


def check(ctx):
    ctx.rule("weights sum to the reference measure; points lie in the closed reference cell and are pairwise distinct; all monomials up to the rule's degree are integrated exactly (tolerance %g)" % TOL)
    for kind, cls, meth, pn, wn in FAM:
        found = set()
        for n in range(1, 41):
            try:
                f, t = table(ctx, cls, meth, n, pn + wn)
                sz = {len(v) for v in t.values()}
                if sz == {0}:
                    continue
                # unfilled slots (value-initialised everywhere) mean: no rule for this number of points
                v = {}
                blank = all(not x.t for k in wn for x in t[k])
                if blank:
                    continue
                v = {k: [cnum(x) for x in xs] for k, xs in t.items()}
            except SOFT as e:
                ctx.ob("%s-%d" % (kind, n), None, cls, str(e))
                found.add(n)
                continue
            found.add(n)
            key = "%s-%d" % (kind, n)
            where = "%s %s[%d points]" % (f["floc"], ctx.prog.short(f["name"]), n)
            ctx.count("rules")
            ctx.ob(key + ":size", sz == {n}, where, "table sizes %s instead of %d" % (sz, n))
            if sz != {n}:
                continue
            X = [v[k] for k in pn]
            w = [prod(v[k][i] for k in wn) for i in range(n)]
            pts = list(zip(*X))
            if kind == "triangle":
                ctx.ob(key + ":barycentric", all(abs(sum(p) - 1) < TOL for p in pts), where, "barycentric coordinates of point %s do not add to 1" % [i for i, p in enumerate(pts) if abs(sum(p) - 1) >= TOL])
                inside = [all(-TOL <= x <= 1 + TOL for x in p) for p in pts]
                meas = 0.5
            elif kind == "prism":
                inside = [p[0] >= -TOL and p[1] >= -TOL and p[0] + p[1] <= 1 + TOL and abs(p[2]) <= 1 + TOL for p in pts]
                meas = 1.0
            else:
                inside = [all(abs(x) <= 1 + TOL for x in p) for p in pts]
                meas = 2.0 ** len(pn)
            ctx.ob(key + ":inside", all(inside), where, "points %s lie outside the reference cell" % [i for i, q in enumerate(inside) if not q], sig=[i for i, q in enumerate(inside) if not q])
            dup = [(i, j) for i in range(n) for j in range(i) if max(abs(a - b) for a, b in zip(pts[i], pts[j])) < 1e-6]
            ctx.ob(key + ":distinct", not dup, where, "points %s coincide" % dup, sig=dup)
            ctx.ob(key + ":weight-sum", abs(sum(w) - meas) < TOL, where, "weights add to %.10g, reference measure is %g" % (sum(w), meas), sig="%.6g" % sum(w))
            deg = REQ[kind].get(n, 1)
            dims = 2 if kind == "triangle" else len(pn)
            bad = []
            for e in itertools.product(range(deg + 1), repeat=dims):
                if 0 < sum(e) <= deg:
                    got = sum(w[i] * prod(X[d][i] ** e[d] for d in range(dims)) for i in range(n))
                    if abs(got - moment(kind, e)) > TOL:
                        bad.append((e, got))
            ctx.ob(key + ":exactness", not bad, where, "monomials %s are not integrated exactly (degree %d expected)" % (["x^%s: %.6g" % (e, g) for e, g in bad[:4]], deg), sig=[(e, "%.5g" % g) for e, g in bad])
        miss = set(REQ[kind]) - found
        ctx.ob(kind + ":rules", not miss, cls, "no rule any more for %s points" % sorted(miss))
    ctx.need("rules", 20)
