"""The algebra of systems (sums, differences, scaling), the imposition of prescribed values (penalty,
elimination), sources and the scattering of a solution back into a field are interpreted abstractly on
systems with symbolic entries; so is the bookkeeping of a field (values, prescribed values, sources and
boundary conditions)."""
import re
from checks.meshutil import *
from checks.c08 import attempt, world, entries, vec
from checks.femutil import judge
from ir import Broken
from scn import Unk, strip

MIN = 90
VB, SM = "Eigen::Matrix<double,-1,1>", "Eigen::SparseMatrix<double,0,int>"


def fld(r, *path, ty=SM):
    return Ref((r.loc[0], r.loc[1] + path), ty)


def system(w, n, name, mt, holes=()):
    """a system whose entries are independent symbols"""
    s = w.s
    S = s.new("CSleSystem", name=name)
    s.st.setk(S.loc[0], S.loc[1] + ("matrixType",), s.enum("EMatrixType", mt))
    A = Mat(n, n, {(i, j): ZERO if (i, j) in holes else V("%sA%d%d" % (name, i, j)) for i in range(n) for j in range(n)})
    b = Mat(n, 1, {(i, 0): V("%sb%d" % (name, i)) for i in range(n)})
    models.assign_matrix(s.I, s.st, fld(S, "matrixA"), A)
    models.assign_matrix(s.I, s.st, fld(S, "vectorB", ty=VB), b)
    return S, A, b


def vecref(w, name, n):
    r = w.s.tmp(name, VB)
    models.assign_matrix(w.s.I, w.s.st, r, Mat(n, 1, {(i, 0): V("%s%d" % (name, i)) for i in range(n)}))
    return r


def types(w):
    return {k: w.s.enum("EMatrixType", k) for k in ("MT_UNKNOWN", "MT_SPARSE_SYMMETRIC", "MT_SPARSE", "MT_DENSE")}


def expect(ctx, w, key, where, r, A, b, t=None):
    RA, Rb, rt = w.system(r)
    ctx.ob(key + ":size", (RA.r, RA.c, Rb.r) == (A.r, A.c, b.r), where, "result is %dx%d with %d right-hand sides" % (RA.r, RA.c, Rb.r))
    judge(ctx, key + ":matrix", [(k, RA.e[k], A.e[k]) for k in sorted(A.e)], where, "matrix")
    judge(ctx, key + ":rhs", [(k[0], Rb.e[k], b.e[k]) for k in sorted(b.e)], where, "right-hand side")
    if t is not None:
        judge(ctx, key + ":type", [("type", rt, t)], where, "matrix type")
    ctx.seen(w.s.I)


def algebra(ctx):
    n = 3
    M = lambda f, A: Mat(A.r, A.c, {k: f(k) for k in A.e})
    kinds = ("MT_UNKNOWN", "MT_SPARSE_SYMMETRIC", "MT_SPARSE", "MT_DENSE")
    for op, sg in (("operator+", 1), ("operator-", -1)):
        for lt in kinds[1:]:
            for rt in kinds[1:]:
                key = "sum:%s:%s:%s" % (op, lt[3:], rt[3:])

                def go():
                    w = world(ctx)
                    L, A1, b1 = system(w, n, "p", lt)
                    R, A2, b2 = system(w, n, "q", rt)
                    r = w.free("sle::" + op, L, R)
                    where = "%s %s" % (w.fn.get("floc", ""), op)
                    T = types(w)
                    # the sum of a symmetric and a general matrix is general, and so on
                    t = max((T[lt], T[rt]), key=lambda x: x.cval())
                    expect(ctx, w, key, where, r, M(lambda k: A1.e[k] + A2.e[k].scale(sg), A1), M(lambda k: b1.e[k] + b2.e[k].scale(sg), b1), t)
                attempt(ctx, key, key, go)
        key = "shift:" + op

        def go():
            w = world(ctx)
            L, A1, b1 = system(w, n, "p", "MT_SPARSE")
            c = V("c")
            r = w.free("sle::" + op, L, c)
            where = "%s %s" % (w.fn.get("floc", ""), op)
            expect(ctx, w, key, where, r, M(lambda k: A1.e[k] + (c.scale(sg) if k[0] == k[1] else ZERO), A1), M(lambda k: b1.e[k] + c.scale(sg), b1), types(w)["MT_SPARSE"])
        attempt(ctx, key, key, go)
    for lt in kinds[1:]:
        key = "scale:" + lt[3:]

        def go():
            w = world(ctx)
            L, A1, b1 = system(w, n, "p", lt)
            c = V("c")
            r = w.free("sle::operator*", c, L)
            where = "%s operator*" % w.fn.get("floc", "")
            expect(ctx, w, key, where, r, M(lambda k: A1.e[k] * c, A1), M(lambda k: b1.e[k] * c, b1), types(w)[lt])
        attempt(ctx, key, key, go)
        key = "rowscale:" + lt[3:]

        def go():
            w = world(ctx)
            L, A1, b1 = system(w, n, "p", lt)
            d = vecref(w, "d", n)
            r = w.free("sle::operator*", d, L)
            where = "%s operator*" % w.fn.get("floc", "")
            D = lambda k: V("d%d" % k[0])
            # scaling rows does not preserve symmetry
            t = types(w)["MT_SPARSE" if lt == "MT_SPARSE_SYMMETRIC" else lt]
            expect(ctx, w, key, where, r, M(lambda k: A1.e[k] * D(k), A1), M(lambda k: b1.e[k] * D(k), b1), t)
        attempt(ctx, key, key, go)

    for arg in ("number", "vector"):
        key = "equals:" + arg

        def go():
            w = world(ctx)
            s = w.s
            L, A1, b1 = system(w, n, "p", "MT_SPARSE")
            cls = s.cname("CSleSystem")
            fs = [g for g in ctx.prog.bycls[cls] if g["name"].endswith("operator=") and "body" in g and ("double" == strip(g["params"][0][2])) == (arg == "number")]
            fs = [g for g in fs if arg == "number" or "Eigen" in g["params"][0][2]]
            if not fs:
                raise Unk("assignment not found")
            v = V("c") if arg == "number" else vecref(w, "d", n)
            r = s.I.rv(s.I.call(fs[0], L, [v], s.st), s.st)
            where = "%s operator=" % fs[0].get("floc", "")
            x = lambda k: V("c") if arg == "number" else V("d%d" % k[0])
            ctx.ob(key + ":self", isinstance(r, Ref) and r.loc == L.loc, where, "does not return the system")
            expect(ctx, w, key, where, L, A1, M(lambda k: b1.e[k] + x(k), b1), types(w)["MT_SPARSE"])
        attempt(ctx, key, key, go)

    key = "scaled-field"

    def go():
        w = world(ctx)
        m = w.mesh([[V("x%d" % i), ZERO, ZERO] for i in range(n)], [("ET_BEAM", (0, 1)), ("ET_BEAM", (1, 2))])
        f = w.field(m, "DM_FDM")
        c = V("c")
        r = w.free("pde::operator*", c, f)
        where = "%s operator*" % w.fn.get("floc", "")
        A, b, t = w.system(r)
        expect(ctx, w, key, where, r, Mat(n, n, {(i, j): c if i == j else ZERO for i in range(n) for j in range(n)}), Mat(n, 1, {(i, 0): ZERO for i in range(n)}))
        T = types(w)
        ctx.ob(key + ":declared-type", t in (T["MT_SPARSE"], T["MT_SPARSE_SYMMETRIC"], T["MT_DENSE"]), where, "matrix type left undeclared")
    attempt(ctx, key, key, go)


def solving(ctx):
    """which solver is applied to which matrix and right-hand side"""
    sym = ("ConjugateGradient", "SimplicialLLT", "SimplicialLDLT", "LLT", "LDLT", "MINRES")
    for mt in ("MT_SPARSE_SYMMETRIC", "MT_SPARSE", "MT_DENSE"):
        key = "solve:" + mt[3:]

        def go():
            w = world(ctx)
            s = w.s
            L, A, b = system(w, 3, "p", mt)
            n0 = len(s.I.events)
            r = s.call(L, "solve")
            where = s.where("CSleSystem", "solve")
            ev = [e for e in s.I.events[n0:] if e["kind"] == "solve"]
            x = str(s.mat(r))
            m = re.search(r"'solve', \(\('obj', '(?:Eigen::)?(\w+)", x)
            ctx.ob(key + ":solved", bool(m), where, "the returned vector is not the solution computed by a solver", sig="unsolved")
            prep = [e for e in ev if e["op"] in ("compute", "factorize")]
            fin = [e for e in ev if e["op"] == "solve"]
            ctx.ob(key + ":matrix", bool(prep) and all(e["val"] == [s.I.k(A)] for e in prep), where, "the solver is not prepared with the system's matrix")
            ctx.ob(key + ":rhs", bool(fin) and all(e["val"] == [s.I.k(b)] for e in fin), where, "solved for another right-hand side")
            if m and mt != "MT_SPARSE_SYMMETRIC":
                ctx.ob(key + ":solver", m.group(1) not in sym, where, "%s needs a symmetric matrix" % m.group(1))
            ctx.seen(s.I)
        attempt(ctx, key, key, go)


FIXED = [(0,), (3,), (0, 2), (1, 2), (0, 1, 3), (2, 0)]


def constrained(ctx):
    n = 4
    for method in ("penalty", "elimination", "elimination-fvm", "none"):
        for fx in FIXED if method in ("penalty", "elimination") else FIXED[2:3]:
            key = "%s:%s" % (method, "-".join(map(str, fx)))

            def go():
                w = world(ctx)
                s = w.s
                L, A, b = system(w, n, "p", "MT_SPARSE", holes=((0, 3), (2, 1)))
                m = w.mesh([[V("x%d" % i), ZERO, ZERO] for i in range(n)], [("ET_BEAM", (i, i + 1)) for i in range(3)])
                f = w.field(m, "DM_FVM" if method.endswith("fvm") else "DM_FEM")
                for i in fx:
                    s.call(f, "setFixedValue", C(i), V("g%d" % i))
                s.call(f, "setSource", C(1), V("s1"))
                s.call(f, "setSource", C(3), V("s3"))
                eq = s.new("CPdeEquation", L)
                s.call(eq, "setSources", f)
                b1 = Mat(n, 1, {(i, 0): b.e[(i, 0)] + (V("s%d" % i) if i in (1, 3) else ZERO) for i in range(n)})
                where = s.where("CPdeEquation", "setSources")
                sysref = lambda: s.call(eq, "system")
                expect(ctx, w, key + ":sources", where, sysref(), A, b1)
                # the solution of whatever system is left
                xs = {}

                def h(I, fn, this, a, st, line):
                    k = models.dims_of(I, fld(this, "vectorB", ty=VB), st)
                    if not k:
                        raise Unk("system of unknown size")
                    return Mat(k[0], 1, {(i, 0): V("x%d" % i) for i in range(k[0])})
                s.I.hooks["CSleSystem<double>::solve"] = h
                free = [i for i in range(n) if i not in fx]
                if method == "penalty":
                    s.call(eq, "setPenaltyFactor", f, V("P"))
                    where = s.where("CPdeEquation", "setPenaltyFactor")
                    eA = Mat(n, n, {k: V("P") if k[0] == k[1] and k[0] in fx else v for k, v in A.e.items()})
                    eb = Mat(n, 1, {k: V("P") * V("g%d" % k[0]) if k[0] in fx else v for k, v in b1.e.items()})
                    expect(ctx, w, key, where, sysref(), eA, eb, types(w)["MT_SPARSE"])
                elif method == "elimination":
                    s.call(eq, "setElimination", f)
                    where = s.where("CPdeEquation", "setElimination")
                    q = len(free)
                    eA = Mat(q, q, {(i, j): A.e[(free[i], free[j])] for i in range(q) for j in range(q)})
                    eb = Mat(q, 1, {(i, 0): b1.e[(free[i], 0)] - sum((A.e[(free[i], j)] * V("g%d" % j) for j in fx), ZERO) for i in range(q)})
                    expect(ctx, w, key, where, sysref(), eA, eb, types(w)["MT_SPARSE"])
                s.call(eq, "solve", f)
                where = s.where("CPdeEquation", "solve")
                u = s.mat(Ref((f.loc[0], f.loc[1] + ("u",)), VB))
                if not isinstance(u, Mat):
                    raise Unk("field of unknown size")
                ctx.ob(key + ":field-size", u.r == n, where, "field has %d values for %d nodes" % (u.r, n))
                want = {}
                for i in range(n):
                    want[i] = V("g%d" % i) if i in fx else V("x%d" % (free.index(i) if method == "elimination" else i))
                judge(ctx, key + ":field", [(i, u.e[(i, 0)], want[i]) for i in range(min(n, u.r))], where, "field after the solution")
                ctx.count("constraint cases")
            attempt(ctx, key, key, go)


def fields(ctx):
    """values, prescribed values, sources and conditions are kept per degree of freedom, node, face and side"""
    for loc in ("DL_NODE", "DL_ELEMENT_CENTER"):
        for dofs in (1, 3):
            key = "init:%s:%d" % (loc[3:].lower(), dofs)

            def go():
                w = world(ctx)
                m = w.mesh([[V("x%d" % i), ZERO, ZERO] for i in range(5)], [("ET_BEAM", (i, i + 1)) for i in range(3)])
                f = w.field(m, "DM_FEM", dofs=dofs, loc=loc, u=None)
                u = models.dims_of(w.s.I, Ref((f.loc[0], f.loc[1] + ("u",)), VB), w.s.st)
                n = dofs * (5 if loc == "DL_NODE" else 3)
                ctx.ob(key, u == (n, 1) if u else None, w.s.where("CPdeField", "init"), "field has %s values instead of %d" % (u and u[0], n))
                ctx.seen(w.s.I)
            attempt(ctx, key, key, go)
    for what, store in (("setFixedValue", "uFixed"), ("setSource", "uSource")):
        key = "dof:" + what

        def go():
            w = world(ctx)
            s = w.s
            f = w.field(None, "DM_FEM", dofs=3, n=0)
            s.call(f, what, C(2), C(1), V("a"))       # node 2, degree of freedom 1 -> entry 7
            s.call(f, what, C(4), V("b"))
            s.call(f, what, C(7), V("c"))              # replaces the first
            s.call(f, what, C(0), C(2), V("d"))
            base = Ref((f.loc[0], f.loc[1] + (store,)), "std::map<int, double>")
            ks = models.keys_of(s.st, base.loc)
            where = s.where("CPdeField", what, 3)
            if ks is None:
                raise Unk("keys not known")
            got = sorted(int(k) if isinstance(k, int) else int(k.cval()) for k in ks)
            ctx.ob(key + ":entries", got == [2, 4, 7], where, "entries %s instead of [2, 4, 7]" % got)
            for k, v in ((2, "d"), (4, "b"), (7, "c")):
                x = s.st.getk(base.loc[0], base.loc[1] + (("#", C(k)),))
                ctx.ob(key + ":value%d" % k, None if x is None else (x == V(v)), where, "entry %d is %s instead of %s" % (k, x, v))
            ctx.seen(s.I)
        attempt(ctx, key, key, go)
    for kind, add, has, get, keys in (("node", "addBCNode", "nodeHasBC", "nodeBC", [(3,), (8,)]), ("face", "addBCFace", "faceHasBC", "faceBC", [(5,), (1,)]),
                                      ("element", "addBCElement", "elementHasBC", "elementBC", [(4, 2), (2, 4)])):
        key = "conditions:" + kind

        def go():
            w = world(ctx)
            s = w.s
            f = w.field(None, "DM_FEM", n=0)
            tys = ("BT_GENERIC_FIXED_VALUE", "BT_HEAT_CONVECTIVE")
            for k, t, v in zip(keys, tys, "ab"):
                bc = s.new("CPdeBoundaryCondition", s.enum("EBoundaryConditionType", t))
                s.call(bc, "addCondition", s.enum("EConditionType", "CT_HEAT_TRANSFER_COEFFICIENT"), V(v))
                s.call(bc, "addCondition", s.enum("EConditionType", "CT_HEAT_INFINITESIMAL_TEMPERATURE"), V(v + "T"))
                s.call(f, add, *([C(i) for i in k] + [bc]))
            where = s.where("CPdeField", get)
            for k, t, v in zip(keys, tys, "ab"):
                ctx.ob(key + ":present:%s" % v, s.call(f, has, *map(C, k)) == TRUE, s.where("CPdeField", has), "condition added for %s is not found" % (k,))
                bc = s.call(f, get, *map(C, k))
                judge(ctx, key + ":type:" + v, [("type", s.num(s.call(bc, "boundaryConditionType")), s.enum("EBoundaryConditionType", t))], where, "type of the condition")
                judge(ctx, key + ":values:" + v, [(c, s.num(s.call(bc, "conditionValue", s.enum("EConditionType", c))), V(x)) for c, x in
                                                  (("CT_HEAT_TRANSFER_COEFFICIENT", v), ("CT_HEAT_INFINITESIMAL_TEMPERATURE", v + "T"))], where, "value of the condition")
            for k in ((9,), (0,)) if len(keys[0]) == 1 else ((4, 4), (2, 2), (4, 0)):
                try:
                    s.call(f, get, *map(C, k))
                except absint.Trap:
                    pass
                ctx.ob(key + ":absent:%s" % (k,), s.call(f, has, *map(C, k)) == FALSE, where, "a condition appears for %s that was never added" % (k,))
            ctx.seen(s.I)
        attempt(ctx, key, key, go)


def check(ctx):
    ctx.rule("system operators act entry by entry on matrix and right-hand side; prescribed values satisfy the reduced rows exactly; solutions and conditions return to the entries they belong to")
    algebra(ctx)
    solving(ctx)
    constrained(ctx)
    fields(ctx)
