"""Small meshes with symbolic coordinates, built through the public mesh interface of the
analysed library, and the systems its operators assemble on them."""
from scn import Scn, Unk, V
from fw import *
import models
from fractions import Fraction as Fr

NID = [17, 4, 23, 9, 31, 2, 12, 40, 28, 7, 35, 19]     # node ids: neither ordered nor contiguous
EID = [8, 3, 21, 14]
FACES = {"ET_BEAM": 2, "ET_TRIANGLE": 3, "ET_QUADRILATERAL": 4, "ET_TETRAHEDRON": 4, "ET_TRIANGULAR_PRISM": 6, "ET_HEXAHEDRON": 8}


class W:
    """a world: one abstract store"""
    def __init__(self, ctx, **kw):
        self.s = Scn(ctx.prog, **kw)
        self.ctx = ctx

    def mesh(self, X, els, nid=None, eid=None, cls="CMshMesh", name="mesh"):
        s = self.s
        m = s.new(cls, name=name)
        nid = nid or NID
        eid = eid or EID
        for i, x in enumerate(X):
            s.call(m, "addNode", C(nid[i]), s.xyz("CMshNode", *x))
        for k, (et, ns) in enumerate(els):
            s.call(m, "addElement", C(eid[k]), self.element(et, [nid[i] for i in ns]))
        return m

    def element(self, et, ids, th=None):
        s = self.s
        e = s.new("CMshElement", s.enum("EElementType", et))
        if th is not None:
            s.call(e, "setThickness", th)
        for i in ids:
            s.call(e, "addNodeId", C(i))
        return e

    def field(self, mesh, method, sim="ST_GENERIC", dofs=1, loc="DL_NODE", n=None, u="u"):
        s = self.s
        f = s.new("CPdeField", name="field")
        if mesh is not None:
            s.call(f, "setMesh", mesh)
        s.call(f, "setDiscretMethod", s.enum("EDiscretMethod", method))
        s.call(f, "setSimulationType", s.enum("ESimulationType", sim))
        s.call(f, "setDiscretLocation", s.enum("EDiscretLocation", loc))
        s.call(f, "setNbDofs", C(dofs))
        s.call(f, "init")
        if n is None:
            n = s.int(s.call(s.call(f, "mesh"), "nbNodes" if loc == "DL_NODE" else "nbElements")) * dofs
        if u:
            for i in range(n):
                s.call(f, "setValue", C(i), V("%s%d" % (u, i)))
        self.n = n
        return f

    def material(self, f, **props):
        s = self.s
        m = s.new("CMatMaterial")
        for k, v in props.items():
            s.call(m, "addProperty", s.enum("EPropertyType", "PT_" + k), v)
        s.call(f, "setMaterial", m)
        return m

    def free(self, name, *args):
        """a free function of the library by its qualified name"""
        fs = [g for g in self.ctx.prog.F if "body" in g and "cls" not in g and g["name"] == "ENigMA::" + name and len(g["params"]) == len(args)]
        if not fs:
            raise Broken("function %s/%d not found" % (name, len(args)))
        a = [self.s.conv(x) for x in args]
        self.fn = self.s.pick(fs, a)
        v = self.s.I.call(self.fn, None, a, self.s.st)
        return self.s.I.rv(v, self.s.st)

    def free_where(self, name, n):
        fs = [g for g in self.ctx.prog.F if "floc" in g and "cls" not in g and g["name"] == "ENigMA::" + name and len(g["params"]) == n]
        return "%s %s" % (fs[0]["floc"], name) if fs else name

    def system(self, r, n=None):
        """(matrix, right-hand side, matrixType) of a system value"""
        s = self.s
        A = s.mat(Ref((r.loc[0], r.loc[1] + ("matrixA",)), "Eigen::SparseMatrix<double, 0, int>"))
        b = s.mat(Ref((r.loc[0], r.loc[1] + ("vectorB",)), "Eigen::Matrix<double, -1, 1>"))
        t = s.num(Ref((r.loc[0], r.loc[1] + ("matrixType",)), "int"))
        if not isinstance(A, Mat) or not isinstance(b, Mat):
            raise Unk("system of unknown shape: %s" % (str(A)[:60],))
        return A, b, t

    # ------------------------------------------------------------ summaries
    def point_search(self, cls="CGeoHashGrid<double>"):
        """replaces the spatial index by its contract: find reports the identifiers of all stored
        points at the queried position (distinct symbolic points are taken to be apart)"""
        I, s = self.s.I, self.s
        store = {}

        def build(I, f, this, a, st, line):
            return VOID_

        def add(I, f, this, a, st, line):
            store.setdefault(this.loc, []).append((I.num(I.rv(a[0], st)), tuple(vec_in(s, a[1], st))))
            return VOID_

        def find(I, f, this, a, st, line):
            q = tuple(vec_in(s, a[1], st))
            for k, x in store.get(this.loc, []):
                if all(alg.is_zero(u - v) for u, v in zip(x, q)):
                    push(s, a[0], k, st)
            return VOID_

        def reset(I, f, this, a, st, line):
            store.pop(this.loc, None)
            return VOID_
        I.hooks[cls + "::build"] = build
        I.hooks[cls + "::find"] = find
        I.hooks[cls + "::reset"] = reset
        for base in ("CGeoContainer<CGeoCoordinate<double>,double>",):
            I.hooks[base + "::addGeometricObject"] = add


VOID_ = absint.VOID


def vec_in(s, v, st):
    m = models.as_mat(s.I, v, st)
    return [m.e[(i, 0)] if m.c == 1 else m.e[(0, i)] for i in range(3)]


def push(s, ref, v, st=None):
    st = st or s.st
    n = s.I.size_of(st, ref.loc)
    st.setk(ref.loc[0], ref.loc[1] + (("#", n),), v)
    st.setk(ref.loc[0], ref.loc[1] + ("@size",), n + ONE)
