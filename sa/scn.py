"""Abstract objects driven through the public API: builds an abstract store by
interpreting constructors/methods of the analysed classes on symbolic inputs."""
import absint
import alg
import models
from absint import Interp, St, Ref, Ptr, Str, Mat, OpM, View, Cond, P, C, ZERO, ONE, TRUE, FALSE, strip, VOID
from ir import Broken


def V(name):
    return P.atom(("sym", name))


class Scn:
    def __init__(self, prog, **kw):
        self.p = prog
        self.I = Interp(prog, **kw)
        absint.NOTED = False
        self.st = St()
        self.n = 0

    def cname(self, short):
        n = self.p.cshort.get(short)
        if n is None:
            n = self.p.cshort.get(short + "<double>")
        if n is None:
            raise Broken("class %s not found" % short)
        return n

    def tmp(self, name, ty):
        self.n += 1
        return Ref((("obj", name, self.n), ()), ty)

    def conv(self, a):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            return C(a)
        if isinstance(a, bool):
            return TRUE if a else FALSE
        if isinstance(a, str):
            return Str(a)
        return a

    def ctors(self, cls, n):
        return [g for g in self.p.bycls.get(cls, []) if g["kind"] == "ctor" and len(g["params"]) == n and not g.get("implicit")]

    def pick(self, fs, args):
        """overload resolution, good enough for the analysed API"""
        if len(fs) == 1:
            return fs[0]
        best, bs = None, -1
        for f in fs:
            s = 0
            for (vid, nm, ty), a in zip(f["params"], args):
                t = strip(ty)
                if isinstance(a, Ref):
                    at = strip(a.ty)
                    if at == t:
                        s += 10
                    elif t in self.p.allbases(at):
                        s += 5
                    else:
                        s -= 100
                elif isinstance(a, Cond):
                    s += 5 if t == "bool" else -5
                elif isinstance(a, P):
                    s += 5 if absint.is_scalar(t) and t != "bool" else -50
                elif isinstance(a, (Str,)):
                    s += 5 if "basic_string" in t else -50
            if "body" in f:
                s += 1
            if best is None or s > bs:
                best, bs = f, s
        return best

    def new(self, cls, *args, name=None):
        cls = self.cname(cls)
        args = [self.conv(a) for a in args]
        ref = self.tmp(name or cls, cls)
        cs = [g for g in self.ctors(cls, len(args)) if "body" in g]
        if not cs:
            if args:
                raise Broken("constructor of %s with %d parameters not found" % (cls, len(args)))
            self.I.default_construct(self.st, ref)
            return ref
        self.I.default_construct(self.st, ref, None, self.pick(cs, args), args)
        return ref

    def find(self, cls, name, args):
        for c in [cls] + self.p.allbases(cls):
            fs = [g for g in self.p.bycls.get(c, []) if g["name"].split("::")[-1] == name and "body" in g and len(g["params"]) == len(args)]
            if fs:
                return self.pick(fs, args)
        raise Broken("method %s::%s/%d not found" % (self.p.short(cls), name, len(args)))

    def call(self, obj, name, *args):
        args = [self.conv(a) for a in args]
        f = self.find(strip(obj.ty), name, args)
        v = self.I.call(f, obj, args, self.st)
        return self.I.rv(v, self.st)

    def where(self, cls, name, n=None):
        cls = self.cname(cls)
        for c in [cls] + self.p.allbases(cls):
            fs = [g for g in self.p.bycls.get(c, []) if g["name"].split("::")[-1] == name and "floc" in g and (n is None or len(g["params"]) == n)]
            if fs:
                return "%s %s" % (fs[0]["floc"], self.p.short(fs[0]["name"]))
        return "%s::%s" % (self.p.short(cls), name)

    def xyz(self, cls, x, y, z, name=None):
        r = self.tmp(name or "c", self.cname(cls))
        self.st.setk(r.loc[0], ("@type",), r.ty)
        for i, v in enumerate((x, y, z)):
            self.st.setk(r.loc[0], (("#", C(i), C(0)),), self.conv(v))
        return r

    def coord(self, name):
        return self.xyz("CGeoCoordinate", V(name + "x"), V(name + "y"), V(name + "z"), name)

    def vec(self, v):
        """three components of a coordinate-like value"""
        m = models.as_mat(self.I, v, self.st)
        if isinstance(m, Mat) and m.r * m.c == 3:
            return [m.e[(i, 0)] if m.c == 1 else m.e[(0, i)] for i in range(3)]
        raise Unk("not a 3-vector: %r" % (m,))

    def mat(self, v):
        m = models.as_mat(self.I, v, self.st)
        return m

    def num(self, v):
        v = self.I.rv(v, self.st)
        if isinstance(v, Ref):
            m = models.as_mat(self.I, v, self.st)
            if isinstance(m, Mat) and m.r * m.c == 1:
                return m.e[(0, 0)]
        if isinstance(v, (P, Cond)):
            return self.I.num(v)
        raise Unk("not a number: %r" % (v,))

    def int(self, v):
        v = self.num(v)
        if not v.is_const() or v.cval() != int(v.cval()):
            raise Unk("not a constant: %s" % alg.show(v)[:80])
        return int(v.cval())

    def vector(self, ety, name="v"):
        r = self.tmp(name, "std::vector<%s>" % ety)
        self.st.setk(r.loc[0], ("@size",), ZERO)
        return r

    def size(self, ref):
        return self.int(self.I.size_of(self.st, ref.loc))

    def at(self, ref, i, ety):
        return Ref((ref.loc[0], ref.loc[1] + (("#", C(i)),)), ety)

    def assume(self, *conds):
        """restrict the symbolic inputs of everything evaluated from here on"""
        import pw
        F = pw.Facts()
        for c in conds:
            if c == TRUE:
                continue
            F = F.add(c.a, -1 if c.op == "<" else 0)
        self.I.facts, self.I.resolver = F, pw.resolve

    def enum(self, e, k):
        if e not in self.p.enums or k not in self.p.enums[e]:
            raise Broken("enumerator %s::%s not found" % (e, k))
        return C(self.p.enums[e][k])


class Unk(Exception):
    """the abstract value is not precise enough to decide"""


# an early end of one family of obligations: recorded as undecided, the other families go on
SOFT = (Unk, absint.Unsupported, Broken, ArithmeticError, AttributeError, LookupError, TypeError, ValueError, AssertionError, RecursionError)

