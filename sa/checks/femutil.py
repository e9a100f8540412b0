from scn import *
from fw import *
import os
import alg


class Entries(dict):
    """entries of a matrix of known size; asking for one outside is a failure of the code that sized it"""

    def __init__(self, e, what):
        super().__init__(e)
        self.what = what

    def __missing__(self, k):
        raise absint.Trap("entry %s is missing from the matrix" % (k,), self.what, 0)


class El:
    """a finite element driven symbolically through its public interface"""

    def __init__(self, ctx, cls, pts, rule=None, dim=0):
        self.ctx = ctx
        self.s = s = Scn(ctx.prog)
        self.cls = s.cname(cls)
        self.f = {f[1]: f[2] for f in ctx.prog.allfields(self.cls)}
        if rule:
            self.rule(*rule)
        self.e = s.new(cls)
        for q in pts:
            s.call(self.e, "addVertex", s.xyz("CGeoCoordinate", *q))

    def rule(self, base, n, axes):
        """replaces the tabulated integration rule by n symbolic points"""
        I, s = self.s.I, self.s
        need = ["m_integPoints"] + ["m_" + a for a in axes] + ["m_w" + a for a in axes]
        if any(x not in self.f for x in need):
            raise Unk("integration point storage not found")

        def h(I, f, this, a, st, line):
            st.setk(this.loc[0], this.loc[1] + ("m_integPoints",), C(n))
            for x in axes:
                for pre in ("m_", "m_w"):
                    st.setk(this.loc[0], this.loc[1] + (pre + x, "@size"), C(n))
                    for i in range(n):
                        st.setk(this.loc[0], this.loc[1] + (pre + x, ("#", C(i))), V("%s%s_%d" % (pre[2:], x, i)))
            return absint.VOID
        I.hooks[base + "<double>::setGaussPoints"] = h

    def call(self, name, *a):
        r = self.s.call(self.e, name, *a)
        return r

    def fact_positive(self, p):
        c = absint.compare("<", ZERO, p)
        if c == FALSE:
            raise Unk("measure is not positive")
        if c != TRUE:
            self.s.st.pc = self.s.st.pc + (c,)

    def mat(self, name):
        m = self.s.mat(Ref((self.e.loc[0], self.e.loc[1] + (name,)), self.f[name]))
        if not isinstance(m, Mat):
            raise Unk("%s is not an explicit matrix: %r" % (name, m))
        return Mat(m.r, m.c, Entries(m.e, "%s (%d x %d)" % (name, m.r, m.c)))

    def where(self, meth):
        return self.s.where(self.cls.split("::")[-1].replace(", ", ","), meth)


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = r + x * y
    return r


def same(a, b):
    if isinstance(a, Cond) or isinstance(b, Cond):
        return a == b
    return alg.eq(a, b)


def precise(p):
    """no analysis-unknown value occurs"""
    import pw
    return not any(alg.atom_key(a)[0] in pw.BAD and not pw.indeterminate(alg.atom_key(a)) for a in deep(p))


def deep(p):
    if isinstance(p, P):
        return p.deep_atoms()
    seen = set()
    alg._deep(p, seen)
    return seen


def judge(ctx, key, got, where, msg, sig=False, facts=()):
    """got: list of (label, got, want) normal forms; violated only when precise"""
    bad = [(l, g, w) for l, g, w in got if not same(g, w)]
    if not bad:
        return ctx.ob(key, True, where, "")
    import pw
    r, wit = pw.decide(bad, facts)
    if r is not False:
        return ctx.ob(key, r, where, "" if r else "%s: %s" % (msg, wit))
    l, g, w = bad[0]
    return ctx.ob(key, False, where, "%s: entry %s is %s, expected %s%s" % (msg, l, str(alg.show(g))[:120], str(alg.show(w))[:120], " e.g. at %s: %s instead of %s" % (str(wit[3])[:150], wit[1], wit[2]) if wit else ""), sig=hashof(bad) if sig else None)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def subst(p, f):
    return p.subst(f)


def hashof(bad):
    import hashlib
    return hashlib.sha256(repr([(str(l), canon(g)) for l, g, _ in bad]).encode()).hexdigest()[:16]


def canon(p, d=0):
    """a text that does not depend on interning order"""
    if not isinstance(p, P):
        return repr(p)
    return sorted((sorted((canonatom(a, d), e) for a, e in m), str(c)) for m, c in p.t.items())


def canonatom(a, d=0):
    def ck(x):
        if isinstance(x, P):
            return str(canon(x, d + 1))
        if isinstance(x, Cond):
            return "%s(%s,%s)" % (x.op, ck(x.a), ck(x.b))
        if isinstance(x, tuple):
            return "(" + ",".join(ck(y) for y in x) + ")"
        if isinstance(x, frozenset):
            return "{" + ",".join(sorted(ck(y) for y in x)) + "}"
        return str(x)
    return ck(alg.atom_key(a))


def attempt(ctx, key, where, f):
    try:
        f()
    except absint.Trap as e:
        ctx.ob(key, False, where, "the computation fails: %s" % e, sig=e.what)
    except absint.Unsupported as e:
        ctx.ob(key, None, where, "not evaluated: %s" % e)
    except (Unk, Broken) as e:
        ctx.ob(key, None, where, "not evaluated: %s" % e)
    except Exception as e:
        if os.environ.get("SA_DEV"):
            raise
        ctx.ob(key, None, where, "not evaluated: %s %s" % (type(e).__name__, e))
