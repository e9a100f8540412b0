"""Abstract interpreter over the extracted program.

A function body is interpreted once, structurally, over an abstract store whose
scalars are canonical value numbers (alg.P).  Both arms of an undecided branch are
interpreted and joined with gated values (ite); loops with a constant trip count
are unrolled, all other loops are interpreted once for a generic iteration with
their carried variables abstracted (reductions x += f(i) are recognised).  There
is no path enumeration, no solver and no execution of the code under test."""
import re
import sys
from fractions import Fraction

import alg

ENTERED = {}             # every function the interpretation went into, for the evidence
from alg import P, C, ZERO, ONE

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("op", "a", "b", "_h")

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b
        self._h = hash((op, a, b))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Cond) and self._h == o._h and self.op == o.op and self.a == o.a and self.b == o.b)

    def __ne__(self, o):
        return not self == o

    def deep(self, seen):
        for x in (self.a, self.b):
            if isinstance(x, P):
                x.deep_atoms(seen)
            elif isinstance(x, Cond):
                x.deep(seen)
            elif isinstance(x, (tuple, frozenset)):
                alg._deep(x, seen)

    def subst_with(self, sp):
        if self.op in ("<", "<=", "=="):
            return cmp0(self.op, sp(self.a))
        if self.op == "not":
            return cnot(self.a.subst_with(sp))
        if self.op == "and":
            return cand(self.a.subst_with(sp), self.b.subst_with(sp))
        if self.op == "or":
            return cor(self.a.subst_with(sp), self.b.subst_with(sp))
        if self.op == "ite":
            c, x = self.a
            return cite(c.subst_with(sp), x.subst_with(sp), self.b.subst_with(sp))
        if self.op == "atom":
            return Cond("atom", alg._ksub(self.a, sp))
        return self

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return "(%s %s 0)" % (alg.show(self.a), self.op)
        if self.op == "not":
            return "!" + repr(self.a)
        if self.op in ("and", "or"):
            return "(%r %s %r)" % (self.a, self.op, self.b)
        if self.op == "true":
            return "true"
        if self.op == "false":
            return "false"
        if self.op == "ite":
            return "(%r ? %r : %r)" % (self.a[0], self.a[1], self.b)
        return "<%s>" % (alg.showname(self.a) if isinstance(self.a, tuple) else self.a,)


TRUE = Cond("true")
FALSE = Cond("false")


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a
    if c.op == "<":          # !(p<0)  <=>  -p<=0
        return cmp0("<=", -c.a)
    if c.op == "<=":
        return cmp0("<", -c.a)
    if c.op == "and":
        return cor(cnot(c.a), cnot(c.b))
    if c.op == "or":
        return cand(cnot(c.a), cnot(c.b))
    return Cond("not", c)


def cand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a == b:
        return a
    if cnot(a) == b:
        return FALSE
    return Cond("and", a, b)


def cor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a == b:
        return a
    if cnot(a) == b:
        return TRUE
    return Cond("or", a, b)


def cite(c, a, b):
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return cnot(c)
    if a is TRUE:
        return cor(c, b)
    if b is FALSE:
        return cand(c, a)
    if a is FALSE:
        return cand(cnot(c), b)
    if b is TRUE:
        return cor(cnot(c), a)
    return Cond("ite", (c, a), b)


def cmp0(op, p):
    if p.is_const():
        v = p.cval()
        r = v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0
        return TRUE if r else FALSE
    s = alg.psign(p)
    if s is not None:
        if op == "<" and s in (1, 0.5, 0, -1):
            return TRUE if s == -1 else FALSE
        if op == "<=" and s in (1, -0.5, -1):
            return FALSE if s == 1 else TRUE
        if op == "==" and s in (1, -1):
            return FALSE
    lead = max(m for m in p.t if m)
    s = abs(p.t[lead]) if op != "==" else p.t[lead]
    if s != 1:
        p = p.scale(Fraction(1) / s)
    return Cond(op, p)


def compare(op, x, y):
    if op == "<":
        return cmp0("<", x - y)
    if op == ">":
        return cmp0("<", y - x)
    if op == "<=":
        return cmp0("<=", x - y)
    if op == ">=":
        return cmp0("<=", y - x)
    if op == "==":
        return cmp0("==", x - y)
    return cnot(cmp0("==", x - y))


# ---------------------------------------------------------------- values
class Ref:
    """reference to a location (root, path) of a given C++ type"""
    __slots__ = ("loc", "ty")

    def __init__(self, loc, ty):
        self.loc, self.ty = loc, ty

    def __hash__(self):
        return hash(("Ref", self.loc))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.loc == o.loc

    def __repr__(self):
        return "&%s" % (alg.showname((self.loc[0],) + self.loc[1]),)


class Ptr:
    __slots__ = ("loc", "ty")

    def __init__(self, loc, ty=""):
        self.loc, self.ty = loc, ty

    def __hash__(self):
        return hash(("Ptr", self.loc))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc

    def __repr__(self):
        return "ptr" + repr(self.loc)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(("Str", self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __repr__(self):
        return repr(self.s)


class It:
    """iterator: container location, position (P index, ('key',k) or 'end')"""
    __slots__ = ("loc", "pos", "ety", "rev")

    def __init__(self, loc, pos, ety="", rev=False):
        self.loc, self.pos, self.ety, self.rev = loc, pos, ety, rev

    def __hash__(self):
        return hash(("It", self.loc, self.pos))

    def __eq__(self, o):
        return isinstance(o, It) and self.loc == o.loc and self.pos == o.pos

    def deep(self, seen):
        alg._deep(self.pos, seen)
        alg._deep(self.loc, seen)

    def __repr__(self):
        return "it(%s,%s)" % (self.loc, self.pos)


class Mat:
    """small dense matrix value"""
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e

    def key(self):
        return (self.r, self.c) + tuple(self.e[(i, j)] for i in range(self.r) for j in range(self.c))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Mat) and self.key() == o.key()

    def map(self, f):
        return Mat(self.r, self.c, {k: f(v) for k, v in self.e.items()})

    def __repr__(self):
        return "[" + "; ".join(", ".join(alg.show(self.e[(i, j)]) for j in range(self.c)) for i in range(self.r)) + "]"


class OpM:
    """matrix/vector value of unknown size (opaque, but value-numbered)"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(("OpM", self.k))

    def __eq__(self, o):
        return isinstance(o, OpM) and self.k == o.k

    def deep(self, seen):
        alg._deep(self.k, seen)

    def subst_with(self, sp):
        return OpM(alg._ksub(self.k, sp))

    def __repr__(self):
        return "OpM%r" % (self.k,)


class View:
    """row/column/array view on a matrix location"""
    __slots__ = ("ref", "kind", "i")

    def __init__(self, ref, kind, i=None):
        self.ref, self.kind, self.i = ref, kind, i


class Comma:
    __slots__ = ("ref", "n", "rows", "cols", "view")

    def __init__(self, ref, n, rows, cols, view=None):
        self.ref, self.n, self.rows, self.cols, self.view = ref, n, rows, cols, view


class ListV:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = xs


class FnV:
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid


class Void:
    def __repr__(self):
        return "void"


VOID = Void()
DEL = ("#deleted",)

_ctr = [0]


def fresh(tag):
    _ctr[0] += 1
    return (tag, _ctr[0])


# ---------------------------------------------------------------- store
class St:
    """layered store: root -> path -> value.  Layers below the top are shared."""
    __slots__ = ("layers", "pc")

    def __init__(self, layers=None, pc=()):
        self.layers = layers if layers is not None else [{}]
        self.pc = pc

    def fork(self):
        return St(self.layers + [{}], self.pc)

    def getk(self, root, path):
        for L in reversed(self.layers):
            d = L.get(root)
            if d is not None:
                v = d.get(path)
                if v is not None:
                    return None if v is DEL else v
                if d.get("@cleared"):
                    return None
        return None

    def setk(self, root, path, v):
        L = self.layers[-1]
        d = L.get(root)
        if d is None:
            d = L[root] = {}
        d[path] = v

    def items(self, root):
        """effective path->value map of one root"""
        out = {}
        for L in self.layers:
            d = L.get(root)
            if d:
                if "@cleared" in d:
                    out = {}
                for p, v in d.items():
                    if p == "@cleared":
                        continue
                    if v is DEL:
                        out.pop(p, None)
                    else:
                        out[p] = v
        return out

    def changed(self, depth):
        """(root, path) keys written in layers above depth"""
        ks = set()
        for i, L in enumerate(self.layers[depth:]):
            for r, d in L.items():
                if "@cleared" in d:
                    # everything visible below is (potentially) changed
                    for j in range(depth + i):
                        dd = self.layers[j].get(r)
                        if dd:
                            for p in dd:
                                if p != "@cleared":
                                    ks.add((r, p))
                for p in d:
                    if p != "@cleared":
                        ks.add((r, p))
        return ks


NOTED = False


class Trap(Exception):
    """the analysed code certainly reaches a failing operation (only raised when strict)"""

    def __init__(self, what, fn, line):
        Exception.__init__(self, "%s in %s line %s" % (what, fn, line))
        self.what, self.fn, self.line = what, fn, line


class Unsupported(Exception):
    pass


SCALAR = {"int", "double", "float", "bool", "char", "unsigned int", "unsigned long", "long", "size_t", "short",
          "unsigned char", "unsigned short", "long long", "unsigned long long", "signed char", "long double"}
INTS = SCALAR - {"double", "float", "long double", "bool"}


def strip(t):
    t = t.strip()
    while True:
        if t.endswith("&"):
            t = t[:-1].strip()
        elif t.startswith("const "):
            t = t[6:].strip()
        else:
            return t


def is_scalar(t):
    t = strip(t)
    return t in SCALAR or t.startswith("enum ") or t.endswith("*") or t == "std::_Bit_reference"


def base_of(n):
    """unqualified callee: std::vector<int>::size -> ('std::vector','size')"""
    depth = 0
    out = []
    for ch in n:
        if ch == "<" and not "".join(out).endswith("operator") and not "".join(out).endswith("operator<"):
            depth += 1
        elif ch == ">" and depth > 0:
            depth -= 1
        elif depth == 0:
            out.append(ch)
    s = "".join(out)
    i = s.rfind("::")
    # operator names contain no '::'
    return (s[:i], s[i + 2:]) if i >= 0 else ("", s)


_base_cache = {}


def baseof(n):
    r = _base_cache.get(n)
    if r is None:
        r = _base_cache[n] = base_of(n)
    return r


def targs(t):
    """template arguments of a type string"""
    t = strip(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    body = t[i + 1:-1]
    out, d, cur = [], 0, ""
    for ch in body:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


class Frame:
    __slots__ = ("fn", "this", "id", "rets", "loops", "depth", "vars")

    def __init__(self, fn, this, depth):
        self.fn, self.this, self.depth = fn, this, depth
        self.id = fresh("fr")[1]
        self.rets = []
        self.loops = []
        self.vars = {}


class Interp:
    strict = False
    symdepth = 0

    def __init__(self, prog, opaque=None, max_depth=40, max_unroll=4096, config=None):
        self.p = prog
        self.T = prog.T
        self.opaque = opaque or (lambda f: False)
        self.max_depth = max_depth
        self.max_unroll = max_unroll
        self.events = []
        self.record = True
        self.loopctx = []       # symbolic loops being analysed
        self.callstack = []
        self.unsupported = {}
        self.hooks = {}         # short callee name -> f(interp, fn, this, args, st, line) -> value or NotImplemented
        self.store_hook = None
        self.trips = {}
        self.nofacts = False
        self.cfg = config or {}
        import models
        self.models = models
        self.allow_join_types = True

    # ------------------------------------------------------------ helpers
    facts = None
    limits = {}             # idealised numeric limits
    resolver = None
    solved = None             # when a dict: linear solvers return named unknowns and what they were given is recorded here

    def note(self, what):
        global NOTED
        NOTED = True
        self.unsupported[what] = self.unsupported.get(what, 0) + 1

    def emit(self, kind, st, line=None, **kw):
        if not self.record:
            return
        kw["kind"] = kind
        kw["pc"] = st.pc
        kw["loops"] = tuple(self.loopctx)
        kw["line"] = line
        kw["fn"] = self.callstack[-1]["name"] if self.callstack else None
        kw["stack"] = tuple(f["id"] for f in self.callstack)
        kw["file"] = self.callstack[-1] if self.callstack else None
        self.events.append(kw)

    def trap(self, st, line, what):
        """a failing operation: recorded; certain ones end the evaluation when strict"""
        self.emit("ub", st, line, what=what)
        if self.strict and not st.pc and not self.symdepth:
            raise Trap(what, self.p.short(self.callstack[-1]["name"]) if self.callstack else "?", line)

    # ------------------------------------------------------------ store ops
    def nameof(self, st, loc):
        root, path = loc
        for n in range(len(path), -1, -1):
            v = st.getk(root, path[:n] + ("@name",))
            if v is not None:
                return v + path[n:]
        return (root,) + path

    def init_value(self, st, loc, ty):
        t = strip(ty)
        nm = self.nameof(st, loc)
        # zero-filled arrays
        root, path = loc
        if path and isinstance(path[-1], tuple) and path[-1][0] == "#":
            f = st.getk(root, path[:-1] + ("@fill",))
            if f is not None:
                return f
        if t == "bool" or t == "std::_Bit_reference":
            return Cond("atom", nm)
        if t.endswith("*"):
            return Ptr((("deref",) + nm, ()), t[:-1].strip())
        if t.startswith("std::basic_string"):
            return P.atom(("init", nm))
        return P.atom(("init", nm))

    def maybe_equal(self, a, b):
        """may the two index components denote the same element?"""
        if a == b:
            return True
        if len(a) != len(b):
            return True
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, P) and isinstance(y, P):
                d = x - y
                if d.is_const() and d.t:
                    return False
            elif isinstance(x, Str) and isinstance(y, Str):
                if x != y:
                    return False
        return True

    def load(self, st, loc, ty):
        root, path = loc
        v = st.getk(root, path)
        if v is not None:
            return v
        v = self.load_cases(st, loc, ty)
        if v is not None:
            return v
        # aliasing explicit siblings
        for k in range(len(path)):
            if isinstance(path[k], tuple) and path[k][0] == "#":
                sib = []
                its = None
                its = st.items(root)
                for q, w in its.items():
                    if len(q) == len(path) and q[:k] == path[:k] and q[k + 1:] == path[k + 1:] and isinstance(q[k], tuple) and q[k][0] == "#" and q[k] != path[k] and self.maybe_equal(q[k], path[k]):
                        sib.append((q[k], w))
                fa = its.get(path[:k] + ("@forall",))
                if fa is not None:
                    r = self.match_forall(st, fa, path, k)
                    if r is not None:
                        return r
                if sib:
                    nm = self.nameof(st, loc)
                    key = ("sel", nm, frozenset(sib))
                    t = strip(ty)
                    if t == "bool":
                        return Cond("atom", key)
                    if t.endswith("*"):
                        return Ptr((("deref", key), ()), t[:-1].strip())
                    return P.atom(key)
        return self.init_value(st, loc, ty)

    def load_cases(self, st, loc, ty):
        """an element whose index is a gated constant: the gated element"""
        root, path = loc
        for k, c in enumerate(path):
            if not (isinstance(c, tuple) and c[0] == "#"):
                continue
            for j, x in enumerate(c[1:], 1):
                if not isinstance(x, P) or x.is_const():
                    continue
                for a in x.deep_atoms():
                    key = alg.atom_key(a)
                    if key[0] != "ite" or not isinstance(key[2], P) or not isinstance(key[3], P):
                        continue
                    r = []
                    for leaf in key[2:4]:
                        y = x.subst(lambda b: leaf if b == a else None)
                        if not y.is_const() and len(y.deep_atoms()) >= len(x.deep_atoms()):
                            return None
                        r.append(self.load(st, (root, path[:k] + (c[:j] + (y,) + c[j + 1:],) + path[k + 1:]), ty))
                    if all(isinstance(z, P) for z in r):
                        return alg.ite(key[1], r[0], r[1])
                    return None
        return None

    def match_forall(self, st, facts, path, k):
        for (K, idx, rest, val) in reversed(facts):
            if rest != path[k + 1:]:
                continue
            comp = path[k]
            if len(comp) != 2 or not isinstance(comp[1], P):
                continue
            d = idx.t.get(((K, 1),))
            if d not in (1, -1):
                continue
            off = idx - P({((K, 1),): d})
            if K in off.deep_atoms():
                continue
            sol = (comp[1] - off).scale(d)
            if isinstance(val, P):
                return val.subst(lambda a: sol if a == K else None)
            if isinstance(val, Cond):
                return val.subst_with(lambda p: p.subst(lambda a: sol if a == K else None))
        return None

    def store(self, st, loc, v, line=None, op="=", quiet=False):
        root, path = loc
        if not (isinstance(path, tuple)):
            raise Unsupported("store path")
        for k in range(len(path)):
            if isinstance(path[k], tuple) and path[k][0] == "#":
                simple = all(isinstance(x, P) and x.is_const() for x in path[k][1:])
                its = st.items(root)
                kill = [q for q in its if len(q) > k and q[:k] == path[:k] and isinstance(q[k], tuple) and q[k][0] == "#" and q[k] != path[k] and (q[k + 1:] == path[k + 1:]) and self.maybe_equal(q[k], path[k])]
                if kill:
                    for q in kill:
                        st.setk(root, q, DEL)
                    st.setk(root, path[:k] + ("@name",), (fresh("clob"),))
        if not quiet and self.record:
            self.emit("store", st, line, loc=loc, val=v, op=op, old=None)
        st.setk(root, path, v)

    def clear_prefix(self, st, loc, name=None):
        root, path = loc
        n = len(path)
        if n == 0:
            st.layers[-1][root] = {"@cleared": True}
        else:
            for q in list(st.items(root)):
                if q[:n] == path:
                    st.setk(root, q, DEL)
        if name is not None:
            st.setk(root, path + ("@name",), name)

    def havoc(self, st, loc, tag="havoc"):
        self.clear_prefix(st, loc, (fresh(tag),))

    def copy(self, st, dst, src, line=None, quiet=False):
        if dst == src:
            return
        nm = self.nameof(st, src)
        sr, sp = src
        n = len(sp)
        its = {q: v for q, v in st.items(sr).items() if q[:n] == sp}
        # element of an array written through aliases: name by selection
        self.clear_prefix(st, dst, nm)
        dr, dp = dst
        for q, v in its.items():
            st.setk(dr, dp + q[n:], v)
        if not quiet:
            self.emit("copy", st, line, loc=dst, src=src)

    # ------------------------------------------------------------ merging
    def merge_into(self, base, c, a, b, depth=None):
        """write ite(c, a, b) for every key changed in a or b (forks of base) into base;
        depth: number of layers a and b share"""
        d = len(base.layers) if depth is None else depth
        keys = a.changed(d) | b.changed(d)
        outs = []
        for (r, p) in keys:
            va, vb = a.getk(r, p), b.getk(r, p)
            if va is None and vb is None:
                outs.append((r, p, DEL))
                continue
            if va is not None and (va is vb or va == vb):
                outs.append((r, p, va))
                continue
            last = p[-1] if p else None
            if last == "@name":
                na = va if va is not None else self.nameof(a, (r, p[:-1]))
                nb = vb if vb is not None else self.nameof(b, (r, p[:-1]))
                outs.append((r, p, na if na == nb else (("phi", c, na, nb),)))
                continue
            if last in ("@fill", "@forall", "@type", "@has", "@keys"):
                outs.append((r, p, DEL if va is None or vb is None else (va if va == vb else DEL)))
                continue
            outs.append((r, p, self.merge_val(c, va, vb, a, b, (r, p))))
        for r, p, v in outs:
            base.setk(r, p, v)
        return base

    def merge_val(self, c, va, vb, a, b, key):
        def fill(v, other, s):
            if v is not None:
                return v
            ty = "bool" if isinstance(other, Cond) else ("x*" if isinstance(other, Ptr) else "double")
            if key[1] and key[1][-1] in ("@size", "@rows", "@cols"):
                return self.size_of(s, (key[0], key[1][:-1])) if key[1][-1] == "@size" else self.load(s, key, "int")
            return self.load(s, key, ty)
        x = fill(va, vb, a)
        y = fill(vb, va, b)
        return self.phi(c, x, y)

    def phi(self, c, x, y):
        if x is y or x == y:
            return x
        if isinstance(x, P) and isinstance(y, P):
            return alg.ite(c, x, y)
        if isinstance(x, Cond) and isinstance(y, Cond):
            return cite(c, x, y)
        if isinstance(x, Cond) and isinstance(y, P):
            return alg.ite(c, self.num(x), y)
        if isinstance(y, Cond) and isinstance(x, P):
            return alg.ite(c, x, self.num(y))
        if isinstance(x, (Ptr,)) and isinstance(y, (Ptr,)):
            return Ptr((("phi", c, x, y), ()), x.ty or y.ty)
        if isinstance(x, Ref) and isinstance(y, Ref):
            return Ref((("phi", c, x, y), ()), x.ty)
        if isinstance(x, It) and isinstance(y, It) and x.loc == y.loc:
            return It(x.loc, ("phi", c, x.pos, y.pos), x.ety)
        if isinstance(x, Mat) and isinstance(y, Mat) and (x.r, x.c) == (y.r, y.c):
            return Mat(x.r, x.c, {k: alg.ite(c, x.e[k], y.e[k]) for k in x.e})
        return P.atom(("phi", c, self.k(x), self.k(y)))

    def k(self, v):
        if isinstance(v, (P, Cond, Ptr, Str, It, OpM)):
            return v
        if isinstance(v, Ref):
            return ("ref", v.loc)
        if isinstance(v, Mat):
            return ("mat",) + v.key()
        if isinstance(v, tuple):
            return v
        if v is None or v is VOID:
            return "none"
        if isinstance(v, ListV):
            return ("list",) + tuple(self.k(x) for x in v.xs)
        if isinstance(v, FnV):
            return ("fn", v.fid)
        return type(v).__name__

    def relcond(self, base, s):
        c = TRUE
        for x in s.pc[len(base.pc):]:
            c = cand(c, x)
        return c

    def join_states(self, base, states, depth=None):
        """states: list of forks of base, covering; joins into base, returns base"""
        if not states:
            return None
        if depth is None:
            depth = len(base.layers)
        acc = states[-1]
        accflat = None
        for s in reversed(states[:-1]):
            c = self.relcond(base, s)
            tmp = St(base.layers + [{}], base.pc)
            self.merge_into(tmp, c, s, acc, depth)
            acc = tmp
        # flatten acc into base
        for key in acc.changed(depth):
            v = acc.getk(*key)
            base.setk(key[0], key[1], DEL if v is None else v)
        if len(states) == 1:
            base.pc = acc.pc
        return base

    # ------------------------------------------------------------ numbers
    def num(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, Cond):
            return alg.ite(v, ONE, ZERO)
        if isinstance(v, Mat) and v.r == 1 and v.c == 1:
            return v.e[(0, 0)]
        if v is None or v is VOID:
            return P.atom(fresh("void"))
        return P.atom(("as", self.k(v)))

    def boolean(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, P):
            a = v.single_atom()
            if a is not None:
                k = alg.atom_key(a)
                if k[0] == "ite" and k[2] == ONE and k[3] == ZERO:
                    return k[1]
                if k[0] == "ite" and k[2] == ZERO and k[3] == ONE:
                    return cnot(k[1])
            return cnot(cmp0("==", v))
        if isinstance(v, Ptr):
            return cnot(self.ptr_null(v))
        return Cond("atom", ("truth", self.k(v)))

    def ptr_null(self, p):
        if p.loc is None:
            return TRUE
        if p.loc[0][0] in ("heap", "L", "this"):
            return FALSE
        return Cond("atom", ("null", p.loc))

    def decide(self, c, st):
        """simplify a condition with the facts of the current program point"""
        if c is TRUE or c is FALSE or self.nofacts:
            return c
        if c in st.pc:
            return TRUE
        n = cnot(c)
        if n in st.pc:
            return FALSE
        if self.facts is not None:
            # assumptions about the symbolic inputs of the scenario
            c = self.resolver(c, self.facts, {})
            if c is TRUE or c is FALSE:
                return c
        if c.op == "and":
            return cand(self.decide(c.a, st), self.decide(c.b, st))
        if c.op == "or":
            return cor(self.decide(c.a, st), self.decide(c.b, st))
        if c.op == "not":
            r = self.decide(c.a, st)
            return cnot(r)
        if c.op == "ite":
            return cite(self.decide(c.a[0], st), self.decide(c.a[1], st), self.decide(c.b, st))
        if c.op in ("<", "<=", "=="):
            # equalities known here
            sub = {}
            for f in st.pc:
                if f.op == "==":
                    p = f.a
                    for m, co in p.t.items():
                        if len(m) == 1 and m[0][1] == 1:
                            rest = p - P({m: co})
                            if rest.is_const():
                                sub[m[0][0]] = rest.scale(Fraction(-1) / co)
                                break
            if sub:
                q = c.a.subst(lambda a: sub.get(a))
                if q != c.a:
                    return cmp0(c.op, q)
            # bounds of the same linear form
            for f in st.pc:
                if f.op in ("<", "<=") and c.op in ("<", "<=", "=="):
                    d = c.a - f.a
                    if d.is_const():   # c: q + d (op) 0, f: q <=/< 0
                        dv = d.cval()
                        if c.op in ("<", "<="):
                            if dv < 0 or (dv == 0 and (c.op == "<=" or f.op == "<")):
                                return TRUE
                        elif c.op == "==" and (dv < 0 or (dv == 0 and f.op == "<")):
                            return FALSE
                    d = c.a + f.a
                    if d.is_const():   # c: -q + d op 0 , q<0  =>  -q>0
                        dv = d.cval()
                        if c.op == "<" and dv >= 0:
                            return FALSE
                        if c.op == "<=" and (dv > 0 or (dv == 0 and f.op == "<")):
                            return FALSE
                        if c.op == "==" and (dv > 0 or (dv == 0 and f.op == "<")):
                            return FALSE
        return c

    # ------------------------------------------------------------ types
    def eigen_dims(self, ty):
        t = strip(ty)
        if t.startswith("Eigen::Matrix<"):
            a = targs(t)
            return int(a[1]), int(a[2])
        r = self.p.records.get(t)
        if r:
            for b in r.get("bases", []):
                d = self.eigen_dims(b)
                if d:
                    return d
        return None

    def is_eigen(self, ty):
        t = strip(ty)
        return t.startswith("Eigen::") or self.eigen_dims(t) is not None

    # ------------------------------------------------------------ calls
    def rv(self, v, st):
        """rvalue: load scalars behind references"""
        if isinstance(v, Ref) and is_scalar(v.ty):
            return self.load(st, v.loc, v.ty)
        if isinstance(v, Ref) and strip(v.ty).startswith("std::basic_string"):
            return self.load(st, v.loc, v.ty)
        return v

    def bind_param(self, fr, st, prm, val):
        vid, name, ty = prm
        loc = (("L", fr.id, vid, name), ())
        if strip(ty).endswith("*") and isinstance(val, Ref) and val.ty.rstrip().endswith("]"):
            val = Ptr(val.loc, val.ty[:val.ty.rindex("[")].strip())     # array decays to a pointer to its first element
        if ty.endswith("&"):
            if isinstance(val, Ref):
                fr.vars[vid] = val
                return
            # temporary bound to const reference
        elif isinstance(val, Ref) and not is_scalar(ty):
            if not strip(ty).startswith("std::basic_string"):
                self.copy(st, loc, val.loc, quiet=True)
                fr.vars[vid] = Ref(loc, ty)
                return
            val = self.rv(val, st)
        if isinstance(val, Ref):
            val = self.rv(val, st)
        fr.vars[vid] = Ref(loc, strip(ty))
        if isinstance(val, (Mat, OpM, View)):
            self.models.assign_matrix(self, st, fr.vars[vid], val)
        elif isinstance(val, Ref):
            self.copy(st, loc, val.loc, quiet=True)
        elif isinstance(val, ListV):
            self.models.assign_list(self, st, fr.vars[vid], val)
        elif isinstance(val, Comma):
            self.copy(st, loc, val.ref.loc, quiet=True)
        else:
            st.setk(loc[0], (), val)

    def call(self, f, this, args, st, line=None, qual=False):
        """inline call; this: Ref or None.  Returns value."""
        hk = self.hooks.get(self.p.short(f["name"]))
        if hk is not None:
            r = hk(self, f, this, args, st, line)
            if r is not NotImplemented:
                return r
        if f.get("virtual") and this is not None and not qual:
            dt = st.getk(this.loc[0], this.loc[1] + ("@type",))
            if dt is not None and dt != f.get("cls"):
                g = self.find_override(dt, f)
                if g is not None:
                    f = g
        if "body" not in f and f.get("implicit") and f["kind"] == "method" and f["name"].endswith("::operator=") and len(args) == 1 and isinstance(args[0], Ref):
            self.copy(st, this.loc, args[0].loc, line)
            return this
        if "body" not in f:
            return self.models.external(self, f, this, args, st, line)
        if self.opaque(f) or len(self.callstack) > self.max_depth or sum(1 for g in self.callstack if g["id"] == f["id"]) >= 1:
            return self.opaque_call(f, this, args, st, line)
        if f.get("implicit") and f["kind"] == "method" and f["name"].endswith("::operator=") and len(args) == 1 and isinstance(args[0], Ref):
            self.copy(st, this.loc, args[0].loc, line)
            return this
        return self.inline(f, this, args, st, line)

    def find_override(self, cls, f):
        nm = f["name"].split("::")[-1]
        for c in [cls] + self.p.allbases(cls):
            for g in self.p.bycls.get(c, []):
                if g["name"].split("::")[-1] == nm and len(g["params"]) == len(f["params"]) and "body" in g:
                    return g
        return None

    def opaque_call(self, f, this, args, st, line):
        self.emit("call", st, line, callee=f["name"], this=this, args=args)
        ks = tuple(self.k(self.rv(a, st)) if not (isinstance(a, Ref) and not is_scalar(a.ty)) else ("ref", self.nameof(st, a.loc)) for a in args)
        pure = f.get("const") or f["kind"] == "func" or f.get("static")
        tn = self.nameof(st, this.loc) if this is not None else None
        for (pid, pn, pt), a in zip(f["params"], args):
            if pt.endswith("&") and not pt.startswith("const ") and isinstance(a, Ref):
                self.havoc(st, a.loc, "out:%s:%s" % (self.p.short(f["name"]), pn))
        if this is not None and not f.get("const"):
            self.havoc(st, this.loc, "mut:%s" % self.p.short(f["name"]))
        key = ("call", self.p.short(f["name"]), tn) + ks
        if not pure:
            key = key + (fresh("n"),)
        return self.opaque_value(f["rett"], key, st)

    def opaque_value(self, ty, key, st):
        t = strip(ty)
        if t == "void":
            return VOID
        if t == "bool":
            return Cond("atom", key)
        if t.endswith("*"):
            return Ptr((("deref", key), ()), t[:-1].strip())
        if is_scalar(t) and not ty.endswith("&"):
            return P.atom(key)
        if is_scalar(t):
            return Ref((("ret", key), ()), t)
        if t.startswith("std::basic_string"):
            return P.atom(key)
        return Ref((("ret", key), ()), t)

    def inline(self, f, this, args, st, line=None):
        if "floc" in f:
            ENTERED[f["floc"]] = f
        fr = Frame(f, this, len(self.callstack))
        base = st.fork()
        cur = base
        for prm, a in zip(f["params"], args):
            self.bind_param(fr, cur, prm, a)
        self.callstack.append(f)
        try:
            if f["kind"] == "ctor":
                self.run_inits(f, fr, cur)
            out = self.S(f["body"], cur.fork(), fr)
        finally:
            self.callstack.pop()
        rets = list(fr.rets)
        if out is not None:
            rets.append((out, VOID))
        if not rets:
            # no normal exit (throws / aborts on every path)
            return VOID
        val = self.join_returns(base, rets, f["rett"], fr)
        # flatten into st
        d = len(st.layers)
        for key in base.changed(d):
            r, p = key
            v = base.getk(r, p)
            st.setk(r, p, DEL if v is None else v)
        return val

    def join_returns(self, base, rets, rty, fr):
        d = len(base.layers)
        byval = rty != "void" and not rty.endswith("&") and not is_scalar(rty) and not strip(rty).startswith("std::basic_string") and not strip(rty).startswith("std::_Rb") and not strip(rty).startswith("__gnu_cxx")
        if byval:
            loc = (("L", fr.id, "ret", "ret"), ())
            for s, v in rets:
                self.init_from(s, Ref(loc, strip(rty)), v)
            self.join_states(base, [s for s, _ in rets])
            return Ref(loc, strip(rty))
        vals = []
        for s, v in rets:
            if not rty.endswith("&"):
                v = self.rv(v, s)
            vals.append((self.relcond(base, s), v))
        val = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if val is VOID and v is VOID:
                continue
            val = self.phi(c, v, val)
        pcb = base.pc
        self.join_states(base, [s for s, _ in rets])
        base.pc = pcb
        return val

    def init_from(self, st, ref, v, line=None):
        """initialise the object ref from value v"""
        if isinstance(v, Ref) and not is_scalar(v.ty):
            if strip(ref.ty).startswith("std::basic_string"):
                self.store(st, ref.loc, self.rv(v, st), line)
                return
            self.copy(st, ref.loc, v.loc, line)
        elif isinstance(v, (Mat, OpM, View, Comma)):
            self.models.assign_matrix(self, st, ref, v)
        elif isinstance(v, ListV):
            self.models.assign_list(self, st, ref, v)
        elif v is VOID or v is None:
            pass
        else:
            self.store(st, ref.loc, self.rv(v, st), line)

    # ------------------------------------------------------------ construction
    def default_construct(self, st, ref, line=None, ctor=None, args=()):
        t = strip(ref.ty)
        loc = ref.loc
        self.clear_prefix(st, loc, (("uninit", t, line, fresh("u")[1]),))
        r = self.p.records.get(t)
        if r is not None:
            st.setk(loc[0], loc[1] + ("@type",), t)
        if ctor is not None and "body" in ctor and not ctor.get("implicit"):
            hk = self.hooks.get(self.p.short(ctor["name"]))
            if hk is not None and hk(self, ctor, ref, args, st, line) is not NotImplemented:
                return
            if self.opaque(ctor):
                return
            self.inline(ctor, ref, list(args), st, line)
            return
        if t.startswith("std::vector<") or t.startswith("std::map<") or t.startswith("std::set<") or t.startswith("std::list<") or t.startswith("std::deque<"):
            st.setk(loc[0], loc[1] + ("@size",), ZERO)
            if t.startswith("std::map<"):
                st.setk(loc[0], loc[1] + ("@keys",), ())
            return
        if t.startswith("std::basic_string"):
            st.setk(loc[0], loc[1], Str(""))
            return
        if self.empty_matrix(st, loc, t):
            return
        if r is not None:
            for b in r.get("bases", []):
                if self.is_eigen(b):
                    continue
                br = self.p.records.get(b)
                if br is not None:
                    self.construct_sub(st, Ref(loc, b), line)
            st.setk(loc[0], loc[1] + ("@type",), t)
            for fn_, tid, init, acc, ln in r.get("fields", []):
                ft = self.T[tid]
                if init is not None:
                    continue
                if not is_scalar(ft) and not ft.endswith("&"):
                    self.construct_sub(st, Ref((loc[0], loc[1] + (fn_,)), ft), line)

    def empty_matrix(self, st, loc, t):
        """a default-constructed matrix: dynamic dimensions are zero, entries of a fixed one indeterminate"""
        if t.startswith("Eigen::SparseMatrix"):
            st.setk(loc[0], loc[1] + ("@fill",), ZERO)
            d = (-1, -1)
        elif t.startswith("Eigen::Matrix<"):
            d = self.eigen_dims(t)
        else:
            return self.eigen_dims(t) is not None
        for k, n in zip(("@rows", "@cols"), d):
            if n < 0:
                st.setk(loc[0], loc[1] + (k,), ZERO)
        return True

    def construct_sub(self, st, ref, line):
        """default-construct a subobject, keeping sibling fields"""
        t = strip(ref.ty)
        for g in self.p.bycls.get(t, []):
            if g["kind"] == "ctor" and len(g["params"]) == 0 and "body" in g and not g.get("implicit"):
                if ref.loc[1] and not isinstance(ref.loc[1][-1], str):
                    self.clear_prefix(st, ref.loc, (("uninit", t, line, fresh("u")[1]),))
                self.inline(g, ref, [], st, line)
                return
        if t.startswith("std::vector<") or t.startswith("std::map<"):
            st.setk(ref.loc[0], ref.loc[1] + ("@size",), ZERO)
            if t.startswith("std::map<"):
                st.setk(ref.loc[0], ref.loc[1] + ("@keys",), ())
            return
        if t.startswith("std::basic_string"):
            st.setk(ref.loc[0], ref.loc[1], Str(""))
            return
        if self.empty_matrix(st, ref.loc, t):
            return
        r = self.p.records.get(t)
        if r is not None:
            for b in r.get("bases", []):
                if b in self.p.records:
                    self.construct_sub(st, Ref(ref.loc, b), line)
            for fn_, tid, init, acc, ln in r.get("fields", []):
                ft = self.T[tid]
                if not is_scalar(ft) and not ft.endswith("&"):
                    self.construct_sub(st, Ref((ref.loc[0], ref.loc[1] + (fn_,)), ft), line)

    def run_inits(self, f, fr, st):
        loc = fr.this.loc
        for kind, nm, e, written in f.get("inits", []):
            if kind == "deleg":
                self.construct_expr(e, Ref(loc, fr.this.ty), st, fr)
            elif kind == "base":
                if nm.startswith("Eigen::"):
                    if e[0] == "new" and len(e[3]) == 0:
                        continue
                    if e[0] == "new":
                        vs = [self.E(x, st, fr) for x in e[3]]
                        self.models.construct_eigen(self, Ref(loc, nm), vs, st)
                    else:
                        self.models.assign_matrix(self, st, Ref(loc, nm), self.E(e, st, fr))
                elif e[0] == "new":
                    self.construct_expr(e, Ref(loc, nm), st, fr, sub=True)
            else:
                ft = None
                for o, n, t, i, a, l in self.p.allfields(strip(fr.this.ty)):
                    if n == nm:
                        ft = t
                        break
                fl = (loc[0], loc[1] + (nm,))
                if ft is not None and ft.endswith("&"):
                    v = self.E(e, st, fr)
                    st.setk(fl[0], fl[1], v)
                elif e[0] == "new" and not is_scalar(ft or ""):
                    self.construct_expr(e, Ref(fl, ft or e[1]), st, fr, sub=True)
                else:
                    v = self.E(e, st, fr)
                    self.init_from(st, Ref(fl, ft or "double"), v, f["line"])
                    self.emit("init", st, f["line"], loc=fl, val=v)

    def construct_expr(self, e, ref, st, fr, sub=False):
        """evaluate constructor expression e = ['new', cls, fid, args, ty, line, kind] into ref"""
        _, cls, fid, a, ty, line, kind = e
        f = self.p.F[fid]
        t = self.T[ty]
        if self.models.is_lib(cls):
            args = [self.E(x, st, fr) for x in a]
            v = self.models.construct(self, cls, f, args, st, line, ref, kind)
            if v is not None and not (isinstance(v, Ref) and v.loc == ref.loc):
                self.init_from(st, ref, v, line)
            return
        if kind == "copy" and ("body" not in f or f.get("implicit")):
            v = self.E(a[0], st, fr)
            if isinstance(v, Ref):
                self.copy(st, ref.loc, v.loc, line, quiet=True)
            else:
                self.init_from(st, ref, v, line)
            return
        args = [self.E(x, st, fr) for x in a]
        if sub:
            if "body" in f and not f.get("implicit"):
                if ref.loc[1] and ref.ty == cls and isinstance(ref.loc[1][-1], str):
                    self.clear_prefix(st, ref.loc, (("uninit", cls, line, fresh("u")[1]),))
                hk = self.hooks.get(self.p.short(f["name"]))
                if hk is not None and hk(self, f, ref, args, st, line) is not NotImplemented:
                    return
                if self.opaque(f):
                    return
                self.inline(f, Ref(ref.loc, cls), args, st, line)
            else:
                self.construct_sub(st, Ref(ref.loc, cls), line)
            return
        self.default_construct(st, Ref(ref.loc, cls), line, f, args)

    # ------------------------------------------------------------ statements
    def S(self, s, st, fr):
        """returns the state after normal completion or None"""
        if s is None or st is None:
            return st
        k = s[0]
        if k == "{":
            for x in s[1]:
                st = self.S(x, st, fr)
                if st is None:
                    return None
            return st
        if k == "x":
            if s[1] is not None:
                self.E(s[1], st, fr)
                if s[1][0] == "throw":
                    return None
            return st
        if k == "decl":
            for d in s[1]:
                self.declare(d, st, fr)
            return st
        if k == "if":
            if s[5] is not None:
                st = self.S(s[5], st, fr)
            c = self.decide(self.boolean(self.rv(self.E(s[1], st, fr), st)), st)
            if c is TRUE:
                return self.S(s[2], st, fr)
            if c is FALSE:
                return self.S(s[3], st, fr)
            a = st.fork()
            a.pc = st.pc + (c,)
            b = st.fork()
            b.pc = st.pc + (cnot(c),)
            ra = self.S(s[2], a, fr)
            rb = self.S(s[3], b, fr)
            if ra is None and rb is None:
                return None
            if ra is None:
                return rb
            if rb is None:
                return ra
            # outcomes may themselves have split off exits: condition = what led here
            ca = self.relcond(st, ra)
            self.merge_into(st, c, ra, rb)
            return st
        if k == "ret":
            v = VOID
            if s[1] is not None:
                v = self.E(s[1], st, fr)
                if not fr.fn["rett"].endswith("&"):
                    v = self.rv(v, st)
                    if isinstance(v, View):
                        v = self.models.as_mat(self, v, st)
            self.emit("return", st, s[2], val=v)
            fr.rets.append((st, v))
            return None
        if k == "for":
            if s[1] is not None:
                st = self.S(s[1], st, fr)
            return self.loop(st, fr, s[2], s[3], s[4], s[5])
        if k == "while":
            return self.loop(st, fr, s[1], None, s[2], s[3])
        if k == "do":
            # body once, then while
            ctx = {"brk": [], "cont": []}
            fr.loops.append(ctx)
            entry = st
            out = self.S(s[2], st.fork(), fr)
            fr.loops.pop()
            nxt = self.gather(entry, ctx["cont"] + ([out] if out is not None else []))
            brk = ctx["brk"]
            res = None
            if nxt is not None:
                res = self.loop(nxt, fr, s[1], None, s[2], s[3])
            allx = brk + ([res] if res is not None else [])
            return self.gather(entry, allx)
        if k == "range":
            return self.range_loop(s, st, fr)
        if k == "break":
            fr.loops[-1]["brk"].append(st)
            return None
        if k == "continue":
            for c in reversed(fr.loops):
                if "cont" in c:
                    c["cont"].append(st)
                    break
            return None
        if k == "switch":
            return self.switch(s, st, fr)
        if k == "case":
            return self.S(s[2], st, fr)
        if k == "default":
            return self.S(s[1], st, fr)
        if k == "try":
            return self.S(s[1], st, fr)
        if k == "unkS":
            self.note("stmt " + s[1])
            return st
        raise Unsupported("stmt " + k)

    def gather(self, base, states):
        """join arbitrary descendants of base; returns a state or None"""
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        tmp = base.fork()
        tmp.pc = base.pc
        return self.join_states(tmp, states, len(base.layers))

    def declare(self, d, st, fr):
        vid, name, ty, init, line, storage = d
        t = self.T[ty]
        loc = (("L", fr.id, vid, name), ())
        if t.endswith("&"):
            v = self.E(init, st, fr)
            if isinstance(v, Ref):
                fr.vars[vid] = v
            else:
                ref = Ref(loc, strip(t))
                fr.vars[vid] = ref
                if isinstance(v, (Mat, OpM, View)):
                    fr.vars[vid] = v if isinstance(v, View) else ref
                    if not isinstance(v, View):
                        self.models.assign_matrix(self, st, ref, v)
                else:
                    st.setk(loc[0], (), v)
            return
        ref = Ref(loc, t)
        fr.vars[vid] = ref
        if init is None:
            self.clear_prefix(st, loc, (("uninit", t if strip(t).endswith("]") else name, line, fresh("u")[1]),))
            return
        e = init
        if e[0] == "new" and not is_scalar(t):
            if e[6] == "default" or not self.models.is_lib(e[1]):
                # evaluate args before clearing (self-init not an issue)
                self.construct_expr(e, ref, st, fr)
                return
        v = self.E(e, st, fr)
        if isinstance(v, (FnV,)):
            fr.vars[vid] = v
            return
        self.clear_prefix(st, loc) if not (isinstance(v, Ref) and v.loc == loc) else None
        if is_scalar(t):
            v = self.rv(v, st)
            v = self.convert(v, t)
            st.setk(loc[0], (), v)
            if self.record:
                self.emit("decl", st, line, loc=loc, val=v)
        else:
            if isinstance(v, View):
                v = self.models.as_mat(self, v, st)
            if not (isinstance(v, Ref) and v.loc == loc):
                if isinstance(v, Ref) and not is_scalar(v.ty) and not strip(t).startswith("std::basic_string"):
                    self.copy(st, loc, v.loc, quiet=True)
                elif isinstance(v, (Mat, OpM, Comma)) and (t.startswith("Eigen::") or self.eigen_dims(t) or t.startswith("const Eigen")):
                    if t.startswith("Eigen::Matrix<") or t.startswith("const Eigen::Matrix<") or self.eigen_dims(t):
                        self.models.assign_matrix(self, st, ref, v)
                    else:
                        st.setk(loc[0], (), v)
                elif isinstance(v, ListV):
                    self.models.assign_list(self, st, ref, v)
                else:
                    st.setk(loc[0], (), self.rv(v, st))

    def convert(self, v, t):
        t = strip(t)
        if t == "bool" and isinstance(v, P):
            return self.boolean(v)
        if isinstance(v, Cond) and t != "bool":
            return self.num(v)
        return v

    # -- switch
    def switch(self, s, st, fr):
        v = self.num(self.rv(self.E(s[1], st, fr), st))
        body = s[2][1] if s[2] and s[2][0] == "{" else [s[2]]
        # flatten labels
        items = []

        def flat(x):
            if x is None:
                return
            if x[0] == "case":
                items.append(("case", x[1]))
                flat(x[2])
            elif x[0] == "default":
                items.append(("default", None))
                flat(x[1])
            else:
                items.append(("st", x))
        for x in body:
            flat(x)
        conds = []
        for i, (k, e) in enumerate(items):
            if k == "case":
                cv = self.num(self.E(e, st, fr))
                conds.append((i, self.decide(compare("==", v, cv), st)))
        nod = TRUE
        for _, c in conds:
            nod = cand(nod, cnot(c))
        dflt = [i for i, (k, _) in enumerate(items) if k == "default"]
        ctx = {"brk": []}
        fr.loops.append(ctx)
        cur = None
        taken = FALSE
        decided = [i for i, c in conds if c is TRUE]
        for i, (k, e) in enumerate(items):
            enter = None
            if k == "case":
                c = dict(conds)[i]
                if decided:
                    c = TRUE if i == decided[0] else FALSE
                if c is not FALSE:
                    enter = c
            elif k == "default":
                if not decided and self.decide(nod, st) is not FALSE:
                    enter = nod
            if enter is not None:
                ns = st.fork()
                if enter is not TRUE:
                    ns.pc = st.pc + (enter,)
                if cur is None:
                    cur = ns
                else:
                    cur = self.gather(st, [cur, ns])
            if k == "st" and cur is not None:
                cur = self.S(e, cur, fr)
        fr.loops.pop()
        outs = ctx["brk"] + ([cur] if cur is not None else [])
        if not dflt and not decided and self.decide(nod, st) is not FALSE:
            ns = st.fork()
            ns.pc = st.pc + (nod,)
            outs.append(ns)
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        tmp = st.fork()
        return self.join_states(tmp, outs, len(st.layers))

    # -- loops
    def loop(self, st, fr, cond, inc, body, line):
        exits = []
        base = st
        n = 0
        while True:
            raw = TRUE
            if cond is not None:
                self.nofacts = not self.cfg.get("loopfacts")
                try:
                    raw = self.boolean(self.rv(self.E(cond, st, fr), st))
                finally:
                    self.nofacts = False
            c = self.decide(raw, st)
            if c is FALSE:
                exits.append(st)
                break
            if raw is not TRUE or n > self.max_unroll or (cond is None):
                r = self.symloop(st, fr, cond, inc, body, line)
                if r is not None:
                    exits.append(r)
                break
            if n >= self.cfg.get("unroll", self.max_unroll):
                r = self.symloop(st, fr, cond, inc, body, line)
                if r is not None:
                    exits.append(r)
                break
            if n >= self.cfg.get("truncate", n + 1):
                exits.append(st)          # the partial computation over the first iterations
                break
            n += 1
            ctx = {"brk": [], "cont": []}
            fr.loops.append(ctx)
            entry = st
            out = self.S(body, st.fork() if n % 16 == 1 else st, fr)
            fr.loops.pop()
            exits.extend(ctx["brk"])
            nx = ctx["cont"] + ([out] if out is not None else [])
            st = self.gather(entry, nx) if len(nx) > 1 else (nx[0] if nx else None)
            if st is None:
                break
            if len(st.layers) - len(base.layers) > 12:
                st = self.compact(base, st)
            if inc is not None:
                self.E(inc, st, fr)
        return self.gather(base, exits)

    def compact(self, base, st):
        d = len(base.layers)
        ns = St(base.layers + [{}], st.pc)
        for L in st.layers[d:]:
            for r, dd in L.items():
                if "@cleared" in dd:
                    ns.layers[-1][r] = {"@cleared": True}
                t = ns.layers[-1].setdefault(r, {})
                for p, v in dd.items():
                    if p != "@cleared":
                        t[p] = v
        return ns

    def run_iter(self, st, fr, cond, inc, body, ctxout, pre=None):
        """one generic iteration from state st; returns next-iteration state"""
        if pre is not None:
            pre(st)
        ctx = {"brk": [], "cont": []}
        c = TRUE
        if cond is not None:
            c = self.decide(self.boolean(self.rv(self.E(cond, st, fr), st)), st)
        if c is not TRUE:
            st.pc = st.pc + (c,)
        ctxout["cond"] = c
        fr.loops.append(ctx)
        out = self.S(body, st.fork(), fr)
        fr.loops.pop()
        ctxout["brk"] = ctx["brk"]
        nx = ctx["cont"] + ([out] if out is not None else [])
        if not nx:
            return None
        r = self.gather(st, nx) if len(nx) > 1 else nx[0]
        if inc is not None and r is not None:
            self.E(inc, r, fr)
        return r

    def symloop(self, *a, **kw):
        self.symdepth += 1
        try:
            return self.symloop_(*a, **kw)
        finally:
            self.symdepth -= 1

    def symloop_(self, st, fr, cond, inc, body, line, pre=None, kname=None, extra=None):
        lid = fresh("loop")
        K = P.atom(("it", lid[1]))
        Kid = K.single_atom()
        d = len(st.layers)
        nrets = len(fr.rets)
        # discover what an iteration writes
        rec, self.record = self.record, False
        lcs = {}      # (root,path) -> LC atom or induction
        names = set()
        try:
            changed = set()
            for rnd in range(4):
                s0 = st.fork()
                self.apply_lc(s0, st, changed, lid, K, lcs, fr)
                fr.rets[nrets:] = []
                ctxo = {}
                mark = len(s0.layers)
                nxt = self.run_iter(s0.fork(), fr, cond, inc, body, ctxo, pre and (lambda x: pre(x, K)))
                new = set()
                outs = ([nxt] if nxt is not None else [])
                for o in outs + ctxo["brk"]:
                    new |= o.changed(mark)
                for o, _ in fr.rets[nrets:]:
                    new |= o.changed(mark)
                new = {k for k in new if self.outer_key(st, k, fr)}
                # induction discovery
                for k in new:
                    if k in lcs and lcs[k][0] == "lc" and nxt is not None and not ctxo["brk"]:
                        v = nxt.getk(*k)
                        o = lcs[k][1]
                        if isinstance(v, P) and isinstance(o, P) and k[1][-1:] not in (("@name",), ("@fill",)):
                            dl = v - o
                            if dl.t and lcs[k][2] is not None and self.invariant(dl, Kid, lid):
                                lcs[k] = ("ind", lcs[k][2] + K * dl, lcs[k][2], dl)
                                new.add(k)
                    elif k in lcs and lcs[k][0] == "lc" and nxt is not None and ctxo["brk"]:
                        v = nxt.getk(*k)
                        o = lcs[k][1]
                        if isinstance(v, P) and isinstance(o, P) and k[1][-1:] not in (("@name",), ("@fill",)):
                            dl = v - o
                            if dl.t and lcs[k][2] is not None and self.invariant(dl, Kid, lid):
                                lcs[k] = ("ind", lcs[k][2] + K * dl, lcs[k][2], dl)
                    if k in lcs and lcs[k][0] == "lcit" and nxt is not None:
                        pass
                if new <= changed and rnd >= 2:
                    break
                changed |= new
        finally:
            self.record = rec
        fr.rets[nrets:] = []
        s0 = st.fork()
        self.apply_lc(s0, st, changed, lid, K, lcs, fr)
        ctxo = {}
        self.loopctx.append((lid[1], Kid, line))
        try:
            it = s0.fork()
            it.pc = s0.pc
            nxt = self.run_iter(it, fr, cond, inc, body, ctxo, pre and (lambda x: pre(x, K)))
        finally:
            self.loopctx.pop()
        # returns from inside a generic iteration: guard by an opaque "some iteration" condition
        newr = fr.rets[nrets:]
        fr.rets[nrets:] = []
        res = st.fork()
        lcatoms = {v[1].single_atom() for v in lcs.values() if v[0] == "lc" and isinstance(v[1], P)}
        # state after the loop
        allk = set(changed)
        mark = len(s0.layers)
        final = nxt
        hasbrk = bool(ctxo["brk"]) or bool(newr)
        niter = self.trip(cond, st, fr, lcs, K, extra)
        self.trips[lid[1]] = niter
        forall = {}
        for k in allk:
            root, path = k
            last = path[-1] if path else None
            if last in ("@cleared",):
                continue
            symidx = [i for i, c in enumerate(path) if isinstance(c, tuple) and c[0] == "#" and any(isinstance(x, P) and (Kid in x.deep_atoms() or lcatoms & x.deep_atoms()) for x in c[1:])]
            v = final.getk(*k) if final is not None else None
            if symidx:
                i = symidx[0]
                arr = (root, path[:i])
                forall.setdefault(arr, []).append((Kid, path[i], path[i + 1:], v))
                continue
            if last in ("@name", "@fill", "@forall", "@type"):
                if last == "@name":
                    res.setk(root, path, (("loopw", lid[1], root) + path,))
                else:
                    res.setk(root, path, DEL)
                continue
            lc = lcs.get(k)
            if v is None:
                res.setk(root, path, DEL)
                continue
            if lc is None:
                res.setk(root, path, self.after_opaque(v, lid, k))
                continue
            if lc[0] == "ind":
                if niter is not None and not hasbrk:
                    res.setk(root, path, lc[2] + niter * lc[3])
                else:
                    res.setk(root, path, P.atom(("after", lid[1]) + k))
                continue
            if isinstance(v, P) and isinstance(lc[1], P) and not hasbrk and lc[2] is not None:
                dl = v - lc[1]
                da = dl.deep_atoms()
                if not dl.t:
                    res.setk(root, path, lc[2])
                    continue
                if lc[1].single_atom() not in da and not (lcatoms & da):
                    # reduction: x_final = x_init + sum_K dl
                    if Kid not in da and niter is not None:
                        res.setk(root, path, lc[2] + dl * niter)
                    else:
                        res.setk(root, path, lc[2] + P.atom(("sum", lid[1], niter if niter is not None else "?", dl)))
                    continue
            res.setk(root, path, self.after_opaque(v, lid, k))
        for arr, fs in forall.items():
            root, path = arr
            its = st.items(root)
            self.clear_arr(res, root, path)
            res.setk(root, path + ("@name",), (("loopw", lid[1], root) + path,))
            facts = tuple((Kd, comp[1], rest, v) for Kd, comp, rest, v in fs if len(comp) == 2 and isinstance(comp[1], P) and isinstance(v, (P, Cond)) and not hasbrk)
            if facts:
                res.setk(root, path + ("@forall",), facts)
        for s, v in newr:
            # descendants of s0; re-root on st: keep their effects, guard unknown
            g = Cond("atom", ("someiter", lid[1], self.relcond(st, s)))
            ns = St(s.layers, st.pc + (g,))
            fr.rets.append((ns, v))
            res.pc = res.pc + (cnot(g),)
        return res

    def invariant(self, p, Kid, lid):
        """does the value depend neither on the iteration nor on anything the loop carries?"""
        if p.is_const():
            return True
        for a in p.deep_atoms():
            if a == Kid:
                return False
            k = alg.atom_key(a)
            if k[0] in ("lc", "sum", "after", "loopc", "loopw", "havoc", "clob", "unk") or (k[0] == "init" and isinstance(k[1], tuple) and k[1] and isinstance(k[1][0], tuple) and k[1][0][0] in ("loopc", "loopw", "clob", "mut", "uninit")):
                return False
        return True

    def after_opaque(self, v, lid, k):
        if isinstance(v, Cond):
            return Cond("atom", ("after", lid[1]) + k)
        if isinstance(v, Ptr):
            return Ptr((("after", lid[1]) + k, ()), v.ty)
        if isinstance(v, It):
            return It(v.loc, ("after", lid[1]), v.ety)
        if isinstance(v, Ref):
            return Ref((("after", lid[1]) + k, ()), v.ty)
        return P.atom(("after", lid[1]) + k)

    def clear_arr(self, st, root, path):
        n = len(path)
        for q in list(st.items(root)):
            if q[:n] == path and len(q) > n and isinstance(q[n], tuple) and q[n][0] == "#":
                st.setk(root, q, DEL)

    def outer_key(self, st, k, fr):
        """does the key belong to an object existing before the loop iteration?"""
        root, path = k
        if root and root[0] == "L":
            # locals of inlined frames or variables declared inside the body have no binding yet
            for L in st.layers:
                if root in L:
                    return True
            return False
        if root and root[0] in ("heap", "tmp"):
            for L in st.layers:
                if root in L:
                    return True
            return False
        return True

    def apply_lc(self, s0, st, changed, lid, K, lcs, fr):
        for k in changed:
            root, path = k
            last = path[-1] if path else None
            if any(isinstance(c, tuple) and c[0] == "#" and any(isinstance(x, P) and K.single_atom() in x.deep_atoms() for x in c[1:]) for c in path):
                # array written at an iteration-dependent index
                i = [j for j, c in enumerate(path) if isinstance(c, tuple) and c[0] == "#"][0]
                for j, c in enumerate(path):
                    if isinstance(c, tuple) and c[0] == "#" and any(isinstance(x, P) and K.single_atom() in x.deep_atoms() for x in c[1:]):
                        i = j
                        break
                self.clear_arr(s0, root, path[:i])
                s0.setk(root, path[:i] + ("@name",), (("loopc", lid[1], root) + path[:i],))
                continue
            if last in ("@fill", "@forall"):
                continue
            if last == "@type":
                continue
            if last == "@keys":
                self.models.forget_keys(s0, (root, path[:-1]))
                continue
            if last == "@name":
                s0.setk(root, path, (("loopc", lid[1], root) + path,))
                continue
            if k in lcs:
                s0.setk(root, path, lcs[k][1])
                continue
            init = st.getk(root, path)
            if init is None:
                if last == "@size":
                    init = self.size_of(st, (root, path[:-1]))
                elif isinstance(last, tuple) or True:
                    try:
                        init = self.load(st, k, "double")
                    except Exception:
                        init = None
            if isinstance(init, Cond):
                v = Cond("atom", ("lc", lid[1]) + k)
            elif isinstance(init, Ptr):
                v = Ptr((("lc", lid[1]) + k, ()), init.ty)
            elif isinstance(init, It):
                v = It(init.loc, ("lc", lid[1], root) + path, init.ety)
                if isinstance(init.pos, P):
                    v = It(init.loc, init.pos + K, init.ety)
                lcs[k] = ("lcit", v, init)
                s0.setk(root, path, v)
                continue
            elif isinstance(init, Ref):
                v = Ref((("lc", lid[1]) + k, ()), init.ty)
            elif isinstance(init, (Str,)):
                v = P.atom(("lc", lid[1]) + k)
            else:
                v = P.atom(("lc", lid[1]) + k)
            lcs[k] = ("lc", v, init if isinstance(init, P) else None)
            s0.setk(root, path, v)

    def trip(self, cond, st, fr, lcs, K, extra):
        """number of iterations when the condition is (induction < bound)"""
        if extra is not None:
            return extra
        if cond is None or cond[0] != "bin" or cond[1] not in ("<", "<=", ">", ">=", "!="):
            return None
        s = st.fork()
        rec, self.record = self.record, False
        try:
            for k, v in lcs.items():
                if v[0] == "ind":
                    s.setk(k[0], k[1], v[1])
                elif v[0] == "lc":
                    s.setk(k[0], k[1], v[1])
            l = self.rv(self.E(cond[2], s, fr), s)
            r = self.rv(self.E(cond[3], s, fr), s)
        finally:
            self.record = rec
        if not (isinstance(l, P) and isinstance(r, P)):
            return None
        Kid = K.single_atom()
        op = cond[1]
        if op in (">", ">="):
            l, r = r, l
            op = {">": "<", ">=": "<="}[op]
        d = l - r      # continue while d < 0
        co = d.t.get(((Kid, 1),))
        rest = d - P({((Kid, 1),): co}) if co else d
        if co is None or Kid in rest.deep_atoms():
            return None
        lca = {v[1].single_atom() for v in lcs.values() if v[0] == "lc" and isinstance(v[1], P)}
        if lca & rest.deep_atoms():
            return None
        if co == 1 and op == "<":
            return -rest
        if co == 1 and op == "<=":
            return -rest + ONE
        if op == "!=" and co in (1, -1):
            return rest.scale(-co)
        return None

    def range_loop(self, s, st, fr):
        _, d, rng, body, line = s
        vid, name, ty, init, dl, _sto = d
        t = self.T[ty]
        v = self.E(rng, st, fr)
        if isinstance(v, ListV):
            exits = []
            cur = st
            for x in v.xs:
                ctx = {"brk": [], "cont": []}
                fr.loops.append(ctx)
                loc = (("L", fr.id, vid, name), ())
                fr.vars[vid] = Ref(loc, strip(t))
                self.init_from(cur, fr.vars[vid], x)
                out = self.S(body, cur.fork(), fr)
                fr.loops.pop()
                exits += ctx["brk"]
                cur = self.gather(cur, ctx["cont"] + ([out] if out is not None else []))
                if cur is None:
                    break
            return self.gather(st, exits + ([cur] if cur is not None else []))
        if not isinstance(v, Ref):
            self.note("range over value")
            loc = (fresh("tmp"), ())
            st.setk(loc[0], (), v)
            v = Ref(loc, "?")
        ct = strip(v.ty)
        ta = targs(ct)
        ismap = ct.startswith("std::map<") or ct.startswith("std::unordered_map<")
        n = None
        if ct.startswith("std::array<") and len(ta) > 1:
            n = C(int(ta[1]))
        elif re.match(r".*\[\d+\]$", ct):
            n = C(int(re.match(r".*\[(\d+)\]$", ct).group(1)))
        else:
            n = self.size_of(st, v.loc)
        ety = ta[0] if ta else (re.sub(r"\[\d+\]$", "", ct))

        def bind(x, idx):
            if ismap:
                key = self.models.map_key_at(self, x, v.loc, idx)
                loc = (("L", fr.id, vid, name), ())
                fr.vars[vid] = Ref(loc, strip(t))
                x.setk(loc[0], ("first",), key)
                x.setk(loc[0], ("second",), Ref((v.loc[0], v.loc[1] + (("#", key),)), ta[1] if len(ta) > 1 else "?"))
                return
            el = Ref((v.loc[0], v.loc[1] + (("#", idx),)), ety)
            if t.endswith("&"):
                fr.vars[vid] = el
            else:
                loc = (("L", fr.id, vid, name), ())
                fr.vars[vid] = Ref(loc, strip(t))
                if is_scalar(t):
                    x.setk(loc[0], (), self.rv(el, x))
                else:
                    self.copy(x, loc, el.loc, quiet=True)
        if n.is_const() and n.cval() <= self.max_unroll:
            exits = []
            cur = st
            for i in range(int(n.cval())):
                ctx = {"brk": [], "cont": []}
                fr.loops.append(ctx)
                bind(cur, C(i))
                out = self.S(body, cur.fork(), fr)
                fr.loops.pop()
                exits += ctx["brk"]
                cur = self.gather(cur, ctx["cont"] + ([out] if out is not None else []))
                if cur is None:
                    break
            return self.gather(st, exits + ([cur] if cur is not None else []))
        return self.symloop(st, fr, None, None, body, line, pre=lambda x, K: bind(x, K), extra=n)

    def size_of(self, st, loc):
        v = st.getk(loc[0], loc[1] + ("@size",))
        if v is not None:
            return v
        return P.atom(("size", self.nameof(st, loc)))

    # ------------------------------------------------------------ expressions
    def E(self, e, st, fr):
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expr " + k)
            return P.atom(fresh("unk"))
        return m(e, st, fr)

    def RV(self, e, st, fr):
        return self.rv(self.E(e, st, fr), st)

    def e_int(self, e, st, fr):
        return C(e[1])

    def e_flt(self, e, st, fr):
        s = e[1]
        return C(Fraction(s))

    def e_bool(self, e, st, fr):
        return TRUE if e[1] else FALSE

    def e_str(self, e, st, fr):
        return Str(e[1])

    def e_chr(self, e, st, fr):
        return C(e[1])

    def e_null(self, e, st, fr):
        return Ptr(None)

    def e_zero(self, e, st, fr):
        t = strip(self.T[e[1]])
        if t == "bool":
            return FALSE
        if t.endswith("*"):
            return Ptr(None)
        return ZERO

    def e_enum(self, e, st, fr):
        return C(e[2])

    def e_this(self, e, st, fr):
        return Ptr(fr.this.loc, fr.this.ty)

    def e_var(self, e, st, fr):
        v = fr.vars.get(e[1])
        if v is None:
            # captured / undeclared: symbolic
            loc = (("L", fr.id, e[1], e[2]), ())
            v = Ref(loc, self.T[e[3]])
            fr.vars[e[1]] = v
        if isinstance(v, Ref):
            # objects holding opaque matrix expressions
            if not is_scalar(v.ty):
                x = st.getk(v.loc[0], v.loc[1])
                if isinstance(x, (Mat, OpM, It, FnV, View)):
                    return x if not isinstance(x, It) else v
        return v

    def e_glob(self, e, st, fr):
        g = self.p.globals[e[1]]
        t = self.T[g[1]]
        loc = (("glob", e[2]), ())
        v = st.getk(loc[0], ())
        if v is None and g[2] is not None and (t.startswith("const ") or strip(t).startswith("const")):
            try:
                if is_scalar(t):
                    return self.RV(g[2], st, fr)
                ref = Ref(loc, strip(t))
                x = self.E(g[2], st, fr)
                self.init_from(st, ref, x)
                return ref
            except Unsupported:
                pass
        return Ref(loc, strip(t))

    def e_fn(self, e, st, fr):
        return FnV(e[2])

    def e_ref(self, e, st, fr):
        return P.atom(("ref", e[1]))

    def e_lambda(self, e, st, fr):
        return FnV(e[1])

    def field(self, st, ref, name, ty):
        loc = (ref.loc[0], ref.loc[1] + (name,))
        v = st.getk(*loc)
        if isinstance(v, Ref):
            return v if v.ty != "?" else Ref(v.loc, ty)
        return Ref(loc, ty)

    def e_mem(self, e, st, fr):
        b = self.E(e[1], st, fr)
        ty = self.T[e[3]]
        b = self.deref(b, st)
        if isinstance(b, Ref):
            return self.field(st, b, e[2], ty)
        self.note("member of value")
        return self.opaque_value(ty + "&", ("fld", self.k(b), e[2]), st)

    def deref(self, b, st):
        """object reference behind a pointer/iterator value"""
        if isinstance(b, Ref) and (b.ty.strip().endswith("*") or strip(b.ty).endswith("*")):
            b = self.load(st, b.loc, b.ty)
        if isinstance(b, Ref):
            x = st.getk(b.loc[0], b.loc[1])
            if isinstance(x, It):
                b = x
        if isinstance(b, Ptr):
            if b.loc is None:
                return Ref((("nullderef",), ()), b.ty)
            return Ref(b.loc, b.ty)
        if isinstance(b, It):
            return self.models.deref_it(self, b, st)
        return b

    def e_cast(self, e, st, fr):
        k = e[1]
        v = self.E(e[2], st, fr)
        if k == "d2b" or k == "b2d":
            if isinstance(v, Ref):
                return v
            return v
        if k == "bool":
            return self.boolean(self.rv(v, st))
        v = self.rv(v, st)
        if k == "f2i":
            v = self.num(v)
            return alg.fn("trunc", v)
        if k == "i2f":
            return self.num(v)
        if k == "void":
            return VOID
        return v

    def e_un(self, e, st, fr):
        op = e[1]
        if op == "*":
            v = self.E(e[2], st, fr)
            return self.deref(v, st) if not isinstance(v, Ref) or is_scalar(v.ty) or isinstance(st.getk(*v.loc), It) else v
        if op == "&":
            v = self.E(e[2], st, fr)
            if isinstance(v, Ref):
                return Ptr(v.loc, v.ty)
            return P.atom(("addr", self.k(v)))
        if op in ("++", "--", "++post", "--post"):
            v = self.E(e[2], st, fr)
            if isinstance(v, Ref):
                old = self.load(st, v.loc, v.ty)
                if isinstance(old, P):
                    new = old + ONE if op[0] == "+" else old - ONE
                    self.store(st, v.loc, new, e[3], op[:2])
                    return old if op.endswith("post") else v
            self.note("incdec")
            return P.atom(fresh("unk"))
        v = self.RV(e[2], st, fr)
        if op == "-":
            if isinstance(v, Cond):
                v = self.num(v)
            return -v if isinstance(v, P) else P.atom(("neg", self.k(v)))
        if op == "+":
            return v
        if op == "!":
            return cnot(self.decide(self.boolean(v), st))
        self.note("unary " + op)
        return P.atom(("un", op, self.k(v)))

    def e_bin(self, e, st, fr):
        op = e[1]
        if op in ("&&", "||"):
            a = self.decide(self.boolean(self.RV(e[2], st, fr)), st)
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            # right operand evaluated under the left's outcome
            s2 = st.fork()
            s2.pc = st.pc + ((a,) if op == "&&" else (cnot(a),)) if a not in (TRUE, FALSE) else st.pc
            b = self.decide(self.boolean(self.RV(e[3], s2, fr)), s2)
            ch = s2.changed(len(st.layers))
            if ch:
                self.merge_into(st, a if op == "&&" else cnot(a), s2, st.fork())
            return cand(a, b) if op == "&&" else cor(a, b)
        if op == ",":
            self.E(e[2], st, fr)
            return self.E(e[3], st, fr)
        a = self.RV(e[2], st, fr)
        b = self.RV(e[3], st, fr)
        return self.binop(op, a, b, self.T[e[5]], st)

    def binop(self, op, a, b, ty, st):
        if op in ("==", "!="):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                r = None
                if isinstance(a, P) and not a.t:
                    a = Ptr(None)
                if isinstance(b, P) and not b.t:
                    b = Ptr(None)
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.loc == b.loc:
                        r = TRUE
                    elif a.loc is None:
                        r = self.ptr_null(b)
                    elif b.loc is None:
                        r = self.ptr_null(a)
                    else:
                        r = Cond("atom", ("ptreq", a.loc, b.loc))
                else:
                    r = Cond("atom", ("eq", self.k(a), self.k(b)))
                r = self.decide(r, st)
                return r if op == "==" else cnot(r)
            if isinstance(a, Str) and isinstance(b, Str):
                r = TRUE if a == b else FALSE
                return r if op == "==" else cnot(r)
            if isinstance(a, Cond) and isinstance(b, Cond):
                r = cite(a, b, cnot(b))
                return r if op == "==" else cnot(r)
            if isinstance(a, Cond) and isinstance(b, P) and b.is_const():
                r = a if b.cval() == 1 else (cnot(a) if b.cval() == 0 else FALSE)
                return r if op == "==" else cnot(r)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.decide(compare(op, self.num(a), self.num(b)), st)
        a, b = self.num(a), self.num(b)
        isint = strip(ty) in INTS
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if not b.t and self.strict:
                self.trap(st, 0, "division by zero")
            if isint:
                if a.is_const() and b.is_const() and b.t:
                    x, y = a.cval(), b.cval()
                    q = abs(x) // abs(y)
                    return C(q if (x >= 0) == (y >= 0) else -q)
                if b.is_const() and b.t and all(c % b.cval() == 0 for c in a.t.values()):
                    return a.scale(Fraction(1) / b.cval())
                return P.atom(("fn", "idiv", a, b))
            return a / b
        if op == "%":
            if a.is_const() and b.is_const() and b.t:
                x, y = a.cval(), b.cval()
                r = abs(x) % abs(y)
                return C(r if x >= 0 else -r)
            return P.atom(("fn", "mod", a, b))
        if a.is_const() and b.is_const() and all(isinstance(x.cval(), int) for x in (a, b)):
            x, y = a.cval(), b.cval()
            if op == "&":
                return C(x & y)
            if op == "|":
                return C(x | y)
            if op == "^":
                return C(x ^ y)
            if op == "<<":
                return C(x << y)
            if op == ">>":
                return C(x >> y)
        return P.atom(("fn", "op" + op, a, b))

    def e_asg(self, e, st, fr):
        op = e[1]
        rhs = self.E(e[3], st, fr)
        tgt = self.E(e[2], st, fr)
        if not isinstance(tgt, Ref):
            if isinstance(tgt, P) or tgt is VOID:
                self.note("assign to value")
                return tgt
            self.note("assign to " + type(tgt).__name__)
            return tgt
        if op == "=":
            if is_scalar(tgt.ty):
                v = self.convert(self.rv(rhs, st), tgt.ty)
                if isinstance(v, Ref):
                    v = self.rv(v, st)
                self.store_scalar(st, tgt, v, e[4], "=")
            else:
                self.init_from(st, tgt, rhs, e[4])
            return tgt
        old = self.load(st, tgt.loc, tgt.ty)
        v = self.rv(rhs, st)
        if isinstance(old, Cond) and op in ("&=", "|="):
            b = self.boolean(v)
            n = cand(old, b) if op == "&=" else cor(old, b)
            self.store_scalar(st, tgt, n, e[4], op)
            return tgt
        n = self.binop(op[:-1], old, v, tgt.ty, st)
        self.store_scalar(st, tgt, n, e[4], op, old=old)
        return tgt

    def store_scalar(self, st, ref, v, line, op="=", old=None):
        if self.record:
            if old is None:
                r0, self.record = self.record, False
                try:
                    old = self.load(st, ref.loc, ref.ty)
                finally:
                    self.record = r0
            self.emit("store", st, line, loc=ref.loc, val=v, op=op, old=old, ty=ref.ty, nm=self.nameof(st, ref.loc))
        self.store(st, ref.loc, v, line, op, quiet=True)

    def e_cond(self, e, st, fr):
        c = self.decide(self.boolean(self.RV(e[1], st, fr)), st)
        if c is TRUE:
            return self.E(e[2], st, fr)
        if c is FALSE:
            return self.E(e[3], st, fr)
        a = st.fork()
        a.pc = st.pc + (c,)
        b = st.fork()
        b.pc = st.pc + (cnot(c),)
        va = self.E(e[2], a, fr)
        vb = self.E(e[3], b, fr)
        if isinstance(va, Ref) and isinstance(vb, Ref) and (is_scalar(va.ty) or va.loc != vb.loc):
            if is_scalar(va.ty):
                va, vb = self.rv(va, a), self.rv(vb, b)
        else:
            va, vb = self.rv(va, a), self.rv(vb, b)
        self.merge_into(st, c, a, b)
        return self.phi(c, va, vb)

    def e_idx(self, e, st, fr):
        b = self.E(e[1], st, fr)
        i = self.num(self.RV(e[2], st, fr))
        if isinstance(b, Ref):
            t = strip(b.ty)
            m = re.match(r"(.*?)((?:\[\d+\])+)$", t)
            if m:
                dims = re.findall(r"\[\d+\]", m.group(2))
                et = m.group(1).strip() + "".join(dims[1:])
                return Ref((b.loc[0], b.loc[1] + (("#", i),)), et)
            if t.endswith("*"):
                b = self.load(st, b.loc, b.ty)
        if isinstance(b, Ptr) and b.loc is not None:
            return Ref((b.loc[0], b.loc[1] + (("#", i),)), b.ty)
        if isinstance(b, Str) and i.is_const() and 0 <= i.cval() < len(b.s):
            return C(ord(b.s[i.cval()]))
        self.note("subscript of value")
        return P.atom(("idx", self.k(b), i))

    def e_list(self, e, st, fr):
        return ListV([self.E(x, st, fr) for x in e[1]])

    def e_heap(self, e, st, fr):
        t = self.T[e[1]]
        loc = (("heap",) + fresh("h") + (e[4],), ())
        self.emit("new", st, e[4], loc=loc, ty=t)
        if e[2] is not None and e[2][0] == "new":
            self.construct_expr(e[2], Ref(loc, t), st, fr)
        else:
            self.clear_prefix(st, loc, (("uninit", "heap", e[4], loc[0][2]),))
        if e[3] is not None:
            n = self.RV(e[3], st, fr)
            if isinstance(n, P):
                st.setk(loc[0], ("@size",), n)
        return Ptr(loc, t)

    def e_delete(self, e, st, fr):
        v = self.RV(e[1], st, fr)
        self.emit("delete", st, e[3], val=v)
        return VOID

    def e_throw(self, e, st, fr):
        self.emit("throw", st, e[2])
        if self.strict:
            self.trap(st, e[2], "throw")
        return VOID

    def e_unk(self, e, st, fr):
        for x in e[2] if isinstance(e[2], list) else []:
            self.E(x, st, fr)
        self.note("unk " + str(e[1]))
        return P.atom(fresh("unk"))

    def e_new(self, e, st, fr):
        _, cls, fid, a, ty, line, kind = e
        t = self.T[ty]
        if self.models.is_lib(cls):
            args = [self.E(x, st, fr) for x in a]
            v = self.models.construct(self, cls, self.p.F[fid], args, st, line, None, kind)
            if v is not None:
                return v
            loc = (fresh("tmp"), ())
            return Ref(loc, strip(t))
        if kind == "copy" and len(a) == 1:
            f = self.p.F[fid]
            if "body" not in f or f.get("implicit"):
                v = self.E(a[0], st, fr)
                if isinstance(v, Ref):
                    loc = (fresh("tmp"), ())
                    self.copy(st, loc, v.loc, line, quiet=True)
                    return Ref(loc, strip(t))
                return v
        loc = (("L", fr.id, "tmp", fresh("t")[1]), ())
        ref = Ref(loc, strip(t))
        st.setk(loc[0], ("@tmp",), TRUE)
        self.construct_expr(e, ref, st, fr)
        return ref

    def e_call(self, e, st, fr):
        _, name, fid, obj, args, ty, line = e[:7]
        f = self.p.F[fid]
        this = None
        if obj is not None:
            o = self.E(obj, st, fr)
            this = o
            if "body" in f or not self.models.is_lib(f.get("cls", "")):
                this = self.deref(o, st)
                if not isinstance(this, Ref):
                    # value object: materialise
                    loc = (("L", fr.id, "tmp", fresh("t")[1]), ())
                    r = Ref(loc, f.get("cls", "?"))
                    if isinstance(this, (Mat, OpM, View, Comma)):
                        self.models.assign_matrix(self, st, r, this)
                    else:
                        st.setk(loc[0], (), this)
                    this = r
                elif f.get("cls") and is_scalar(this.ty):
                    this = Ref(this.loc, f["cls"])
        vs = [self.E(x, st, fr) for x in args]
        cls = f.get("cls")
        if cls and self.models.is_lib(cls) and "body" not in f:
            if isinstance(this, Ptr) and this.loc is not None and cls.startswith("Eigen::"):
                this = Ref(this.loc, this.ty)
            return self.models.method(self, f, name, this, vs, st, line, self.T[ty])
        if cls is None and "body" not in f:
            return self.models.function(self, f, name, vs, st, line, self.T[ty])
        return self.call(f, this, vs, st, line, len(e) > 7)

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=None, st=None, pc=()):
        """analyse function f from a symbolic entry state"""
        st = st or St()
        st.pc = tuple(pc)
        if this is None and f["kind"] in ("method", "ctor", "dtor") and not f.get("static"):
            this = Ref((("this",), ()), f["cls"])
        if args is None:
            args = []
            for vid, name, ty in f["params"]:
                args.append(self.sym_arg(name, ty))
        self.entry = st
        if f["kind"] == "ctor":
            self.clear_prefix(st, this.loc, (("uninit", strip(this.ty), f["line"], 0),))
            st.setk(this.loc[0], this.loc[1] + ("@type",), f["cls"])
            val = self.inline(f, this, args, st)
        else:
            val = self.inline(f, this, args, st)
        return val, st

    def sym_arg(self, name, ty):
        t = strip(ty)
        if ty.endswith("&"):
            return Ref((("arg", name), ()), t)
        if t == "bool":
            return Cond("atom", (("arg", name),))
        if t.endswith("*"):
            return Ptr((("arg", name), ()), t[:-1].strip())
        if is_scalar(t):
            return P.atom(("init", (("arg", name),)))
        if t.startswith("std::basic_string"):
            return P.atom(("init", (("arg", name),)))
        return Ref((("arg", name), ()), t)
