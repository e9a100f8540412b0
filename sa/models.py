"""Abstract semantics of the standard library and Eigen operations used by the code."""
import re
from fractions import Fraction

import alg
from alg import P, C, ZERO, ONE
from absint import (Ref, Ptr, Str, It, Mat, OpM, View, Comma, ListV, FnV, VOID, Cond, TRUE, FALSE, cnot, cand, cor,
                    compare, fresh, strip, is_scalar, baseof, targs, DEL)

LIBP = ("std::", "Eigen::", "__gnu_cxx::", "exprtk::")


def is_lib(cls):
    return cls.startswith(LIBP) or cls == "?"


# ------------------------------------------------------------------ matrices
def dims_of(I, ref, st):
    d = I.eigen_dims(ref.ty)
    r = c = None
    if d:
        r, c = d
    if r is None or r < 0:
        v = st.getk(ref.loc[0], ref.loc[1] + ("@rows",))
        r = v.cval() if isinstance(v, P) and v.is_const() else None
    if c is None or c < 0:
        v = st.getk(ref.loc[0], ref.loc[1] + ("@cols",))
        c = v.cval() if isinstance(v, P) and v.is_const() else None
    if d and d[1] == 1:
        c = 1
    if r is not None and c is not None:
        return int(r), int(c)
    return None


def vec_eq(I, st, a, b):
    """equality of two vectors of scalars with known sizes"""
    if not all("vector<" in x.ty for x in (a, b)):
        return None
    n, m = I.size_of(st, a.loc), I.size_of(st, b.loc)
    if not (n.is_const() and m.is_const()) or n.cval() > 64:
        return None
    if n.cval() != m.cval():
        return FALSE
    c = TRUE
    for i in range(int(n.cval())):
        x, y = (st.getk(r.loc[0], r.loc[1] + (("#", C(i)),)) for r in (a, b))
        if not isinstance(x, P) or not isinstance(y, P):
            return None
        q = I.decide(compare("==", x, y), st)
        if q is FALSE:
            return FALSE
        c = cand(c, q)
    return c


def as_mat(I, v, st):
    if isinstance(v, (Mat, OpM)):
        return v
    if isinstance(v, Comma):
        return as_mat(I, v.ref, st)
    if isinstance(v, View):
        m = as_mat(I, v.ref, st)
        if isinstance(m, Mat):
            if v.kind == "array":
                return m
            if v.kind == "col" and v.i.is_const() and 0 <= v.i.cval() < m.c:
                return Mat(m.r, 1, {(i, 0): m.e[(i, v.i.cval())] for i in range(m.r)})
            if v.kind == "row" and v.i.is_const() and 0 <= v.i.cval() < m.r:
                return Mat(1, m.c, {(0, j): m.e[(v.i.cval(), j)] for j in range(m.c)})
        return OpM(("view", v.kind, v.i, I.k(m)))
    if isinstance(v, Ref):
        x = st.getk(v.loc[0], v.loc[1])
        if isinstance(x, (Mat, OpM)):
            return x
        d = dims_of(I, v, st)
        if d and d[0] * d[1] <= 4096:
            return Mat(d[0], d[1], {(i, j): I.num(I.load(st, (v.loc[0], v.loc[1] + (("#", C(i), C(j)),)), "double")) for i in range(d[0]) for j in range(d[1])})
        its = st.items(v.loc[0])
        n = len(v.loc[1])
        ex = frozenset((q[n:], I.k(w)) for q, w in its.items() if q[:n] == v.loc[1] and len(q) > n and q[n] not in ("@name",))
        return OpM(("mat", I.nameof(st, v.loc), ex))
    if isinstance(v, P):
        return OpM(("num", v))
    return OpM(("val", I.k(v)))


def is_mat(I, v, st):
    if isinstance(v, (Mat, OpM, View, Comma)):
        return True
    if isinstance(v, Ref):
        return I.is_eigen(v.ty)
    return False


def write_mat(I, st, ref, m, line=None):
    n = ref.loc[1]
    if isinstance(m, Mat):
        d = I.eigen_dims(ref.ty)
        for (i, j), x in m.e.items():
            loc = (ref.loc[0], n + (("#", C(i), C(j)),))
            if I.record:
                I.emit("mstore", st, line, loc=loc, val=x)
            st.setk(loc[0], loc[1], x)
        if d is None or d[0] < 0 or d[1] < 0:
            st.setk(ref.loc[0], n + ("@rows",), C(m.r))
            st.setk(ref.loc[0], n + ("@cols",), C(m.c))
    else:
        I.clear_prefix(st, ref.loc, (("opm", m),))
        I.emit("mstore", st, line, loc=ref.loc, val=m)


def assign_matrix(I, st, ref, v, line=None):
    if isinstance(v, Comma) and v.ref.loc == ref.loc:
        return
    if isinstance(v, Ref):
        if v.loc != ref.loc:
            m = as_mat(I, v, st)
            if isinstance(m, Mat):
                write_mat(I, st, ref, m, line)
            else:
                I.copy(st, ref.loc, v.loc, line)
        return
    m = as_mat(I, v, st)
    write_mat(I, st, ref, m, line)


def write_view(I, st, view, m, line=None):
    ref = view.ref
    d = dims_of(I, ref, st)
    if view.kind == "array":
        write_mat(I, st, ref, m, line)
        return
    if not isinstance(m, Mat):
        if d:
            for k in range(d[0] if view.kind == "col" else d[1]):
                idx = ("#", C(k), view.i) if view.kind == "col" else ("#", view.i, C(k))
                st.setk(ref.loc[0], ref.loc[1] + (idx,), P.atom(("elt", m, C(k))))
        else:
            I.havoc(st, ref.loc)
        return
    n = m.r * m.c
    vals = [m.e[(i, j)] for i in range(m.r) for j in range(m.c)]
    for k in range(n):
        idx = ("#", C(k), view.i) if view.kind == "col" else ("#", view.i, C(k))
        st.setk(ref.loc[0], ref.loc[1] + (idx,), vals[k])


def assign_list(I, st, ref, v):
    t = strip(ref.ty)
    ta = targs(t)
    if t.startswith("std::vector<") or t.startswith("std::array<") or re.search(r"\[\d+\]$", t):
        ety = ta[0] if ta else re.sub(r"\[\d+\]$", "", t, count=1)
        m = re.match(r"(.*?)((?:\[\d+\])+)$", t)
        if m:
            dims = re.findall(r"\[\d+\]", m.group(2))
            ety = m.group(1) + "".join(dims[1:])
        xs = v.xs
        if t.startswith("std::array<") and len(xs) == 1 and isinstance(xs[0], ListV):
            xs = xs[0].xs
        for i, x in enumerate(xs):
            I.init_from(st, Ref((ref.loc[0], ref.loc[1] + (("#", C(i)),)), ety), x)
        if t.startswith("std::vector<"):
            st.setk(ref.loc[0], ref.loc[1] + ("@size",), C(len(xs)))
        else:
            st.setk(ref.loc[0], ref.loc[1] + ("@fill",), ZERO)
        return
    r = I.p.records.get(t)
    if r is not None:
        fs = r.get("fields", [])
        xs = v.xs
        off = 0
        for b in r.get("bases", []):
            if off < len(xs):
                I.init_from(st, Ref(ref.loc, b), xs[off])
                off += 1
        for f, x in zip(fs, xs[off:]):
            I.init_from(st, Ref((ref.loc[0], ref.loc[1] + (f[0],)), I.T[f[1]]), x)
        return
    if len(v.xs) == 1:
        I.init_from(st, ref, v.xs[0])
        return
    I.note("list init " + t)


def mm(I, a, b):
    if isinstance(a, Mat) and isinstance(b, Mat) and a.c == b.r:
        e = {}
        for i in range(a.r):
            for j in range(b.c):
                s = ZERO
                for k in range(a.c):
                    s = s + a.e[(i, k)] * b.e[(k, j)]
                e[(i, j)] = s
        return Mat(a.r, b.c, e)
    return OpM(("mul", I.k(a), I.k(b)))


def madd(I, a, b, sgn=1):
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, {k: a.e[k] + b.e[k].scale(sgn) for k in a.e})
    if isinstance(a, Mat) and isinstance(b, Mat) and a.r * a.c == b.r * b.c:
        return Mat(a.r, a.c, {(i, j): a.e[(i, j)] + list(b.e.values())[n].scale(sgn) for n, (i, j) in enumerate(a.e)})
    return OpM(("add" if sgn == 1 else "sub", I.k(a), I.k(b)))


def mscale(I, a, s):
    if isinstance(a, Mat):
        return a.map(lambda x: x * s)
    return OpM(("scale", I.k(a), s))


def det(m):
    n = m.r
    if n == 1:
        return m.e[(0, 0)]
    s = ZERO
    for j in range(n):
        if not m.e[(0, j)].t:
            continue
        sub = Mat(n - 1, n - 1, {(a, b): m.e[(a + 1, b if b < j else b + 1)] for a in range(n - 1) for b in range(n - 1)})
        t = m.e[(0, j)] * det(sub)
        s = s + t if j % 2 == 0 else s - t
    return s


def inverse(I, m):
    if isinstance(m, Mat) and m.r == m.c and m.r <= 4:
        if sum(len(x.t) for x in m.e.values()) <= I.cfg.get("inv_terms", 60) and not I.cfg.get("opaque_inverse"):
            D = det(m)
            n = m.r
            e = {}
            for i in range(n):
                for j in range(n):
                    sub = Mat(n - 1, n - 1, {(a, b): m.e[(a if a < i else a + 1, b if b < j else b + 1)] for a in range(n - 1) for b in range(n - 1)}) if n > 1 else None
                    c = det(sub) if n > 1 else ONE
                    if (i + j) % 2:
                        c = -c
                    e[(j, i)] = c / D
            return Mat(n, n, e)
        return Mat(m.r, m.c, {(i, j): P.atom(("inv", m, C(i), C(j))) for i in range(m.r) for j in range(m.c)})
    return OpM(("inv", I.k(m)))


def determinant(I, m):
    if isinstance(m, Mat) and m.r == m.c:
        if sum(len(x.t) for x in m.e.values()) <= I.cfg.get("inv_terms", 60) and not I.cfg.get("opaque_inverse"):
            return det(m)
        return P.atom(("det", m))
    return P.atom(("det", I.k(m)))


def sqn(m):
    s = ZERO
    for x in m.e.values():
        s = s + x * x
    return s


def construct_eigen(I, ref, args, st):
    if not args and isinstance(ref, Ref) and I.eigen_dims(ref.ty) and min(I.eigen_dims(ref.ty)) < 0:
        I.empty_matrix(st, ref.loc, strip(ref.ty))
    args = [I.rv(a, st) for a in args]
    if not args:
        return
    if len(args) == 1 and is_mat(I, args[0], st):
        assign_matrix(I, st, ref, args[0])
        return
    d = I.eigen_dims(ref.ty)
    if d and d[0] > 0 and d[1] > 0 and len(args) == d[0] * d[1]:
        for i, a in enumerate(args):
            st.setk(ref.loc[0], ref.loc[1] + (("#", C(i % d[0]), C(i // d[0])),), I.num(a))
        return
    if d and (d[0] < 0 or d[1] < 0):
        st.setk(ref.loc[0], ref.loc[1] + ("@rows",), I.num(args[0]))
        if len(args) > 1:
            st.setk(ref.loc[0], ref.loc[1] + ("@cols",), I.num(args[1]))
        elif d[1] == 1:
            st.setk(ref.loc[0], ref.loc[1] + ("@cols",), ONE)
        return
    I.note("eigen ctor")


# ------------------------------------------------------------------ construct
def construct(I, cls, f, args, st, line, ref, kind):
    """library object construction; returns a value or None when done into ref"""
    b = baseof(cls)
    cn = cls.split("<")[0]
    if ref is None and cn in ("std::vector", "std::map", "std::basic_string", "Eigen::Matrix", "Eigen::SparseMatrix", "std::array", "std::set", "std::deque"):
        ref = Ref((fresh("tmp"), ()), cls)
        made = True
    else:
        made = False
    if cn in ("std::vector", "std::map", "std::set", "std::deque", "std::list"):
        if kind == "copy" or (len(args) >= 1 and isinstance(args[0], Ref) and strip(args[0].ty).split("<")[0] == cn):
            I.copy(st, ref.loc, args[0].loc, line)
            return ref if made else None
        I.clear_prefix(st, ref.loc, (("empty", fresh("e")[1]),))
        if not args:
            st.setk(ref.loc[0], ref.loc[1] + ("@size",), ZERO)
            if cn == "std::map":
                set_keys(st, ref.loc, ())
        elif isinstance(args[0], ListV):
            assign_list(I, st, ref, args[0])
        elif isinstance(I.rv(args[0], st), It):
            I.havoc(st, ref.loc)
        else:
            st.setk(ref.loc[0], ref.loc[1] + ("@size",), I.num(I.rv(args[0], st)))
            ety = (targs(cls) or ["?"])[0]
            if len(args) > 1:
                v = I.rv(args[1], st)
                if isinstance(v, (P, Cond, Ptr)):
                    st.setk(ref.loc[0], ref.loc[1] + ("@fill",), v)
            elif is_scalar(ety):
                st.setk(ref.loc[0], ref.loc[1] + ("@fill",), ZERO if strip(ety) != "bool" else FALSE)
        return ref if made else None
    if cls.endswith("InnerIterator") and len(args) == 2:
        if ref is None:
            ref, made = Ref((fresh("tmp"), ()), cls), True
        src = args[0]
        k = I.rv(args[1], st)
        if isinstance(src, Ref) and isinstance(k, P) and k.is_const() and dims_of(I, src, st):
            st.setk(ref.loc[0], ref.loc[1] + ("@src",), src)
            st.setk(ref.loc[0], ref.loc[1] + ("@col",), k)
            st.setk(ref.loc[0], ref.loc[1] + ("@pos",), ZERO)
            return ref if made else None
        if made:
            ref = None
    if cn == "std::array":
        if kind == "copy":
            I.copy(st, ref.loc, args[0].loc, line)
        return ref if made else None
    if cn == "std::basic_string":
        if not args or isinstance(args[0], Ref) and strip(args[0].ty).startswith("std::allocator"):
            v = Str("")
        else:
            v = I.rv(args[0], st)
            if isinstance(v, ListV):
                v = P.atom(fresh("str"))
        st.setk(ref.loc[0], ref.loc[1], v)
        return v if made else None
    if cn == "Eigen::Matrix":
        construct_eigen(I, ref, args, st)
        return ref if made else None
    if cn == "Eigen::SparseMatrix":
        if kind == "copy":
            I.copy(st, ref.loc, args[0].loc, line)
        elif len(args) == 1:
            assign_matrix(I, st, ref, args[0])
        else:
            I.clear_prefix(st, ref.loc, (("empty", fresh("e")[1]),))
            st.setk(ref.loc[0], ref.loc[1] + ("@fill",), ZERO)
            for k, a in zip(("@rows", "@cols"), args or (ZERO, ZERO)):
                st.setk(ref.loc[0], ref.loc[1] + (k,), I.num(I.rv(a, st)))
        return ref if made else None
    if "iterator" in cn or kind == "copy":
        if args:
            v = args[0]
            if isinstance(v, Ref):
                x = st.getk(*v.loc)
                if isinstance(x, It):
                    return x
            return v
    if cn == "std::function":
        return args[0] if args else None
    if cn == "std::pair":
        r = ref or Ref((fresh("tmp"), ()), cls)
        if len(args) == 2:
            ta = targs(cls)
            for nme, a, t in zip(("first", "second"), args, ta + ["?", "?"]):
                I.init_from(st, Ref((r.loc[0], r.loc[1] + (nme,)), t), a)
        return r if ref is None else None
    # anything else: opaque object
    ks = tuple(I.k(I.rv(a, st)) for a in args)
    if ref is not None:
        I.clear_prefix(st, ref.loc, (("obj", cls) + ks + (fresh("o")[1],),))
        return None
    loc = (fresh("tmp"), ())
    st.setk(loc[0], ("@name",), (("obj", cls) + ks,))
    return Ref(loc, cls)


# ------------------------------------------------------------------ iterators
# ---- containers whose size and keys are constants are interpreted element by element
def keys_of(st, loc):
    """sorted constant keys of a map, or None when they are not all known"""
    return st.getk(loc[0], loc[1] + ("@keys",))


def set_keys(st, loc, ks):
    st.setk(loc[0], loc[1] + ("@keys",), tuple(ks))
    st.setk(loc[0], loc[1] + ("@size",), C(len(ks)))


def ckey(k):
    if isinstance(k, P) and k.is_const():
        return k.cval()
    if isinstance(k, Str):
        return k.s
    return None


def pkey(c):
    return Str(c) if isinstance(c, str) else C(c)


def forget_keys(st, loc):
    """a key that is not a constant is about to be inserted"""
    ks = keys_of(st, loc)
    if ks is not None:
        for c in ks:
            st.setk(loc[0], loc[1] + ("@has", pkey(c)), TRUE)
        st.setk(loc[0], loc[1] + ("@keys",), DEL)


def elements(I, st, loc):
    """number of elements when all of them are stored explicitly, else None"""
    n = I.size_of(st, loc)
    if not n.is_const():
        return None
    n = int(n.cval())
    pl = len(loc[1])
    have = set()
    for q in st.items(loc[0]):
        if len(q) > pl and q[:pl] == loc[1] and isinstance(q[pl], tuple) and q[pl][0] == "#" and len(q[pl]) == 2:
            if not (isinstance(q[pl][1], P) and q[pl][1].is_const()):
                return None
            have.add(q[pl][1].cval())
    return n if all(i in have for i in range(n)) else None


def permute(I, st, loc, order):
    """the element sequence becomes old[order[0]], old[order[1]], ... (None: fresh element)"""
    pl = len(loc[1])
    old = {}
    for q, v in st.items(loc[0]).items():
        if len(q) > pl and q[:pl] == loc[1] and isinstance(q[pl], tuple) and q[pl][0] == "#":
            old.setdefault(q[pl][1].cval(), []).append((q[pl + 1:], v))
            st.setk(loc[0], q, DEL)
    for i, o in enumerate(order):
        for r, v in old.get(o, []):
            st.setk(loc[0], loc[1] + (("#", C(i)),) + r, v)
    st.setk(loc[0], loc[1] + ("@size",), C(len(order)))


def it_index(I, it, st):
    """constant position of a vector iterator, or None"""
    if not isinstance(it, It):
        return None
    if it.pos == "end":
        n = I.size_of(st, it.loc)
        return int(n.cval()) if n.is_const() else None
    if isinstance(it.pos, P) and it.pos.is_const():
        return int(it.pos.cval())
    return None


def map_key_at(I, st, loc, idx):
    ks = keys_of(st, loc)
    if ks is not None and idx.is_const() and 0 <= idx.cval() < len(ks):
        return pkey(ks[int(idx.cval())])
    return P.atom(("mapkey", I.nameof(st, loc), idx))


def deref_it(I, it, st):
    loc = it.loc
    if isinstance(it.pos, P):
        if it.ety == "map":
            key = map_key_at(I, st, loc, it.pos)
        else:
            return Ref((loc[0], loc[1] + (("#", it.pos),)), it.ety)
    elif isinstance(it.pos, tuple) and it.pos[0] == "key":
        key = it.pos[1]
        if it.ety != "map":
            return Ref((loc[0], loc[1] + (("#", P.atom(("findpos", loc[0], key))),)), it.ety)
    else:
        key = P.atom(("itkey", it.pos))
        if it.ety != "map":
            return Ref((loc[0], loc[1] + (("#", P.atom(("itpos", it.pos))),)), it.ety)
    pr = (("mapelt", loc, key), ())
    if st.getk(pr[0], ("first",)) is None:
        st.setk(pr[0], ("first",), key)
        st.setk(pr[0], ("second",), Ref((loc[0], loc[1] + (("#", key),)), "?"))
    return Ref(pr, "std::pair")


def it_eq(I, a, b, st):
    if isinstance(a, Ref):
        a = st.getk(*a.loc)
    if isinstance(b, Ref):
        b = st.getk(*b.loc)
    if not (isinstance(a, It) and isinstance(b, It)):
        return Cond("atom", ("iteq", I.k(a), I.k(b)))
    if a.pos == b.pos:
        return TRUE
    if b.pos == "end":
        a, b = b, a
    if a.pos == "end":
        n = I.size_of(st, a.loc)
        if isinstance(b.pos, P):
            return compare("==", b.pos, n)
        if isinstance(b.pos, tuple) and b.pos[0] == "key":
            return cnot(has_key(I, st, b.loc, b.pos[1])) if b.ety == "map" or keys_of(st, b.loc) is None else FALSE
        return Cond("atom", ("iteq", b.pos, "end"))
    if isinstance(a.pos, P) and isinstance(b.pos, P):
        return compare("==", a.pos, b.pos)
    if "rend" in (a.pos, b.pos) and all(x.pos == "rend" or isinstance(x.pos, tuple) and x.pos[0] == "key" for x in (a, b)):
        return FALSE
    if all(isinstance(x.pos, tuple) and x.pos[0] == "key" and ckey(x.pos[1]) is not None for x in (a, b)):
        return TRUE if ckey(a.pos[1]) == ckey(b.pos[1]) else FALSE
    return Cond("atom", ("iteq", I.k(a.pos) if not isinstance(a.pos, (str, tuple)) else a.pos, I.k(b.pos) if not isinstance(b.pos, (str, tuple)) else b.pos))


def has_key(I, st, loc, key):
    ks, c = keys_of(st, loc), ckey(key)
    if ks is not None:
        if c is not None:
            return TRUE if c in ks else FALSE
        if not ks:
            return FALSE
    v = st.getk(loc[0], loc[1] + ("@has", key))
    if v is not None:
        return v
    return Cond("atom", ("has", I.nameof(st, loc), key))


def touch_key(I, st, loc, key):
    h = has_key(I, st, loc, key)
    if h is TRUE:
        return
    ks, c = keys_of(st, loc), ckey(key)
    if ks is not None and c is not None:
        set_keys(st, loc, sorted(ks + (c,), key=lambda x: (str(type(x)), x)))
        return
    forget_keys(st, loc)
    n = I.size_of(st, loc)
    st.setk(loc[0], loc[1] + ("@size",), n + alg.ite(h, ZERO, ONE))
    st.setk(loc[0], loc[1] + ("@has", key), TRUE)


def value_of(I, v, st):
    """rvalue incl. iterators stored in variables"""
    v = I.rv(v, st)
    if isinstance(v, Ref):
        x = st.getk(*v.loc)
        if isinstance(x, (It, FnV)):
            return x
    return v


# ------------------------------------------------------------------ functions
ONEARG = {"sqrt", "exp", "sin", "cos", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "log", "fabs", "abs", "floor", "ceil", "expm1", "log10", "round"}


def function(I, f, name, args, st, line, rty):
    ns, n = baseof(name)
    vs = [value_of(I, a, st) for a in args]
    if n in ONEARG and len(vs) == 1 and ns in ("", "std"):
        return alg.fn("fabs" if n == "abs" else n, I.num(vs[0]))
    if n == "pow":
        a, b = I.num(vs[0]), I.num(vs[1])
        if b.is_const():
            e = b.cval()
            if e == int(e) and (abs(e) <= 12 or a.is_const()) and (e >= 0 or a.t):
                return a.pow(int(e))
            if e == Fraction(1, 2):
                return alg.fn("sqrt", a)
            if (2 * e) == int(2 * e) and e != int(e):
                s = alg.fn("sqrt", a)
                return s * a.pow(int(e - Fraction(1, 2)))
        return P.atom(("fn", "pow", a, b))
    if n == "atan2" and len(vs) == 2:
        return alg.fn("atan2", I.num(vs[0]), I.num(vs[1]))
    if n in ("min", "max") and len(vs) == 2:
        return alg.fn(n, I.num(vs[0]), I.num(vs[1]))
    if n == "swap" and len(args) == 2 and isinstance(args[0], Ref) and isinstance(args[1], Ref):
        a, b = args
        if is_scalar(a.ty):
            x, y = I.rv(a, st), I.rv(b, st)
            I.store_scalar(st, a, y, line)
            I.store_scalar(st, b, x, line)
        else:
            t = (fresh("tmp"), ())
            I.copy(st, t, a.loc, quiet=True)
            I.copy(st, a.loc, b.loc)
            I.copy(st, b.loc, t)
        return VOID
    if n == "make_pair":
        loc = (fresh("tmp"), ())
        for nm, v, a in zip(("first", "second"), vs, args):
            I.init_from(st, Ref((loc[0], (nm,)), a.ty if isinstance(a, Ref) else "double"), v if not isinstance(v, Ref) else a)
        return Ref(loc, rty)
    if n in ("operator==", "operator!=") and len(args) == 2:
        a, b = vs
        if isinstance(a, It) or isinstance(b, It):
            c = I.decide(it_eq(I, a, b, st), st)
            return c if n == "operator==" else cnot(c)
        if isinstance(a, Str) and isinstance(b, Str):
            c = TRUE if a == b else FALSE
        elif isinstance(a, Ref) and isinstance(b, Ref) and vec_eq(I, st, a, b) is not None:
            c = vec_eq(I, st, a, b)
        elif isinstance(a, Ref) and isinstance(b, Ref):
            c = Cond("atom", ("objeq", I.nameof(st, a.loc), I.nameof(st, b.loc)))
        else:
            c = Cond("atom", ("eq", I.k(a), I.k(b)))
        return c if n == "operator==" else cnot(c)
    if n == "operator<<" or n == "operator>>":
        return stream(I, n, args, vs, st, line)
    if n in ("setprecision", "setw", "setfill", "fixed", "scientific", "endl"):
        loc = (fresh("tmp"), ())
        st.setk(loc[0], (), P.atom(("manip", n) + tuple(I.k(v) for v in vs)))
        return P.atom(("manip", n) + tuple(I.k(v) for v in vs))
    if n == "operator+" and ns == "std":
        return P.atom(("strcat",) + tuple(I.k(v) for v in vs))
    if n == "operator|":
        return P.atom(("fn", "op|") + tuple(I.num(v) for v in vs))
    if ns == "Eigen" and n == "operator*" and len(vs) == 2:
        if is_mat(I, args[1], st):
            return mscale(I, as_mat(I, args[1], st), I.num(vs[0]))
    if n == "find" and len(vs) == 3:
        a = vs[0]
        if isinstance(a, It):
            I.emit("find", st, line, loc=a.loc, key=I.k(vs[2]))
            i0, i1 = it_index(I, a, st), it_index(I, vs[1], st)
            if i0 is not None and i1 is not None and isinstance(vs[2], P):
                for i in range(i0, i1):
                    x = I.load(st, (a.loc[0], a.loc[1] + (("#", C(i)),)), "double")
                    c = compare("==", x, vs[2]) if isinstance(x, P) else None
                    if c is TRUE:
                        return It(a.loc, C(i), a.ety)
                    if c is not FALSE:
                        break
                else:
                    return vs[1]
            return It(a.loc, ("key", vs[2]), a.ety)
    if n in ("unique", "remove", "copy", "set_intersection", "adjacent_find", "distance", "count") and vs and isinstance(vs[0], It):
        r = concrete_algorithm(I, n, vs, st)
        if r is not None:
            I.emit("algo", st, line, name=n, args=vs)
            return r
    if n in ("sort", "reverse", "unique", "remove", "copy", "set_intersection", "adjacent_find", "transform", "fill", "iota"):
        a = vs[0] if vs else None
        tgt = vs[2] if n == "copy" and len(vs) > 2 else a
        I.emit("algo", st, line, name=n, args=vs)
        if isinstance(tgt, It):
            if n in ("sort", "reverse"):
                nm = I.nameof(st, tgt.loc)
                ks = tuple(sorted(((q, I.k(v)) for q, v in st.items(tgt.loc[0]).items() if q[:len(tgt.loc[1])] == tgt.loc[1] and q[len(tgt.loc[1]):]), key=repr))
                sz = I.size_of(st, tgt.loc)
                cs = sz.cval() if sz.is_const() else None
                if cs is not None and n == "sort" and cs <= 8 and len(vs) == 2:
                    els = [st.getk(tgt.loc[0], tgt.loc[1] + (("#", C(i)),)) for i in range(int(cs))]
                    if all(isinstance(x, P) for x in els):
                        els2 = sorted(els, key=lambda x: (0, x.cval()) if x.is_const() else (1, hash(x)))
                        nmx = frozenset(els)
                        if all(x.is_const() for x in els):
                            for i, x in enumerate(els2):
                                st.setk(tgt.loc[0], tgt.loc[1] + (("#", C(i)),), x)
                            return VOID
                        I.clear_arr(st, *tgt.loc)
                        st.setk(tgt.loc[0], tgt.loc[1] + ("@name",), (("sorted", frozenset((x, els.count(x)) for x in els)),))
                        return VOID
                if n == "reverse" and cs is not None:
                    els = {}
                    its = st.items(tgt.loc[0])
                    pl = len(tgt.loc[1])
                    for q, v in its.items():
                        if q[:pl] == tgt.loc[1] and len(q) > pl and isinstance(q[pl], tuple) and q[pl][0] == "#" and q[pl][1].is_const():
                            els[(int(cs) - 1 - q[pl][1].cval(), q[pl + 1:])] = v
                            st.setk(tgt.loc[0], q, DEL)
                    for (i, r), v in els.items():
                        st.setk(tgt.loc[0], tgt.loc[1] + (("#", C(i)),) + r, v)
                    return VOID
                sz = I.size_of(st, tgt.loc)
                I.clear_prefix(st, tgt.loc, ((n, nm, ks),))
                st.setk(tgt.loc[0], tgt.loc[1] + ("@size",), sz)
            elif n not in ("adjacent_find",):
                I.havoc(st, tgt.loc)
        if n in ("set_intersection", "copy") and len(vs) > 2:
            for v in vs:
                if isinstance(v, P):
                    a0 = v.single_atom()
                    if a0 is not None and alg.atom_key(a0)[0] == "backins":
                        I.havoc(st, alg.atom_key(a0)[1])
        return It(a.loc, (n,) + fresh("al"), a.ety) if isinstance(a, It) else VOID
    if n == "back_inserter":
        return P.atom(("backins", args[0].loc))
    if n == "__assert_fail":
        return VOID
    if n in ("max", "min", "epsilon", "lowest") and not vs:
        if n == "lowest":
            return -P.atom(("sym", "numeric_limits", "max"))
        return I.limits.get(n) or P.atom(("sym", "numeric_limits", n))
    if n in ("memcpy", "__builtin_memcpy"):
        I.emit("memcpy", st, line, args=vs)
        if isinstance(vs[0], Ptr) and vs[0].loc is not None:
            I.havoc(st, vs[0].loc)
        return VOID
    if n == "getline":
        if len(args) > 1 and isinstance(args[1], Ref):
            st.setk(args[1].loc[0], args[1].loc[1], P.atom(fresh("line")))
        I.emit("getline", st, line, args=args)
        return args[0]
    if n in ("abort", "exit"):
        return VOID
    return external(I, f, None, args, st, line)


def seq(I, a, b, st):
    """the constant elements of a range of a vector, or None"""
    i0, i1 = it_index(I, a, st), it_index(I, b, st)
    if i0 is None or i1 is None or a.ety == "map":
        return None
    xs = [I.load(st, (a.loc[0], a.loc[1] + (("#", C(i)),)), "double") for i in range(i0, i1)]
    if any(not (isinstance(x, P) and x.is_const()) for x in xs):
        return None
    return i0, [x.cval() for x in xs]


def backins(v):
    a0 = v.single_atom() if isinstance(v, P) else None
    return alg.atom_key(a0)[1] if a0 is not None and alg.atom_key(a0)[0] == "backins" else None


def concrete_algorithm(I, n, vs, st):
    """standard algorithms on ranges whose elements are constants"""
    a = vs[0]
    if len(vs) < 2 or not isinstance(vs[1], It):
        return None
    r = seq(I, a, vs[1], st)
    if n == "distance":
        i0, i1 = it_index(I, a, st), it_index(I, vs[1], st)
        return None if i0 is None or i1 is None else C(i1 - i0)
    if r is None:
        return None
    i0, xs = r
    put = lambda i, x: st.setk(a.loc[0], a.loc[1] + (("#", C(i)),), C(x))
    if n == "adjacent_find" and len(vs) == 2:
        for i in range(len(xs) - 1):
            if xs[i] == xs[i + 1]:
                return It(a.loc, C(i0 + i), a.ety)
        return vs[1]
    if n in ("unique", "remove"):
        if n == "unique" and len(vs) == 2:
            ys = [x for i, x in enumerate(xs) if i == 0 or x != xs[i - 1]]
        elif n == "remove" and isinstance(vs[2], P) and vs[2].is_const():
            ys = [x for x in xs if x != vs[2].cval()]
        else:
            return None
        for i, y in enumerate(ys):
            put(i0 + i, y)
        return It(a.loc, C(i0 + len(ys)), a.ety)
    if n == "count" and isinstance(vs[2], P) and vs[2].is_const():
        return C(xs.count(vs[2].cval()))
    out = None
    if n == "copy" and len(vs) == 3:
        out, tgt = xs, vs[2]
    if n == "set_intersection" and len(vs) == 5:
        q = seq(I, vs[2], vs[3], st) if isinstance(vs[2], It) and isinstance(vs[3], It) else None
        if q is None:
            return None
        out, tgt, i, j, ys = [], vs[4], 0, 0, q[1]
        while i < len(xs) and j < len(ys):          # as the standard algorithm, also on unsorted input
            if xs[i] < ys[j]:
                i += 1
            elif ys[j] < xs[i]:
                j += 1
            else:
                out.append(xs[i])
                i += 1
                j += 1
    if out is None:
        return None
    loc = backins(tgt)
    if loc is not None:
        m = I.size_of(st, loc)
        if not m.is_const():
            return None
        for i, y in enumerate(out):
            st.setk(loc[0], loc[1] + (("#", C(m.cval() + i)),), C(y))
        st.setk(loc[0], loc[1] + ("@size",), m + C(len(out)))
        return tgt
    k = it_index(I, tgt, st) if isinstance(tgt, It) else None
    if k is None:
        return None
    for i, y in enumerate(out):
        st.setk(tgt.loc[0], tgt.loc[1] + (("#", C(k + i)),), C(y))
    return It(tgt.loc, C(k + len(out)), tgt.ety)


def stream(I, op, args, vs, st, line):
    s = args[0]
    I.emit("stream", st, line, op=op, stream=s, val=vs[1] if len(vs) > 1 else None, arg=args[1] if len(args) > 1 else None)
    if op == "operator>>" and len(args) > 1 and isinstance(args[1], Ref):
        r = args[1]
        n = P.atom(fresh("in"))
        if is_scalar(r.ty):
            I.store_scalar(st, r, n, line)
        else:
            st.setk(r.loc[0], r.loc[1], n)
    return s


def external(I, f, this, args, st, line):
    return I.opaque_call(f, this if isinstance(this, Ref) else None, args, st, line)


# ------------------------------------------------------------------ methods
def method(I, f, name, this, args, st, line, rty):
    ns, n = baseof(name)
    if ns in ("std::vector", "std::array", "std::deque"):
        return vector(I, f, n, ns, this, args, st, line, rty)
    if ns in ("std::map", "std::unordered_map", "std::set"):
        return mapm(I, f, n, this, args, st, line, rty)
    if "iterator" in ns or ns in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
        return iterm(I, f, n, this, args, st, line, rty)
    if ns == "std::_Bit_reference":
        if n == "operator=":
            I.store_scalar(st, this, I.boolean(I.rv(args[0], st)), line)
            return this
        return I.rv(this, st)
    if ns == "std::numeric_limits":
        if n == "lowest":
            return -P.atom(("sym", "numeric_limits", "max"))
        return I.limits.get(n) or P.atom(("sym", "numeric_limits", n))
    if ns == "std::basic_string":
        v = I.rv(this, st) if isinstance(this, Ref) else this
        if n == "operator=":
            x = I.rv(args[0], st)
            I.store(st, this.loc, x, line)
            return this
        if n == "operator+=":
            I.store(st, this.loc, P.atom(("strcat", I.k(v), I.k(I.rv(args[0], st)))), line)
            return this
        if n in ("c_str", "data", "str"):
            return v
        if n in ("size", "length") and isinstance(v, Str):
            return C(len(v.s))
        return I.opaque_value(rty, ("strop", n, I.k(v)) + tuple(I.k(I.rv(a, st)) for a in args), st)
    if ns.startswith("std::basic_ostream") or ns.startswith("std::basic_istream"):
        if n in ("operator<<", "operator>>"):
            vs = [this] + [value_of(I, a, st) for a in args]
            return stream(I, n, [this] + list(args), vs, st, line)
        I.emit("io", st, line, op=n, stream=this, args=args, vals=[value_of(I, a, st) for a in args])
        if n == "read" and args:
            v = I.rv(args[0], st)
            if isinstance(v, Ptr) and v.loc is not None:
                I.havoc(st, v.loc)
        if rty.split("<")[0] in ("std::basic_ostream", "std::basic_istream"):
            return this
        return I.opaque_value(rty, ("io", n, fresh("i")), st)
    if ns.startswith("std::basic_ofstream") or ns.startswith("std::basic_ifstream") or ns.startswith("std::basic_ios") or ns.startswith("std::ios_base") or ns.startswith("std::fpos"):
        I.emit("io", st, line, op=n, stream=this, args=args, vals=[value_of(I, a, st) for a in args])
        if n == "is_open":
            return Cond("atom", ("is_open", I.nameof(st, this.loc) if isinstance(this, Ref) else I.k(this)))
        return I.opaque_value(rty, ("io", n, fresh("i")), st)
    if ns.startswith("Eigen::"):
        r = eigen(I, f, ns, n, this, args, st, line, rty)
        if r is not None:
            return r
    if ns == "std::function" and n == "operator()":
        I.emit("callback", st, line, this=this)
        return I.opaque_value(rty, ("cb", fresh("c")), st)
    if isinstance(this, Ref):
        t = this
    else:
        t = None
    return I.opaque_call(f, t, args, st, line)


def el_type(I, this, rty):
    ta = targs(strip(this.ty)) if isinstance(this, Ref) else []
    return ta[0] if ta else strip(rty)


def vector(I, f, n, ns, this, args, st, line, rty):
    if isinstance(this, Ptr) and this.loc is not None:
        this = Ref(this.loc, this.ty)
    if not isinstance(this, Ref):
        I.note("vector method on value")
        return I.opaque_value(rty, ("vec", n, I.k(this)) + tuple(I.k(I.rv(a, st)) for a in args), st)
    loc = this.loc
    if n in ("operator[]", "at", "front", "back"):
        if n == "front":
            i = ZERO
        elif n == "back":
            i = I.size_of(st, loc) - ONE
        else:
            i = I.num(I.rv(args[0], st))
        I.emit("index", st, line, loc=loc, idx=i, checked=(n == "at"), fty=this.ty)
        ety = el_type(I, this, rty)
        if strip(ety) == "?":
            ety = rty
        if i.is_const() and I.strict:
            sz = I.size_of(st, loc)
            if sz.is_const() and not 0 <= i.cval() < sz.cval():
                I.trap(st, line, "%s with index %s of %s elements" % (n, i.cval(), sz.cval()))
        el = Ref((loc[0], loc[1] + (("#", i),)), ety)
        if i.is_const() is False and not is_scalar(ety):
            pass
        v = st.getk(*el.loc)
        if isinstance(v, Ref):
            return v
        return el
    if n == "size":
        if ns == "std::array":
            ta = targs(strip(this.ty))
            return C(int(ta[1])) if len(ta) > 1 else I.size_of(st, loc)
        return I.size_of(st, loc)
    if n == "empty":
        return compare("==", I.size_of(st, loc), ZERO)
    if n in ("push_back", "emplace_back"):
        s = I.size_of(st, loc)
        ety = el_type(I, this, "?")
        el = Ref((loc[0], loc[1] + (("#", s),)), ety)
        I.emit("push", st, line, loc=loc, nm=I.nameof(st, loc), idx=s, val=I.k(I.rv(args[0], st)) if args else None, arg=args[0] if args else None)
        if len(args) == 1:
            rec, I.record = I.record, False
            try:
                I.init_from(st, el, args[0] if not (isinstance(args[0], Ref) and is_scalar(args[0].ty)) else I.rv(args[0], st), line)
            finally:
                I.record = rec
        elif len(args) == 0:
            pass
        else:
            g = None
            for c in I.p.bycls.get(strip(ety), []):
                if c["kind"] == "ctor" and len(c["params"]) == len(args) and "body" in c:
                    g = c
            if g is not None:
                I.default_construct(st, el, line, g, args)
            elif I.eigen_dims(ety):
                construct_eigen(I, el, args, st)
            else:
                I.note("emplace " + ety)
        st.setk(loc[0], loc[1] + ("@size",), s + ONE)
        return el
    if n == "pop_back":
        s = I.size_of(st, loc)
        I.emit("pop", st, line, loc=loc)
        st.setk(loc[0], loc[1] + ("@size",), s - ONE)
        return VOID
    if n == "clear":
        I.emit("clear", st, line, loc=loc, nm=I.nameof(st, loc))
        I.clear_prefix(st, loc, (("empty", fresh("e")[1]),))
        st.setk(loc[0], loc[1] + ("@size",), ZERO)
        return VOID
    if n in ("resize", "assign"):
        s = I.num(I.rv(args[0], st))
        ety = el_type(I, this, "?")
        old = I.size_of(st, loc)
        I.emit("resize", st, line, loc=loc, size=s)
        if len(args) > 1 and (n == "assign" or (old.is_const() and old.cval() == 0)):
            I.clear_arr(st, *loc)
            v = I.rv(args[1], st)
            if isinstance(v, (P, Cond, Ptr)):
                st.setk(loc[0], loc[1] + ("@fill",), v)
        elif is_scalar(ety) and old.is_const() and old.cval() == 0:
            st.setk(loc[0], loc[1] + ("@fill",), ZERO if strip(ety) != "bool" else FALSE)
        elif strip(ety).startswith("std::vector") and old.is_const() and s.is_const() and s.cval() - old.cval() < 4096:
            for i in range(int(old.cval()), int(s.cval())):
                el = (loc[0], loc[1] + (("#", C(i)),))
                st.setk(el[0], el[1] + ("@size",), ZERO)
        st.setk(loc[0], loc[1] + ("@size",), s)
        return VOID
    if n == "reserve":
        return VOID
    if n in ("begin", "cbegin"):
        return It(loc, ZERO, el_type(I, this, "?"))
    if n in ("end", "cend"):
        s = I.size_of(st, loc)
        return It(loc, "end", el_type(I, this, "?"))
    if n == "erase":
        vs = [value_of(I, a, st) for a in args]
        I.emit("erase", st, line, loc=loc, args=vs)
        s = I.size_of(st, loc)
        cnt = elements(I, st, loc)
        ix = [it_index(I, v, st) for v in vs]
        if cnt is not None and all(i is not None for i in ix):
            a, b = (ix[0], ix[0] + 1) if len(ix) == 1 else ix
            if a >= cnt and len(ix) == 1:
                I.trap(st, line, "erase(end())")
                return It(loc, "end", el_type(I, this, "?"))
            permute(I, st, loc, [i for i in range(cnt) if not a <= i < b])
            return It(loc, C(a), el_type(I, this, "?"))
        if len(vs) == 1:
            I.clear_prefix(st, loc, (("erased", I.nameof(st, loc), I.k(vs[0])),))
            st.setk(loc[0], loc[1] + ("@size",), s - ONE)
        else:
            I.havoc(st, loc)
        return It(loc, ("after-erase",) + fresh("e"), el_type(I, this, "?"))
    if n == "insert":
        vs = [value_of(I, a, st) for a in args]
        I.emit("insert", st, line, loc=loc, args=vs)
        s = I.size_of(st, loc)
        cnt = elements(I, st, loc)
        at = it_index(I, vs[0], st)
        if cnt is not None and at is not None and len(vs) == 2:
            ety = el_type(I, this, "?")
            tmp = (fresh("tmp"), ())
            I.init_from(st, Ref(tmp, ety), args[1] if not (isinstance(args[1], Ref) and is_scalar(args[1].ty)) else I.rv(args[1], st), line)
            permute(I, st, loc, list(range(at)) + [None] + list(range(at, cnt)))
            I.copy(st, (loc[0], loc[1] + (("#", C(at)),)), tmp, quiet=True)
            return It(loc, C(at), ety)
        if cnt is not None and at is not None and len(vs) == 3:
            i0, i1 = it_index(I, vs[1], st), it_index(I, vs[2], st)
            if i0 is not None and i1 is not None and isinstance(vs[1], It) and vs[1].loc != loc and elements(I, st, vs[1].loc) is not None:
                permute(I, st, loc, list(range(at)) + [None] * (i1 - i0) + list(range(at, cnt)))
                for j in range(i0, i1):
                    I.copy(st, (loc[0], loc[1] + (("#", C(at + j - i0)),)), (vs[1].loc[0], vs[1].loc[1] + (("#", C(j)),)), quiet=True)
                return It(loc, C(at), el_type(I, this, "?"))
        if len(vs) == 3 and isinstance(vs[1], It) and isinstance(vs[2], It):
            m = I.size_of(st, vs[1].loc)
            I.havoc(st, loc)
            st.setk(loc[0], loc[1] + ("@size",), s + m)
        else:
            I.havoc(st, loc)
            st.setk(loc[0], loc[1] + ("@size",), s + ONE)
        return VOID
    if n == "operator=":
        if isinstance(args[0], Ref):
            I.copy(st, loc, args[0].loc, line)
        elif isinstance(args[0], ListV):
            I.clear_prefix(st, loc, (("empty", fresh("e")[1]),))
            assign_list(I, st, this, args[0])
        return this
    if n == "fill":
        I.clear_arr(st, *loc)
        st.setk(loc[0], loc[1] + ("@fill",), I.rv(args[0], st))
        return VOID
    return I.opaque_call(f, this, args, st, line)


def mapm(I, f, n, this, args, st, line, rty):
    if isinstance(this, Ptr) and this.loc is not None:
        this = Ref(this.loc, this.ty)
    if not isinstance(this, Ref):
        I.note("map method on value")
        return I.opaque_value(rty, ("map", n, I.k(this)), st)
    loc = this.loc
    ta = targs(strip(this.ty))
    vty = ta[1] if len(ta) > 1 else strip(rty)

    def key(a):
        k = I.rv(a, st)
        if isinstance(k, Ref) and "pair" in k.ty:
            c = [st.getk(k.loc[0], k.loc[1] + (x,)) for x in ("first", "second")]
            if all(isinstance(x, P) and x.is_const() for x in c):
                return Str("pair:%012d:%012d" % tuple(int(x.cval()) for x in c))
        return k if isinstance(k, (P, Str)) else P.atom(("key", I.k(k)))
    if n in ("operator[]", "at"):
        k = key(args[0])
        I.emit("mapindex", st, line, loc=loc, nm=I.nameof(st, loc), key=k, checked=(n == "at"))
        if n == "operator[]":
            h = has_key(I, st, loc, k)
            new = h is FALSE
            touch_key(I, st, loc, k)
            if new and keys_of(st, loc) is not None:
                el = (loc[0], loc[1] + (("#", k),))
                if is_scalar(vty):
                    st.setk(el[0], el[1], FALSE if strip(vty) == "bool" else ZERO)
                elif not vty.rstrip().endswith("*"):
                    I.default_construct(st, Ref(el, vty), line)
        elif has_key(I, st, loc, k) is FALSE:
            I.trap(st, line, "map::at with a key that is not in the map")
        v = st.getk(loc[0], loc[1] + (("#", k),))
        if isinstance(v, Ref):
            return v
        return Ref((loc[0], loc[1] + (("#", k),)), vty)
    if n == "size":
        return I.size_of(st, loc)
    if n == "empty":
        return compare("==", I.size_of(st, loc), ZERO)
    if n == "clear":
        I.emit("clear", st, line, loc=loc, nm=I.nameof(st, loc))
        I.clear_prefix(st, loc, (("empty", fresh("e")[1]),))
        set_keys(st, loc, ())
        return VOID
    ks = keys_of(st, loc)
    if ks is not None and n in ("begin", "cbegin", "rbegin", "rend"):
        if n == "rend":
            return It(loc, "rend", "map", True)
        if n == "rbegin":
            return It(loc, ("key", pkey(ks[-1])), "map", True) if ks else It(loc, "rend", "map", True)
        return It(loc, ("key", pkey(ks[0])) if ks else "end", "map")
    if n in ("begin", "cbegin"):
        return It(loc, ZERO, "map")
    if n in ("end", "cend"):
        return It(loc, "end", "map")
    if n == "rbegin":
        return It(loc, I.size_of(st, loc) - ONE, "map", True)
    if n == "rend":
        return It(loc, C(-1), "map", True)
    if n == "find":
        k = key(args[0])
        I.emit("mapfind", st, line, loc=loc, key=k)
        return It(loc, ("key", k), "map")
    if n == "count":
        return alg.ite(has_key(I, st, loc, key(args[0])), ONE, ZERO)
    if n == "erase":
        v = value_of(I, args[0], st)
        I.emit("erase", st, line, loc=loc, args=[v], nm=I.nameof(st, loc))
        k = v.pos[1] if isinstance(v, It) and isinstance(v.pos, tuple) and v.pos[0] == "key" else (v if isinstance(v, P) else None)
        s = I.size_of(st, loc)
        if k is not None:
            h = has_key(I, st, loc, k)
            ks, c = keys_of(st, loc), ckey(k)
            if ks is not None and c is not None:
                I.clear_prefix(st, (loc[0], loc[1] + (("#", k),)))
                nx = next((It(loc, ("key", pkey(q)), "map") for q in ks if q > c), It(loc, "end", "map"))
                set_keys(st, loc, tuple(q for q in ks if q != c))
                return nx if isinstance(v, It) else C(1 if c in ks else 0)
            if ks is not None:
                forget_keys(st, loc)
            I.clear_prefix(st, (loc[0], loc[1] + (("#", k),)), (("erasedkey",),))
            st.setk(loc[0], loc[1] + ("@has", k), FALSE)
            st.setk(loc[0], loc[1] + ("@size",), s - alg.ite(h, ONE, ZERO))
        elif isinstance(v, It) and v.pos == "end":
            I.trap(st, line, "erase(end())")
        else:
            I.havoc(st, loc)
        return I.opaque_value(rty, ("erase", fresh("e")), st)
    if n == "operator=":
        if isinstance(args[0], Ref):
            I.copy(st, loc, args[0].loc, line)
        return this
    if n in ("insert", "emplace"):
        I.emit("insert", st, line, loc=loc, args=args)
        I.havoc(st, loc)
        return I.opaque_value(rty, ("ins", fresh("e")), st)
    return I.opaque_call(f, this, args, st, line)


def iterm(I, f, n, this, args, st, line, rty):
    it = value_of(I, this, st)
    if n in ("operator->", "operator*"):
        if isinstance(it, It):
            r = deref_it(I, it, st)
            if isinstance(r, Ref):
                return Ptr(r.loc, r.ty) if n == "operator->" else r
        return I.opaque_value(rty + ("&" if n == "operator*" else ""), ("iter", n, I.k(it)), st)
    if n in ("operator++", "operator--"):
        if isinstance(it, It) and isinstance(this, Ref):
            d = ONE if n == "operator++" else -ONE
            if it.rev:
                d = -d
            pos = it.pos + d if isinstance(it.pos, P) else ("next", it.pos)
            ks = keys_of(st, it.loc) if it.ety == "map" else None
            if ks is not None and (it.pos in ("end", "rend") or isinstance(it.pos, tuple) and it.pos[0] == "key" and ckey(it.pos[1]) in ks):
                i = (len(ks) if it.pos == "end" else -1 if it.pos == "rend" else ks.index(ckey(it.pos[1]))) + int(d.cval())
                pos = ("key", pkey(ks[i])) if 0 <= i < len(ks) else "rend" if it.rev else "end"
            elif it.pos == "end" and not it.rev:
                pos = I.size_of(st, it.loc) + d
            st.setk(this.loc[0], this.loc[1], It(it.loc, pos, it.ety, it.rev))
            return this if not args else it
        return it
    if n in ("operator+", "operator-"):
        v = value_of(I, args[0], st)
        if isinstance(it, It) and isinstance(v, P) and isinstance(it.pos, P):
            return It(it.loc, it.pos + v if n == "operator+" else it.pos - v, it.ety)
        if isinstance(it, It) and isinstance(v, It):
            return P.atom(("itdiff", I.k(it), I.k(v)))
        return it
    if n == "operator=":
        v = value_of(I, args[0], st)
        st.setk(this.loc[0], this.loc[1], v)
        return this
    if n in ("operator==", "operator!="):
        c = it_eq(I, it, value_of(I, args[0], st), st)
        return c if n == "operator==" else cnot(c)
    if n == "base":
        return it
    return I.opaque_value(rty, ("iter", n, I.k(it)), st)


def eigen(I, f, ns, n, this, args, st, line, rty):
    vs = [value_of(I, a, st) for a in args]
    isref = isinstance(this, Ref)
    if isref and ("InnerIterator" in ns or "InnerIterator" in this.ty):
        r = inner_it(I, this, n, st)
        if r is not None:
            return r
    if ns == "Eigen::SparseMatrix" or (isref and strip(this.ty).startswith("Eigen::SparseMatrix")):
        if n in ("coeffRef", "coeff", "insert"):
            i, j = I.num(vs[0]), I.num(vs[1])
            if I.strict:
                for x, k in ((i, "@rows"), (j, "@cols")):
                    d = st.getk(this.loc[0], this.loc[1] + (k,))
                    if x.is_const() and isinstance(d, P) and d.is_const() and not 0 <= x.cval() < d.cval():
                        I.trap(st, line, "matrix index %s of %s" % (x.cval(), d.cval()))
            r = Ref((this.loc[0], this.loc[1] + (("#", i, j),)), "double")
            return r
        if n in ("resize", "reserve", "finalize", "makeCompressed"):
            if n == "resize":
                I.clear_arr(st, *this.loc)
                st.setk(this.loc[0], this.loc[1] + ("@fill",), ZERO)
                st.setk(this.loc[0], this.loc[1] + ("@rows",), I.num(vs[0]))
                st.setk(this.loc[0], this.loc[1] + ("@cols",), I.num(vs[1]))
                I.emit("mresize", st, line, loc=this.loc, rows=I.num(vs[0]), cols=I.num(vs[1]))
            return VOID
        if n == "setZero":
            I.emit("msetzero", st, line, loc=this.loc)
            I.clear_arr(st, *this.loc)
            st.setk(this.loc[0], this.loc[1] + ("@fill",), ZERO)
            return this
        if n == "operator=":
            assign_matrix(I, st, this, args[0] if not isinstance(args[0], Ref) else args[0], line)
            I.emit("massign", st, line, loc=this.loc, val=vs[0])
            return this
        if n in ("outerSize", "rows"):
            v = st.getk(this.loc[0], this.loc[1] + ("@rows",))
            return v if v is not None else P.atom(("rows", I.nameof(st, this.loc)))
        if n == "cols":
            v = st.getk(this.loc[0], this.loc[1] + ("@cols",))
            return v if v is not None else P.atom(("cols", I.nameof(st, this.loc)))
    if n in ("x", "y", "z", "w") and not args:
        i = "xyzw".index(n)
        return elem(I, this, C(i), ZERO, st)
    if n in ("operator()", "operator[]", "coeff", "coeffRef"):
        if len(vs) == 1:
            return elem(I, this, I.num(vs[0]), None, st)
        return elem(I, this, I.num(vs[0]), I.num(vs[1]), st)
    if n == "setZero" or n == "setConstant" or n == "setOnes" or n == "fill":
        v = ZERO if n == "setZero" else (ONE if n == "setOnes" else I.num(vs[0]))
        if isinstance(this, View):
            m = as_mat(I, this, st)
            if isinstance(m, Mat):
                write_view(I, st, this, m.map(lambda x: v), line)
            return this
        if n == "setZero" and len(vs) >= 1:
            st.setk(this.loc[0], this.loc[1] + ("@rows",), I.num(vs[0]))
            st.setk(this.loc[0], this.loc[1] + ("@cols",), I.num(vs[1]) if len(vs) > 1 else ONE)
        I.emit("mfill", st, line, loc=this.loc, val=v)
        d = dims_of(I, this, st)
        I.clear_arr(st, *this.loc)
        if d:
            for i in range(d[0]):
                for j in range(d[1]):
                    st.setk(this.loc[0], this.loc[1] + (("#", C(i), C(j)),), v)
        else:
            st.setk(this.loc[0], this.loc[1] + ("@fill",), v)
        return this
    if n == "setIdentity":
        d = dims_of(I, this, st)
        if d:
            for i in range(d[0]):
                for j in range(d[1]):
                    st.setk(this.loc[0], this.loc[1] + (("#", C(i), C(j)),), ONE if i == j else ZERO)
        return this
    if n in ("resize", "conservativeResize"):
        I.emit("mresize", st, line, loc=this.loc, rows=I.num(vs[0]), cols=I.num(vs[1]) if len(vs) > 1 else ONE)
        if n == "resize":
            I.clear_arr(st, *this.loc)
            st.setk(this.loc[0], this.loc[1] + ("@fill",), DEL)
            st.setk(this.loc[0], this.loc[1] + ("@name",), (("uninit", "resized", line, fresh("u")[1]),))
        st.setk(this.loc[0], this.loc[1] + ("@rows",), I.num(vs[0]))
        st.setk(this.loc[0], this.loc[1] + ("@cols",), I.num(vs[1]) if len(vs) > 1 else ONE)
        return VOID
    if n == "operator<<":
        # comma initialiser
        if isinstance(this, View):
            m = as_mat(I, this, st)
            if isinstance(m, Mat):
                cm = Comma(this.ref, 0, m.r, m.c, this)
                return comma_put(I, cm, vs[0], args[0], st, line)
            return this
        d = dims_of(I, this, st)
        if d is None:
            I.note("comma init of unknown size")
            I.havoc(st, this.loc)
            return this
        return comma_put(I, Comma(this, 0, d[0], d[1]), vs[0], args[0], st, line)
    if n == "operator," and isinstance(this, Comma):
        return comma_put(I, this, vs[0], args[0], st, line)
    if n == "operator," or n == "finished":
        return this
    if n in ("col", "row"):
        if isref:
            return View(this, n, I.num(vs[0]))
        m = as_mat(I, this, st)
        i = I.num(vs[0])
        if isinstance(m, Mat) and i.is_const():
            if n == "col":
                return Mat(m.r, 1, {(k, 0): m.e[(k, i.cval())] for k in range(m.r)})
            return Mat(1, m.c, {(0, k): m.e[(i.cval(), k)] for k in range(m.c)})
        return OpM(("view", n, i, I.k(m)))
    if n == "array":
        return View(this, "array") if isref else this
    if n in ("noalias", "eval", "matrix", "derived"):
        return this
    if n in ("rows", "cols", "size", "outerSize"):
        m = None
        if isref:
            d = dims_of(I, this, st)
            if d:
                return C({"rows": d[0], "cols": d[1], "size": d[0] * d[1], "outerSize": d[1]}[n])
            v = st.getk(this.loc[0], this.loc[1] + ("@cols" if n == "cols" else "@rows",))
            if v is not None:
                return v
            return P.atom((n if n != "size" else "rows", I.nameof(st, this.loc)))
        m = as_mat(I, this, st)
        if isinstance(m, Mat):
            return C({"rows": m.r, "cols": m.c, "size": m.r * m.c, "outerSize": m.c}[n])
        return P.atom((n, I.k(m)))
    if ns.endswith("InnerIterator") or ns == "Eigen::SparseCompressedBase::InnerIterator":
        key = I.nameof(st, this.loc) if isref else I.k(this)
        if n == "operator++":
            return this
        if n == "operator bool":
            return Cond("atom", ("innerit", key, fresh("i")))
        return P.atom(("inner", n, key))
    if I.solved is not None and isref and n in ("compute", "factorize", "solve") and args:
        x = as_mat(I, args[0], st)
        if n != "solve":
            I.solved[("matrix", this.loc)] = x
        else:
            I.solved.setdefault("calls", []).append((I.solved.get(("matrix", this.loc)), x, strip(this.ty)))
            k = len(I.solved["calls"])
            if isinstance(x, Mat):
                return Mat(x.r, x.c, {(i, j): P.atom(("sym", "sol%d_%d" % (k, i))) for i in range(x.r) for j in range(x.c)})
    if n in ("compute", "analyzePattern", "factorize", "setTolerance", "setMaxIterations"):
        I.emit("solve", st, line, op=n, val=[I.k(as_mat(I, a, st)) for a in args])
        return this
    if n == "solve":
        I.emit("solve", st, line, op=n, val=[I.k(as_mat(I, a, st)) for a in args])
        return OpM(("solve", I.nameof(st, this.loc) if isref else I.k(this), I.k(as_mat(I, args[0], st))))

    m = as_mat(I, this, st)
    if n == "operator=":
        if isinstance(this, View):
            write_view(I, st, this, as_mat(I, args[0], st), line)
        else:
            assign_matrix(I, st, this, args[0], line)
        return this
    if n in ("operator+=", "operator-="):
        s = 1 if n == "operator+=" else -1
        if args and not is_mat(I, args[0], st):
            v = I.num(vs[0])
            r = m.map(lambda x: x + v.scale(s)) if isinstance(m, Mat) else OpM(("adds", I.k(m), v.scale(s)))
        else:
            r = madd(I, m, as_mat(I, args[0], st), s)
        if isinstance(this, View):
            write_view(I, st, this, r, line)
        else:
            I.emit("maddassign", st, line, loc=this.loc, sign=s, val=as_mat(I, args[0], st) if is_mat(I, args[0], st) else vs[0])
            write_mat(I, st, this, r, line)
        return this
    if n in ("operator*=", "operator/="):
        v = vs[0]
        if is_mat(I, args[0], st):
            r = mm(I, m, as_mat(I, args[0], st))
        else:
            v = I.num(v)
            r = mscale(I, m, v if n == "operator*=" else ONE / v)
        if isinstance(this, View):
            write_view(I, st, this, r, line)
        else:
            write_mat(I, st, this, r, line)
        return this
    if n == "operator+":
        return madd(I, m, as_mat(I, args[0], st), 1)
    if n == "operator-":
        if not args:
            return m.map(lambda x: -x) if isinstance(m, Mat) else OpM(("neg", I.k(m)))
        return madd(I, m, as_mat(I, args[0], st), -1)
    if n == "operator*":
        if is_mat(I, args[0], st):
            return mm(I, m, as_mat(I, args[0], st))
        return mscale(I, m, I.num(vs[0]))
    if n == "operator/":
        return mscale(I, m, ONE / I.num(vs[0]))
    if n == "dot":
        b = as_mat(I, args[0], st)
        if isinstance(m, Mat) and isinstance(b, Mat) and m.r * m.c == b.r * b.c:
            s = ZERO
            for x, y in zip(m.e.values(), b.e.values()):
                s = s + x * y
            return s
        return P.atom(("dot", I.k(m), I.k(b)))
    if n == "cross":
        b = as_mat(I, args[0], st)
        if isinstance(m, Mat) and isinstance(b, Mat) and m.r * m.c == 3:
            a = list(m.e.values())
            c = list(b.e.values())
            return Mat(3, 1, {(0, 0): a[1] * c[2] - a[2] * c[1], (1, 0): a[2] * c[0] - a[0] * c[2], (2, 0): a[0] * c[1] - a[1] * c[0]})
        return OpM(("cross", I.k(m), I.k(b)))
    if n == "norm":
        return alg.fn("sqrt", sqn(m)) if isinstance(m, Mat) else P.atom(("norm", I.k(m)))
    if n == "squaredNorm":
        return sqn(m) if isinstance(m, Mat) else P.atom(("sqnorm", I.k(m)))
    if n in ("normalize", "normalized"):
        if isinstance(m, Mat):
            # the unit vector is kept as one value number per component
            nn = alg.fn("sqrt", sqn(m))
            if I.cfg.get("opaque_unit"):
                r = Mat(m.r, m.c, {k: P.atom(("unit", m, C(k[0]))) for k in m.e})
            else:
                r = m.map(lambda x: x / nn)
        else:
            r = OpM(("unit", I.k(m)))
        if n == "normalize":
            write_mat(I, st, this, r, line)
            return VOID
        return r
    if n in ("transpose", "transposeInPlace"):
        if isinstance(m, Mat):
            r = Mat(m.c, m.r, {(j, i): v for (i, j), v in m.e.items()})
            # keep row-major insertion order
            r = Mat(r.r, r.c, {(i, j): r.e[(i, j)] for i in range(r.r) for j in range(r.c)})
        else:
            r = OpM(("T", I.k(m)))
        if n == "transposeInPlace":
            write_mat(I, st, this, r, line)
            return VOID
        return r
    if n == "inverse":
        return inverse(I, m)
    if n == "determinant":
        return determinant(I, m)
    if n == "sum":
        if isinstance(m, Mat):
            s = ZERO
            for x in m.e.values():
                s = s + x
            return s
        return P.atom(("msum", I.k(m)))
    if n in ("maxCoeff", "minCoeff"):
        if isinstance(m, Mat):
            xs = list(m.e.values())
            r = xs[0]
            for x in xs[1:]:
                r = alg.fn(n[:3], r, x)
            return r
        return P.atom((n, I.k(m)))
    if n == "trace" and isinstance(m, Mat):
        s = ZERO
        for i in range(m.r):
            s = s + m.e[(i, i)]
        return s
    I.note("Eigen " + n)
    return None


def inner_it(I, this, n, st):
    """iteration over the entries of one column; every entry of an explicit matrix is taken as stored"""
    g = lambda k: st.getk(this.loc[0], this.loc[1] + (k,))
    src, col, pos = g("@src"), g("@col"), g("@pos")
    if not isinstance(src, Ref) or not isinstance(pos, P):
        return None
    d = dims_of(I, src, st)
    if not d or not pos.is_const():
        return None
    if n == "operator++":
        st.setk(this.loc[0], this.loc[1] + ("@pos",), pos + ONE)
        return this
    if n == "operator bool":
        return TRUE if pos.cval() < d[0] else FALSE
    if n in ("row", "index"):
        return pos
    if n in ("col", "outer"):
        return col
    if n in ("value", "valueRef"):
        r = Ref((src.loc[0], src.loc[1] + (("#", pos, col),)), "double")
        return r if n == "valueRef" else I.rv(r, st)
    return None


def elem(I, this, i, j, st):
    if isinstance(this, Ref):
        d = I.eigen_dims(this.ty)
        x = st.getk(this.loc[0], this.loc[1])
        if isinstance(x, (Mat, OpM)):
            this = x
        else:
            if j is None:
                if d and d[0] == 1:
                    i, j = ZERO, i
                else:
                    j = ZERO
            if I.strict and i.is_const() and j.is_const():
                d = dims_of(I, this, st)
                if d and not (0 <= i.cval() < d[0] and 0 <= j.cval() < d[1]):
                    I.trap(st, None, "matrix index (%s,%s) of %sx%s" % (i.cval(), j.cval(), d[0], d[1]))
            return Ref((this.loc[0], this.loc[1] + (("#", i, j),)), "double")
    if isinstance(this, View) and isinstance(this.ref, Ref):
        k = i
        idx = ("#", k, this.i) if this.kind == "col" else ("#", this.i, k)
        if this.kind == "row" and j is not None:
            idx = ("#", this.i, j)
        return Ref((this.ref.loc[0], this.ref.loc[1] + (idx,)), "double")
    m = as_mat(I, this, st)
    if isinstance(m, Mat):
        if j is None:
            if m.r == 1:
                i, j = ZERO, i
            else:
                j = ZERO
        if i.is_const() and j.is_const() and (i.cval(), j.cval()) in m.e:
            return m.e[(i.cval(), j.cval())]
    return P.atom(("elt", I.k(m), i, j if j is not None else ZERO))


def comma_put(I, cm, v, arg, st, line):
    if is_mat(I, arg, st):
        m = as_mat(I, arg, st)
        if isinstance(m, Mat):
            if m.c == 1 or m.r == 1:
                xs = [m.e[(i, j)] for i in range(m.r) for j in range(m.c)]
            else:
                xs = [m.e[(i, j)] for i in range(m.r) for j in range(m.c)]
        else:
            xs = [P.atom(fresh("cm"))]
    else:
        xs = [I.num(v)]
    for x in xs:
        i, j = divmod(cm.n, cm.c if hasattr(cm, "c") else cm.cols)
        if cm.view is not None:
            k = cm.n
            idx = ("#", C(k), cm.view.i) if cm.view.kind == "col" else ("#", cm.view.i, C(k))
        else:
            idx = ("#", C(i), C(j))
        loc = (cm.ref.loc[0], cm.ref.loc[1] + (idx,))
        I.emit("mstore", st, line, loc=loc, val=x)
        st.setk(loc[0], loc[1], x)
        cm.n += 1
    return cm
