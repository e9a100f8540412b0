"""Algebraic value domain: canonical rational-function normal forms over interned
value numbers ("atoms").  Two expressions that the ring axioms identify get the
same normal form, so equality is decided by rewriting, with no solver."""
from fractions import Fraction

_ATOMS = []          # id -> key
_IDX = {}            # key -> id
_NAMES = {}


def atom_id(key):
    i = _IDX.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(key)
        _IDX[key] = i
    return i


def atom_key(i):
    return _ATOMS[i]


def _norm(f):
    return f.numerator if isinstance(f, Fraction) and f.denominator == 1 else f


class P:
    """polynomial with integer (possibly negative) exponents over atoms"""
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c))
        c = _norm(c)
        return P({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(key):
        return P({((atom_id(key), 1),): 1})

    # -- identity -----------------------------------------------------
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    # -- queries ------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0) if self.is_const() else None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def deep_atoms(self, seen=None):
        """every atom reachable, including inside composite atoms"""
        seen = set() if seen is None else seen
        for a in self.atoms():
            if a not in seen:
                seen.add(a)
                _deep(_ATOMS[a], seen)
        return seen

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # -- arithmetic ---------------------------------------------------
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = _norm(v)
        return P(t)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rmul__(self, c):
        return self.scale(c)

    def scale(self, c):
        c = _norm(c)
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return P({m: _norm(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        t = {}
        fix = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, special = _mmul(m1, m2)
                c = _norm(c1 * c2)
                if special:
                    fix.append((m, c))
                else:
                    v = t.get(m, 0) + c
                    if v == 0:
                        t.pop(m, None)
                    else:
                        t[m] = _norm(v)
        r = P(t)
        for m, c in fix:
            r = r + _reduce(m, c)
        return r

    def inv(self):
        if not self.t:
            return P.atom(("inf",))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return _reduce(tuple((a, -e) for a, e in m), _norm(Fraction(1) / c))
        # factor out content and monomial gcd
        ms = list(self.t)
        g = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(g):
                e = min(g[a], d.get(a, 0))
                if e == 0:
                    del g[a]
                else:
                    g[a] = e
            for a, e in d.items():
                if e < 0 and a not in g:
                    g[a] = e if a not in dict(ms[0]) else min(e, dict(ms[0])[a])
        if g:
            gm = tuple(sorted((a, -e) for a, e in g.items()))
            q = self * P({gm: 1})
            if len(q.t) > 1:
                return q.inv() * P({gm: 1}) if q.t != self.t else self._invp()
        return self._invp()

    def _invp(self):
        lead = max(self.t)
        c = self.t[lead]
        q = self.scale(_norm(Fraction(1) / c))
        a = atom_id(("P", q))
        return P({((a, -1),): _norm(Fraction(1) / c)})

    def __truediv__(self, o):
        if o.is_const() and o.t:
            return self.scale(Fraction(1) / o.cval())
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- substitution -------------------------------------------------
    def subst(self, f):
        """f(atom_id) -> P or None; applied deeply to composite atoms"""
        memo = {}

        def sa(a):
            if a in memo:
                return memo[a]
            r = f(a)
            if r is None:
                k = _ATOMS[a]
                k2 = _ksub(k, sp)
                if k2 == k:
                    r = P({((a, 1),): 1})
                else:
                    r = rebuild(k2)
            memo[a] = r
            return r

        def sp(p):
            r = ZERO
            for m, c in p.t.items():
                x = P.const(c)
                for a, e in m:
                    x = x * sa(a).pow(e)
                r = r + x
            return r
        return sp(self)

    def diff(self, a):
        """partial derivative with respect to atom id a (composite atoms by chain rule)"""
        r = ZERO
        for m, c in self.t.items():
            for i, (b, e) in enumerate(m):
                d = datom(b, a)
                if not d.t:
                    continue
                rest = list(m)
                rest[i] = (b, e - 1)
                mm = tuple(x for x in rest if x[1] != 0)
                r = r + _reduce(mm, c * e) * d
        return r

    def __repr__(self):
        return show(self)


def _ksub(k, sp):
    if isinstance(k, P):
        return sp(k)
    if isinstance(k, tuple):
        return tuple(_ksub(x, sp) for x in k)
    if hasattr(k, "subst_with"):
        return k.subst_with(sp)
    return k


def rebuild(k):
    if k[0] == "P":
        return k[1]
    if k[0] == "fn":
        return fn(k[1], *k[2:])
    if k[0] == "ite":
        return ite(k[1], k[2], k[3])
    return P.atom(k)


def _deep(k, seen):
    if isinstance(k, P):
        k.deep_atoms(seen)
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            _deep(x, seen)
    elif hasattr(k, "deep"):
        k.deep(seen)


def _mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    special = False
    for a, e in d.items():
        k = _ATOMS[a]
        if k[0] == "P" and e > 0:
            special = True
        elif k[0] == "fn" and k[1] in ("sqrt", "fabs") and (e > 1 or e < 0):
            special = True
    return tuple(sorted(d.items())), special


def _reduce(m, c):
    """canonicalise one monomial: expand positive powers of 'P' atoms, sqrt^2"""
    out = []
    extra = ONE
    for a, e in m:
        k = _ATOMS[a]
        if k[0] == "P" and e > 0:
            extra = extra * k[1].pow(e)
        elif k[0] == "fn" and k[1] == "sqrt" and (e > 1 or e < 0):
            q, r = divmod(e, 2)
            x = k[2]
            if q:
                extra = extra * (x.pow(q) if q > 0 else x.inv().pow(-q))
            if r:
                out.append((a, 1))
        elif k[0] == "fn" and k[1] == "fabs" and (e > 1 or e < 0):
            q, r = divmod(e, 2)
            extra = extra * (k[2].pow(2 * q) if q > 0 else k[2].inv().pow(-2 * q))
            if r:
                out.append((a, 1))
        else:
            out.append((a, e))
    r = P({tuple(out): _norm(c)}) if c != 0 else ZERO
    return r * extra if extra is not ONE else r


def datom(b, a):
    if b == a:
        return ONE
    k = _ATOMS[b]
    if k[0] == "P":
        return k[1].diff(a)
    if k[0] == "fn":
        if k[1] == "sqrt":
            d = k[2].diff(a)
            return d.scale(Fraction(1, 2)) / P({((b, 1),): 1}) if d.t else ZERO
        if k[1] == "exp":
            return P({((b, 1),): 1}) * k[2].diff(a)
        if k[1] == "sin":
            return fn("cos", k[2]) * k[2].diff(a)
        if k[1] == "cos":
            return -fn("sin", k[2]) * k[2].diff(a)
        if k[1] == "log":
            return k[2].diff(a) / k[2]
        if k[1] == "sinh":
            return fn("cosh", k[2]) * k[2].diff(a)
        if k[1] == "cosh":
            return fn("sinh", k[2]) * k[2].diff(a)
        if k[1] == "expm1":
            return fn("exp", k[2]) * k[2].diff(a)
        if any(isinstance(x, P) and a in x.deep_atoms() for x in k[2:]):
            raise NotDifferentiable(k[1])
        return ZERO
    if k[0] == "ite":
        if a in P({((b, 1),): 1}).deep_atoms():
            return ite(k[1], k[2].diff(a), k[3].diff(a))
        return ZERO
    s = set()
    _deep(k, s)
    if a in s:
        raise NotDifferentiable(str(k[0]))
    return ZERO


class NotDifferentiable(Exception):
    pass


ZERO = P({})
ONE = P({(): 1})


def C(c):
    return P.const(c)


def sym(*name):
    return P.atom(("sym",) + name)


_roots = {}


def _square_root(p):
    """q with q*q == p for a perfect square polynomial, else None"""
    if not 2 <= len(p.t) <= 120:
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if all(e % 2 == 0 for _, e in m) and c > 0:
                import math
                c = Fraction(c)
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return P({tuple((a, e // 2) for a, e in m): Fraction(n, d)})
        return None
    if p in _roots:
        return _roots[p]
    _roots[p] = None
    vs = sorted({a for m in p.t for a, _ in m})
    ix = {a: i for i, a in enumerate(vs)}

    def key(m):
        v = [0] * len(vs)
        for a, e in m:
            v[ix[a]] = e
        return tuple(v)
    lead = max(p.t, key=key)
    r0 = _square_root(P({lead: p.t[lead]}))
    low = min(p.t, key=key)
    if r0 is None or _square_root(P({low: p.t[low]})) is None:
        return None
    q, r = r0, p - r0 * r0
    (lm, lc), = r0.t.items()
    inv = P({tuple((a, -e) for a, e in lm): Fraction(1) / (2 * Fraction(lc))})
    for _ in range(len(p.t) + 1):
        if not r.t:
            break
        if any(a not in ix for m in r.t for a, _ in m):
            return None
        m = max(r.t, key=key)
        t = P({m: r.t[m]}) * inv
        r = r - (q + q + t) * t
        q = q + t
        if len(q.t) > 40:
            return None
    if r.t or q * q != p:
        return None
    _roots[p] = q
    return q


def _at_point(p):
    """exact value of a rational function at one fixed point of its atoms, None when it has other atoms"""
    s = Fraction(0)
    for m, c in p.t.items():
        x = Fraction(c)
        for a, e in m:
            k = _ATOMS[a]
            if k[0] == "P":
                v = _at_point(k[1])
            elif k[0] == "sym":
                v = Fraction(7 * a % 101 + 3, 11 * a % 13 + 2)
            else:
                v = None
            if v is None or (v == 0 and e < 0):
                return None
            x *= v ** e
        s += x
    return s


def constant(p):
    """the same value with a quotient that is constant folded"""
    if p.is_const() or len(p.t) > 200:
        return p
    v = _at_point(p)
    if v is not None and eq(p, P.const(v)):
        return P.const(v)
    return p


def fn(name, *args):
    """interpreted unary functions with a little normalisation"""
    a = args[0] if args else None
    if name == "acos":
        a = constant(a)
        if a.is_const() and a.cval() == 1:
            return ZERO
        return P.atom(("fn", "acos", a))
    if name == "sqrt":
        if a.is_const():
            v = Fraction(a.cval())
            if v >= 0:
                import math
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return P.const(Fraction(n, d))
        r = _square_root(a)
        if r is not None:
            return fn("fabs", r)
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if m and c > 0 and all(e % 2 == 0 for _, e in m):
                return fn("sqrt", P.const(c)) * fn("fabs", P({tuple((x, e // 2) for x, e in m): 1}))
        return P.atom(("fn", "sqrt", a))
    if name == "fabs":
        if a.is_const():
            return P.const(abs(a.cval()))
        sg = psign(a)
        if sg is not None and sg >= 0 and sg != 0:
            return a
        if sg is not None and sg < 0:
            return -a
        lead = min(a.t.items(), key=lambda x: x[0])[1]
        if abs(lead) != 1 or lead < 0:
            return fn("fabs", a.scale(Fraction(1) / lead)).scale(abs(lead))
        return P.atom(("fn", "fabs", a))
    if name in ("min", "max") and len(args) == 2:
        x, y = args
        if x == y:
            return x
        b = _big(x - y)
        if b is not None:
            return (y if b > 0 else x) if name == "min" else (x if b > 0 else y)
        if x.is_const() and y.is_const():
            f = min if name == "min" else max
            return P.const(f(x.cval(), y.cval()))
        xs = []
        for q in _leaves(name, x) + _leaves(name, y):
            if q not in xs:
                xs.append(q)
        xs.sort(key=_okey)
        r = xs[0]
        for q in xs[1:]:
            r = P.atom(("fn", name, r, q))
        return r
    if name in ("sin", "sinh", "expm1", "tan", "tanh", "asin", "atan") and a is not None and not a.t:
        return ZERO
    if name in ("cos", "exp", "cosh") and a is not None and not a.t:
        return ONE
    if name == "trunc" and a.is_const():
        return P.const(int(a.cval()))
    if name == "floor" and a.is_const():
        import math
        return P.const(math.floor(a.cval()))
    return P.atom(("fn", name) + tuple(args))


def _leaves(name, p):
    """operands of a nested min/max"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = atom_key(m[0][0])
            if k[0] == "fn" and k[1] == name and len(k) == 4:
                return _leaves(name, k[2]) + _leaves(name, k[3])
    return [p]


def _okey(p):
    return sorted((m, c) for m, c in p.t.items())


def ite(c, a, b):
    if a == b:
        return a
    from absint import Cond, TRUE, FALSE, cnot
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, P) and isinstance(b, P):
        # canonical polarity
        if isinstance(c, Cond) and c.op == "not":
            return ite(c.a, b, a)
        return P.atom(("ite", c, a, b))
    return P.atom(("ite", c, a, b))


class _Tracked(set):
    """a set that names its contents by a version number"""
    seen = {}

    def __init__(self):
        super().__init__()
        self.v = 0

    def _changed(self):
        self.v = _Tracked.seen.setdefault(frozenset(self), len(_Tracked.seen))

    def add(self, x):
        super().add(x)
        self._changed()

    def update(self, *x):
        super().update(*x)
        self._changed()

    def discard(self, x):
        super().discard(x)
        self._changed()

    def clear(self):
        super().clear()
        self._changed()


POSITIVE = _Tracked()     # atom ids assumed strictly positive by the current analysis
LEAST = _Tracked()        # of these, atom ids assumed to be at least 1


def _big(p):
    """sign of a value that contains numeric_limits::max() once, linearly (finite data is assumed to be far below it)"""
    a = atom_id(("sym", "numeric_limits", "max"))
    c = p.t.get(((a, 1),))
    if c is None:
        return None
    for m in p.t:
        if m != ((a, 1),) and any(x == a for x, _ in m):
            return None
    return 1 if c > 0 else -1


def asign(a):
    """sign domain of an atom: 1 (>0), 0.5 (>=0), None"""
    if a in POSITIVE:
        return 1
    k = _ATOMS[a]
    if k[0] == "sym" and len(k) == 3 and k[1] == "numeric_limits":
        return 1
    if k[0] == "fn":
        if k[1] == "exp":
            return 1
        if k[1] == "sqrt":
            return 1 if psign(k[2]) == 1 else 0.5
        if k[1] == "fabs":
            return 0.5
    if k[0] == "size":
        return 0.5
    if k[0] == "P":
        s = psign(k[1])
        return s if s in (1, 0.5) else None
    if k[0] == "ite" and isinstance(k[2], P) and isinstance(k[3], P):
        x, y = psign(k[2]), psign(k[3])
        if x in (1, 0.5) and y in (1, 0.5):
            return min(x, y)
    return None


_smemo = {}


def psign(p):
    """sign domain of a polynomial: 1 >0, 0.5 >=0, 0, -0.5, -1 or None"""
    if not p.t:
        return 0
    key = (p, POSITIVE.v, LEAST.v)
    if key in _smemo:
        return _smemo[key]
    res, strict = None, False
    ok = True
    for m, c in p.t.items():
        s = 1
        for a, e in m:
            x = asign(a)
            if x is None:
                if e % 2 == 0:
                    x = 0.5 if e > 0 else 1
                else:
                    ok = False
                    break
            if x == 0.5 and e < 0:
                x = 1
            s = min(s, x)
        if not ok:
            break
        d = 1 if c > 0 else -1
        if res is None:
            res = d
        elif res != d:
            ok = False
            break
        if s == 1:
            strict = True
    if ok:
        r = res * (1 if strict else 0.5)
    else:
        r = _big(p)
        iv = _numconst(p) if r is None else None
        if iv is not None:
            r = 1 if iv > 0 else -1
        if r is None:
            r = _roots_sign(p)
        if r is None and LEAST:
            r = _from_one(p)
        if r is None and 3 <= len(p.t) <= 60:
            r = _form(p)
            if r is None:
                r = _form(-p)
                r = None if r is None else -r
    _smemo[key] = r
    return r


def _from_one(p):
    """sign of a polynomial in quantities that are at least 1: shifted to the excess over 1"""
    low, top = {}, {}
    for m in p.t:
        d = dict(m)
        for a in LEAST:
            e = d.get(a, 0)
            low[a] = min(low.get(a, e), e)
            top[a] = max(top.get(a, e), e)
    use = [a for a in LEAST if top[a] > low[a]]
    if not use or any(top[a] - low[a] > 12 for a in use):
        return None
    q = p * P({tuple(sorted((a, -low[a]) for a in use if low[a])): 1})
    sub = {}
    for a in use:
        e = atom_id(("sym", "excess", a))
        if e not in POSITIVE:
            POSITIVE.add(e)
        sub[a] = P({((e, 1),): 1}) + ONE
    r = ZERO
    for m, c in q.t.items():
        x = P({tuple(f for f in m if f[0] not in sub): c})
        for a, e in m:
            if a in sub:
                x = x * sub[a].pow(e)
        r = r + x
    return None if any(a in LEAST for m in r.t for a, _ in m) else psign(r)


def _psd(M):
    """is the symmetric rational matrix positive semidefinite"""
    n = len(M)
    M = [row[:] for row in M]
    for k in range(n):
        d = M[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(M[k][j] for j in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / d
            if f:
                for j in range(k, n):
                    M[i][j] -= f * M[k][j]
    return True


def _form(p):
    """sign of a quadratic form in monomials, with or without the help of the products that are positive anyway"""
    r = _form1(p, True)
    return r if r == 1 else _form1(p, False) or r


def _form1(p, drop):
    """1 or 0.5 when p is a quadratic form in monomials that is positive or not negative, else None"""
    neg = [m for m, c in p.t.items() if c < 0]
    base = []
    for m, c in p.t.items():
        if c > 0 and all(e % 2 == 0 and e > 0 for _, e in m):
            base.append(tuple((a, e // 2) for a, e in m))
    if not neg or not base or len(base) > 12:
        return None

    def mul(x, y):
        d = dict(x)
        for a, e in y:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))
    prod = {}
    for i, x in enumerate(base):
        for j in range(i, len(base)):
            prod.setdefault(mul(x, base[j]), (i, j))
    n = len(base)
    M = [[Fraction(0)] * n for _ in range(n)]
    rest = []
    for m, c in p.t.items():
        k = prod.get(tuple(sorted(m)))
        if k is None or (drop and c > 0 and k[0] != k[1] and all(asign(a) == 1 for a, _ in m)):
            rest.append((m, c))
            continue
        i, j = k
        if i == j:
            M[i][i] += Fraction(c)
        else:
            M[i][j] += Fraction(c) / 2
            M[j][i] += Fraction(c) / 2
    strict = False
    for m, c in rest:
        if c < 0 or any(asign(a) not in (1, 0.5) and e % 2 for a, e in m):
            return None
        strict = strict or all(asign(a) == 1 for a, e in m)
    if not _psd(M):
        # cross products of one sign only help
        return None
    if strict:
        return 1
    for i, x in enumerate(base):
        if all(asign(a) == 1 for a, _ in x):
            M[i][i] -= Fraction(1, 10 ** 6)
            if _psd(M):
                return 1
            M[i][i] += Fraction(1, 10 ** 6)
    return 0.5


def _roots_sign(p):
    """sign of A*sqrt(Q) + B (B free of roots or a multiple of one other root) by comparing squares"""
    rs = set()
    for m in p.t:
        for a, e in m:
            k = _ATOMS[a]
            if k[0] == "fn" and k[1] == "sqrt":
                if e != 1:
                    return None
                rs.add(a)
    if not 1 <= len(rs) <= 2:
        return None
    parts = {}
    for m, c in p.t.items():
        here = [a for a, e in m if a in rs]
        if len(here) > 1:
            return None
        k = here[0] if here else None
        parts.setdefault(k, {})[tuple((a, e) for a, e in m if a != k)] = c
    if len(parts) != 2:
        return None
    sq, sg = [], []
    for k, t in parts.items():
        q = P(t)
        sign = psign(q)
        if sign is None or sign == 0:
            return None
        sg.append(1 if sign > 0 else -1)
        sq.append(q * q * (_ATOMS[k][2] if k is not None else ONE))
    if sg[0] == sg[1]:
        return None
    d = psign(sq[0] - sq[1])
    if d is None:
        return None
    return d * sg[0]


def _numconst(p):
    """value of a polynomial over square roots of constants (constant folding), None if not constant or too close to 0"""
    import decimal
    from decimal import Decimal
    with decimal.localcontext() as cx:
        cx.prec = 60
        s = Decimal(0)
        least = Decimal(10) ** -40
        for m, c in p.t.items():
            x = Decimal(Fraction(c).numerator) / Decimal(Fraction(c).denominator)
            for a, e in m:
                k = _ATOMS[a]
                if k[0] == "fn" and k[1] == "sqrt":
                    v = Decimal(Fraction(k[2].cval()).numerator) / Decimal(Fraction(k[2].cval()).denominator) if k[2].is_const() else _numconst(k[2])
                    if v is None or v < 0:
                        return None
                    v = v.sqrt()
                elif k[0] == "P":
                    v = _numconst(k[1])
                    if v is None:
                        return None
                elif k[0] == "fn" and k[1] == "acos":
                    v = Decimal(Fraction(k[2].cval()).numerator) / Decimal(Fraction(k[2].cval()).denominator) if k[2].is_const() else _numconst(k[2])
                    if v is None or abs(v) > 1:
                        return None
                    import math
                    v = Decimal(math.acos(float(v)))
                    least = Decimal(10) ** -12
                else:
                    return None
                x *= v ** e
            s += x
        return s if abs(s) > least else None


def is_zero(p, depth=0):
    """exact zero test for the rational function (clears denominators)"""
    if not p.t:
        return True
    if depth > 12:
        return False
    den = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and _ATOMS[a][0] == "P":
                den[a] = max(den.get(a, 0), -e)
    if not den:
        return False
    r = ZERO
    for m, c in p.t.items():
        d = dict(m)
        x = ONE
        for a, k in den.items():
            e = d.pop(a, 0) + k
            if e:
                x = x * _ATOMS[a][1].pow(e)
        r = r + x * _reduce(tuple(sorted(d.items())), c)
    return is_zero(r, depth + 1)


def eq(a, b):
    return a == b or is_zero(a - b)


def evalf(p, env):
    """numeric evaluation of a normal form (used only to integrate/compare
    extracted tables and closed forms, env: atom id -> float)"""
    import math

    def at(a):
        if a in env:
            return env[a]
        k = _ATOMS[a]
        if k[0] == "P":
            return ev(k[1])
        if k[0] == "fn":
            xs = [ev(x) for x in k[2:]]
            n = k[1]
            if n == "sqrt":
                return math.sqrt(xs[0])
            if n == "fabs":
                return abs(xs[0])
            if n == "pow":
                return xs[0] ** xs[1]
            if n == "min":
                return min(xs)
            if n == "max":
                return max(xs)
            return getattr(math, n)(*xs)
        raise KeyError(k)

    def ev(q):
        s = 0.0
        for m, c in q.t.items():
            v = float(c)
            for a, e in m:
                v *= at(a) ** e
            s += v
        return s
    return ev(p)


def show(p, depth=0):
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str(x[0]))[:12]:
        s = "" if c == 1 and m else ("-" if c == -1 and m else str(c))
        for a, e in m:
            n = showatom(a, depth)
            s += ("*" if s not in ("", "-") else "") + n + ("" if e == 1 else "^%d" % e)
        out.append(s)
    if len(p.t) > 12:
        out.append("...(%d terms)" % len(p.t))
    return " + ".join(out).replace("+ -", "- ")


def showatom(a, depth=0):
    k = _ATOMS[a]
    if depth > 4:
        return "#%d" % a
    if k[0] == "P":
        return "(" + show(k[1], depth + 1) + ")"
    if k[0] == "fn":
        return k[1] + "(" + ", ".join(show(x, depth + 1) for x in k[2:]) + ")"
    if k[0] == "init":
        return showname(k[1], depth + 1)
    if k[0] == "ite":
        return "ite(%s ? %s : %s)" % (k[1], show(k[2], depth + 1), show(k[3], depth + 1))
    if k[0] == "sym":
        return ".".join(str(x) for x in k[1:])
    return k[0] + "(" + ", ".join(show(x, depth + 1) if isinstance(x, P) else str(x) for x in k[1:]) + ")"


def showname(n, depth=0):
    s = ""
    for x in n:
        if isinstance(x, tuple):
            if x and x[0] == "#":
                s += "[" + ",".join(show(y, depth + 1) if isinstance(y, P) else str(y) for y in x[1:]) + "]"
            elif x and x[0] == "L":
                s += "%s" % (x[-1],)
            else:
                s += ("." if s else "") + ":".join(show(y, depth + 1) if isinstance(y, P) else str(y) for y in x)
        else:
            s += ("." if s else "") + str(x)
    return s
