"""Deciding equality of gated (piecewise) normal forms.

Equality is established by joint case distinction on the comparisons that guard the two
forms (each guard polynomial is negative, zero or positive; combinations that contradict the
sum of two known facts are discarded) with normal-form equality in every case.  A difference is only
reported when the two closed forms also separate at a point of the input space (identity
testing of the extracted formulas), so an incomplete normal form cannot raise an alarm."""
import math
import random
import re
from fractions import Fraction

import alg
import absint
from alg import P, ZERO, ONE
from absint import Cond, TRUE, FALSE

C = P.const


class Opaque(Exception):
    pass


class Skip(Exception):
    pass


BAD = ("unk", "havoc", "phi", "lc", "after", "loopc", "loopw", "clob", "ref", "idx", "init", "elt", "inv", "msum", "itpos")


def indeterminate(k):
    """a scalar local or data member that was never assigned: it may hold anything"""
    if k[0] != "init" or absint.NOTED or not isinstance(k[1], tuple):
        return False
    n = k[1]
    if not isinstance(n[0], tuple) or n[0][:1] != ("uninit",):
        return False
    if n[0][1] == "resized":
        return all(isinstance(x, tuple) and x[0] == "#" and all(isinstance(i, P) and i.is_const() for i in x[1:]) for x in n[1:])
    if re.match(r"^(const )?(double|float|int|long|bool)( int)? ?\[\d+\]$", str(n[0][1])):
        # element of a local array of scalars
        return len(n) == 2 and isinstance(n[1], tuple) and n[1][0] == "#" and all(isinstance(i, P) and i.is_const() for i in n[1][1:])
    return n[0][1] != "heap" and not any(x in str(n[0][1]) for x in ("std::", "Eigen")) and all(isinstance(x, str) and x[:1] != "@" for x in n[1:])


class Ev:
    """numeric evaluation of closed forms at one point of the input space"""

    def __init__(self, rng, ints, preset=None):
        self.rng, self.ints = rng, ints
        self.memo = dict(preset or {})

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        k = alg.atom_key(a)
        if k[0] == "P":
            v = self.ev(k[1])
        elif k[0] == "fn":
            v = self.fn(k)
        elif k[0] == "ite":
            v = self.ev(k[2]) if self.cond(k[1]) else self.ev(k[3])
        elif k[0] == "sym" and len(k) == 3 and k[1] == "numeric_limits":
            v = {"max": 1e30, "epsilon": 2.0 ** -52, "min": 1e-300}[k[2]]
        elif k[0] == "sym":
            if a in alg.POSITIVE:
                v = float(self.rng.choice((1, 2, 3))) if self.ints else self.rng.uniform(1 if a in alg.LEAST else 0.2, 3)
            else:
                v = float(self.rng.randint(-2, 3)) if self.ints else self.rng.uniform(-3, 3)
        elif indeterminate(k):
            v = self.rng.uniform(-3, 3)
        elif k[0] in BAD:
            raise Opaque(k[0])
        else:
            v = self.opaque(k)
        self.memo[a] = v
        return v

    def opaque(self, k):
        raise Opaque(k[0])

    def fn(self, k):
        xs = [self.ev(x) for x in k[2:]]
        n = k[1]
        try:
            if n == "sqrt":
                return math.sqrt(xs[0] if abs(xs[0]) > 1e-12 else 0.0)
            if n == "fabs":
                return abs(xs[0])
            if n == "pow":
                v = xs[0] ** xs[1]
                if isinstance(v, complex):
                    raise Skip
                return v
            if n in ("min", "max"):
                return (min if n == "min" else max)(xs)
            if n == "trunc":
                return float(int(xs[0]))
            if n == "acos":
                return math.acos(max(-1.0, min(1.0, xs[0])) if abs(xs[0]) < 1 + 1e-9 else xs[0])
            f = getattr(math, n, None)
            if f is None:
                raise Opaque(n)
            return float(f(*xs))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Skip

    def ev(self, q):
        s, big = 0.0, 0.0
        for m, c in q.t.items():
            v = float(c)
            for a, e in m:
                x = self.atom(a)
                try:
                    v *= x ** e
                except (ZeroDivisionError, OverflowError):
                    raise Skip
            s += v
            big = max(big, abs(v))
        if s != 0 and abs(s) < 1e-11 * big:
            s = 0.0
        return s

    def cond(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op in ("<", "<=", "=="):
            v = self.ev(c.a)
            if v != 0 and abs(v) < 1e-9:
                raise Skip
            return v < 0 if c.op == "<" else v <= 0 if c.op == "<=" else v == 0
        if c.op == "not":
            return not self.cond(c.a)
        if c.op == "and":
            return self.cond(c.a) and self.cond(c.b)
        if c.op == "or":
            return self.cond(c.a) or self.cond(c.b)
        if c.op == "ite":
            return self.cond(c.a[1]) if self.cond(c.a[0]) else self.cond(c.b)
        raise Opaque(c.op)

    def val(self, v):
        if isinstance(v, Cond):
            return self.cond(v)
        return self.ev(v)


def separate(pairs, facts=(), n=400, seed=7, preset=None):
    """a point where some pair differs, or None.  preset: function rng->dict atom id->value"""
    rng = random.Random(seed)
    tried, opaque = 0, None
    for t in range(n):
        e = Ev(rng, t % 2 == 0, preset(rng) if preset else None)
        try:
            if not all(e.cond(f) for f in facts):
                continue
            for lab, g, w in pairs:
                x, y = e.val(g), e.val(w)
                if isinstance(x, bool) or isinstance(y, bool):
                    if bool(x) != bool(y):
                        return lab, x, y, point(e)
                    continue
                if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
                    continue
                if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                    return lab, x, y, point(e)
            tried += 1
        except Skip:
            continue
        except Opaque as x:
            opaque = x
            continue
    if not tried and opaque:
        raise opaque
    return None if tried else False


def point(e):
    out = {}
    for a, v in e.memo.items():
        k = alg.atom_key(a)
        if k[0] == "sym":
            out[".".join(str(x) for x in k[1:])] = round(v, 4)
    return out


# ------------------------------------------------------------------ case distinction
def guards(v, out, seen):
    """guard polynomials of a value (comparisons, min/max/fabs)"""
    if isinstance(v, Cond):
        if v.op in ("<", "<=", "=="):
            guards(v.a, out, seen)
            out.append(v.a)
        elif v.op == "not":
            guards(v.a, out, seen)
        elif v.op in ("and", "or"):
            guards(v.a, out, seen)
            guards(v.b, out, seen)
        elif v.op == "ite":
            for x in (v.a[0], v.a[1], v.b):
                guards(x, out, seen)
        return
    if not isinstance(v, P):
        return
    for a in sorted(v.deep_atoms()):
        if a in seen:
            continue
        seen.add(a)
        k = alg.atom_key(a)
        if k[0] == "ite":
            guards(k[1], out, set(seen))
        elif k[0] == "fn" and k[1] in ("min", "max"):
            out.append(k[2] - k[3])
        elif k[0] == "fn" and k[1] == "fabs":
            out.append(k[2])


def split(p):
    """p = product of the returned factors up to even powers: [(polynomial, exponent parity)]"""
    den = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    out = []
    if den:
        r = ZERO
        for m, c in p.t.items():
            d = dict(m)
            x = ONE
            for a, k in den.items():
                e = d.pop(a, 0) + k
                if e:
                    x = x * (alg.atom_key(a)[1].pow(e) if alg.atom_key(a)[0] == "P" else P.atom(alg.atom_key(a)).pow(e))
            r = r + x * alg._reduce(tuple(sorted(d.items())), c)
        p = r
        for a, k in den.items():
            if k % 2:
                out.append(alg.atom_key(a)[1] if alg.atom_key(a)[0] == "P" else P.atom(alg.atom_key(a)))
    if p.t:
        common = None
        for m in p.t:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        common = {a: e for a, e in common.items() if e > 0}
        if common and len(p.t) > 1 or common and sum(common.values()) > 1:
            p = P({tuple(sorted((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))): c for m, c in p.t.items()})
            for a, e in common.items():
                k = alg.atom_key(a)
                b = k[1] if k[0] == "P" else P.atom(k)
                out += [b] * (1 if e % 2 else 2)
    return [p] + out


def base(p):
    """the argument of a lone fabs: its sign decides the guard"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1:
            k = alg.atom_key(m[0][0])
            if k[0] == "fn" and k[1] == "fabs":
                return k[2]
    return p


def norm(p):
    """primitive sign-normalised polynomial and the sign pulled out"""
    lead = max(m for m in p.t)
    c = p.t[lead]
    return p.scale(Fraction(1) / c), 1 if c > 0 else -1


class Facts:
    def __init__(self, d=None):
        self.d = d or {}       # normalised poly -> sign -1,0,1

    def add(self, p, s):
        q, z = norm(p)
        f = Facts(dict(self.d))
        f.d[q] = s * z
        return f

    def sign(self, p, depth=0):
        if p.is_const():
            v = p.cval()
            return (v > 0) - (v < 0)
        q, z = norm(p)
        if q in self.d:
            return self.d[q] * z
        if depth < 3:
            fs = split(p)
            if len(fs) > 1 or fs[0] != p:
                r = 1
                for f in fs:
                    s = self.sign(f, depth + 1)
                    if s is None:
                        return None
                    r *= s
                return r
        q, z = norm(p)
        if q in self.d:
            return self.d[q] * z
        s = alg.psign(p)
        if s in (1, -1, 0):
            return s
        # p = a*f + b*g for known facts f, g
        items = list(self.d.items())
        for f, sf in items:
            for m in list(p.t)[:3]:
                if m and m in f.t:
                    k = Fraction(p.t[m]) / Fraction(f.t[m])
                    r = p - f.scale(k)
                    x = sf * (1 if k > 0 else -1)
                    if r.is_const():
                        v = r.cval()
                        y = (v > 0) - (v < 0)
                    else:
                        q2, z2 = norm(r)
                        y = self.d.get(q2)
                        if y is None:
                            ss = alg.psign(r)
                            y = ss if ss in (1, -1, 0) else None
                        else:
                            y *= z2
                    if y is None:
                        continue
                    if x == 0:
                        return y
                    if y == 0 or y == x:
                        return x
        return None


def resolve(v, F, memo):
    """substitute the guards decided by F"""
    if isinstance(v, Cond):
        if v.op in ("<", "<=", "=="):
            p = resolve(v.a, F, memo)
            s = F.sign(p)
            if s is None:
                return absint.cmp0(v.op, p)
            r = s < 0 if v.op == "<" else s <= 0 if v.op == "<=" else s == 0
            return TRUE if r else FALSE
        if v.op == "not":
            return absint.cnot(resolve(v.a, F, memo))
        if v.op == "and":
            return absint.cand(resolve(v.a, F, memo), resolve(v.b, F, memo))
        if v.op == "or":
            return absint.cor(resolve(v.a, F, memo), resolve(v.b, F, memo))
        if v.op == "ite":
            return absint.cite(resolve(v.a[0], F, memo), resolve(v.a[1], F, memo), resolve(v.b, F, memo))
        return v

    def at(a):
        if a in memo:
            return memo[a]
        k = alg.atom_key(a)
        r = None
        if k[0] == "ite":
            c = resolve(k[1], F, memo)
            if c is TRUE:
                r = resolve(k[2], F, memo)
            elif c is FALSE:
                r = resolve(k[3], F, memo)
            else:
                r = alg.ite(c, resolve(k[2], F, memo), resolve(k[3], F, memo))
        elif k[0] == "fn" and k[1] in ("min", "max"):
            x, y = resolve(k[2], F, memo), resolve(k[3], F, memo)
            s = F.sign(x - y)
            if s is None:
                r = alg.fn(k[1], x, y)
            elif (s <= 0) == (k[1] == "min"):
                r = x
            else:
                r = y
        elif k[0] == "fn" and k[1] == "fabs":
            x = resolve(k[2], F, memo)
            s = F.sign(x)
            r = alg.fn("fabs", x) if s is None else x if s >= 0 else -x
        elif k[0] in ("fn",):
            r = alg.fn(k[1], *[resolve(x, F, memo) for x in k[2:]])
        elif k[0] == "P":
            r = resolve(k[1], F, memo)
        memo[a] = r
        return r
    return v.subst(at)


def equal_here(g, w, F):
    if isinstance(g, Cond) or isinstance(w, Cond):
        return g == w
    if alg.eq(g, w):
        return True
    d = g - w
    return d.t and F.sign(d) == 0


def prove(pairs, facts=(), budget=400):
    """True when every case agrees, False/None otherwise"""
    n = [0]

    def rec(pairs, facts, F):
        n[0] += 1
        if n[0] > budget:
            return False
        memo = {}
        ps, fs = [], []
        for f in facts:
            c = resolve(f, F, memo)
            if c is FALSE:
                return True
            if c is not TRUE:
                fs.append(c)
        for g, w in pairs:
            g, w = resolve(g, F, memo), resolve(w, F, memo)
            if not equal_here(g, w, F):
                ps.append((g, w))
        if not ps:
            return True
        gs, seen = [], set()
        for c in fs:
            guards(c, gs, seen)
        for g, w in ps:
            guards(g, gs, seen)
            guards(w, gs, seen)
        gs = [base(f) for p in gs if not p.is_const() and F.sign(p) is None for f in split(p)]
        gs = [f for p in gs for f in split(p)]
        gs = [p for p in gs if not p.is_const() and F.sign(p) is None]
        if not gs:
            return False
        p = min(gs, key=lambda q: (len(q.t), alg.show(q)))
        return all(rec(ps, fs, F.add(p, s)) for s in (-1, 0, 1))
    F, rest = Facts(), []
    for f in facts:
        if f.op == "<" and F.sign(f.a) is None and len(split(f.a)) == 1:
            F = F.add(f.a, -1)
        else:
            rest.append(f)
    return rec(list(pairs), rest, F)


def decide(pairs, facts=(), budget=400, n=400, preset=None):
    """pairs: (label, got, want).  (True, None) / (False, witness) / (None, reason)"""
    bad = [(l, g, w) for l, g, w in pairs if not (g == w if isinstance(g, Cond) or isinstance(w, Cond) else alg.eq(g, w))]
    if not bad:
        return True, None
    try:
        s = separate(bad, facts, n, preset=preset)
    except Opaque as e:
        return None, "opaque value (%s)" % e
    if s:
        return False, s
    if s is None and prove([(g, w) for _, g, w in bad], facts, budget):
        return True, None
    return None, "equality neither established nor refuted"
