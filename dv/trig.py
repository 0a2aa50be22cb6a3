"""Trigonometric normalisation of obligations.

sin/cos of a linear combination of atoms with integer coefficients is expanded by the angle-sum
formulas into polynomials in sin/cos of the atoms; multiples of pi/2 are folded.  Facts added:
sin^2 + cos^2 = 1 per atom.  (Trusted: these textbook identities.)
"""
from fractions import Fraction
import z3
from .core import PI, INF, SIN, COS, TAN, ATAN, SQRT, FMOD


def linear(e):
    """e as {atom: Fraction} + const * 1 ; key None is the rational constant."""
    out = {}

    def add(k, c):
        out[k] = out.get(k, Fraction(0)) + c
    atoms = {}

    def go(x, c):
        if z3.is_rational_value(x) or z3.is_int_value(x):
            add(None, c * (x.as_fraction() if z3.is_rational_value(x) else x.as_long()))
            return
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            for a in x.children():
                go(a, c)
            return
        if k == z3.Z3_OP_SUB:
            ch = x.children()
            go(ch[0], c)
            for a in ch[1:]:
                go(a, -c)
            return
        if k == z3.Z3_OP_UMINUS:
            go(x.arg(0), -c)
            return
        if k == z3.Z3_OP_MUL:
            num = Fraction(1)
            rest = []
            for a in x.children():
                if z3.is_rational_value(a):
                    num *= a.as_fraction()
                else:
                    rest.append(a)
            if len(rest) == 1:
                go(rest[0], c * num)
                return
            if not rest:
                add(None, c * num)
                return
            if num != 1:
                r = rest[0]
                for a in rest[1:]:
                    r = r * a
                x = r
                c = c * num
        if k == z3.Z3_OP_DIV:
            if z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction() != 0:
                go(x.arg(0), c / x.arg(1).as_fraction())
                return
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            num, x = monomial(x)
            c = c * num
        key = x.get_id()
        atoms[key] = x
        add(key, c)
    go(e, Fraction(1))
    return {k: v for k, v in out.items() if v != 0}, atoms


_canon = {}


def monomial(x):
    """(rational coefficient, canonical product of the other factors over the other divisors)"""
    num, den, coef = [], [], [Fraction(1)]

    def go(t, up):
        if z3.is_rational_value(t) and t.as_fraction() != 0:
            coef[0] = coef[0] * t.as_fraction() if up else coef[0] / t.as_fraction()
            return
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_UMINUS:
            coef[0] = -coef[0]
            go(t.arg(0), up)
        elif k == z3.Z3_OP_MUL:
            for a in t.children():
                go(a, up)
        elif k == z3.Z3_OP_DIV:
            go(t.arg(0), up)
            go(t.arg(1), not up)
        else:
            (num if up else den).append(t)
    go(x, True)
    key = (tuple(sorted(a.get_id() for a in num)), tuple(sorted(a.get_id() for a in den)))
    if key not in _canon:
        r = z3.RealVal(1)
        for i, a in enumerate(sorted(num, key=lambda a: a.get_id())):
            r = a if i == 0 else r * a
        for a in sorted(den, key=lambda a: a.get_id()):
            r = r / a
        _canon[key] = (r, num, den)
    return coef[0], _canon[key][0]


def factors(a):
    """numerator and denominator factors of an angle that is a product; a zero factor makes it zero"""
    if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return ([a], []) if z3.is_app(a) and not z3.is_rational_value(a) and a.num_args() == 0 and not a.eq(PI) else ([], [])
    c, m = monomial(a)
    for r, num, den in _canon.values():
        if r.eq(m):
            return list(num), list(den)
    return [], []


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS)


def find_ite(t):
    """A conditional inside the arithmetic of an angle, if any."""
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return t
    if k in ARITH:
        for c in t.children():
            r = find_ite(c)
            if r is not None:
                return r
    return None


class Norm:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.atoms = {}      # id -> atom whose sin/cos occur

    def sc(self, t):
        """(sin t, cos t) expanded."""
        t = z3.simplify(t, som=True) if t.num_args() < 50 else t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            s1, c1 = self.sc(t.arg(1))
            s2, c2 = self.sc(t.arg(2))
            return z3.If(t.arg(0), s1, s2), z3.If(t.arg(0), c1, c2)
        ite = find_ite(t)
        if ite is not None:
            s1, c1 = self.sc(z3.substitute(t, (ite, ite.arg(1))))
            s2, c2 = self.sc(z3.substitute(t, (ite, ite.arg(2))))
            return z3.If(ite.arg(0), s1, s2), z3.If(ite.arg(0), c1, c2)
        lin, atoms = linear(t)
        self.keep.append(t)
        # a remainder by a full turn has the sine and cosine of what it is the remainder of
        for k, v in lin.items():
            a = atoms.get(k)
            if a is not None and v.denominator == 1 and z3.is_app(a) and a.decl().eq(FMOD) and z3.simplify(a.arg(1) - 2 * PI).eq(z3.RealVal(0)):
                u = z3.simplify(t + int(v) * (a.arg(0) - a), som=True)
                self.keep.append(u)
                return self.sc(u)
        # quarter turns
        s, c = z3.RealVal(0), z3.RealVal(1)
        pid = PI.get_id()
        rest = []
        for k, v in lin.items():
            if k == pid:
                q = v * 2
                if q.denominator == 1:
                    m = int(q) % 4
                    s, c = [(z3.RealVal(0), z3.RealVal(1)), (z3.RealVal(1), z3.RealVal(0)),
                            (z3.RealVal(0), z3.RealVal(-1)), (z3.RealVal(-1), z3.RealVal(0))][m]
                    continue
            rest.append((k, v))
        for k, v in rest:
            if k is None:
                s1, c1 = self.base(z3.RealVal(str(v)))
            else:
                a = atoms[k]
                if v.denominator == 1:
                    s1, c1 = self.multiple(a, int(v))
                else:
                    # halve: use the atom v.denominator-th part
                    part = z3.simplify(a * z3.RealVal("1/%d" % v.denominator))
                    s1, c1 = self.multiple(part, int(v.numerator))
            s, c = z3.simplify(s * c1 + c * s1), z3.simplify(c * c1 - s * s1)
        return s, c

    def base(self, a):
        self.keep.append(a)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            s1, c1 = self.sc(a.arg(1))
            s2, c2 = self.sc(a.arg(2))
            return z3.If(a.arg(0), s1, s2), z3.If(a.arg(0), c1, c2)
        self.atoms[a.get_id()] = a
        return SIN(a), COS(a)

    def multiple(self, a, n):
        s, c = z3.RealVal(0), z3.RealVal(1)
        s1, c1 = self.base(a)
        neg = n < 0
        for _ in range(abs(n)):
            s, c = z3.simplify(s * c1 + c * s1), z3.simplify(c * c1 - s * s1)
        return (z3.simplify(-s), c) if neg else (s, c)

    def rw(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        if z3.is_quantifier(e):
            b = e.body()
            r = e
        elif z3.is_app(e):
            ch = e.children()
            nc = [self.rw(c) for c in ch]
            d = e.decl()
            if d.eq(SIN):
                r = self.sc(nc[0])[0]
            elif d.eq(COS):
                r = self.sc(nc[0])[1]
            elif d.eq(TAN):
                a = nc[0]
                s, c = self.sc(a)
                r = s / c
            elif any(not x.eq(y) for x, y in zip(ch, nc)):
                r = d(*nc) if d.kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                    {z3.Z3_OP_AND: lambda: z3.And(*nc), z3.Z3_OP_OR: lambda: z3.Or(*nc),
                     z3.Z3_OP_ADD: lambda: z3.Sum(nc), z3.Z3_OP_MUL: lambda: z3.Product(nc)}[d.kind()]()
            else:
                r = e
        else:
            r = e
        self.cache[i] = r
        self.keep += [e, r]
        return r


_memo = {}       # node id -> (node, quantified, ids of the angles whose sine, cosine or tangent occurs)
_angle = {}
_none = frozenset()


def info(e):
    """(contains a quantifier, ids of the angles below e); remembered per node."""
    m = _memo.get(e.get_id())
    if m is not None:
        return m
    st = [(e, None)]
    while st:
        x, ch = st.pop()
        i = x.get_id()
        if i in _memo:
            continue
        if ch is None:
            ch = x.children()
            st.append((x, ch))
            st.extend((c, None) for c in ch if c.get_id() not in _memo)
            continue
        q, t = z3.is_quantifier(x), _none
        for c in ch:
            m = _memo[c.get_id()]
            q = q or m[1]
            if m[2]:
                t = m[2] if not t else t | m[2]
        if ch and z3.is_app(x) and len(ch) == 1 and (x.decl().eq(SIN) or x.decl().eq(COS) or x.decl().eq(TAN)):
            a = ch[0]
            _angle[a.get_id()] = a
            t = t | {a.get_id()}
        _memo[i] = (x, q, t)
    return _memo[e.get_id()]


def uses_trig(fs):
    return any(info(f)[2] for f in fs)


_norm = Norm()


def normalise(fs):
    return [_norm.rw(f) if info(f)[2] else f for f in fs]


def trig_facts(fs):
    ids = sorted(set().union(*[info(f)[2] for f in fs])) if fs else []
    out = []
    for i in ids:
        a = _angle[i]
        s, c = SIN(a), COS(a)
        out.append(s * s + c * c == 1)
        out += [s <= 1, s >= -1, c <= 1, c >= -1]
        num, den = factors(a)
        if num:
            out.append(z3.Implies(z3.And(z3.Or(*[x == 0 for x in num]), *[x != 0 for x in den]), z3.And(s == 0, c == 1)))
    return out
