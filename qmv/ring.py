"""Identities between rational functions, decided exactly. Numerators are expanded
polynomials with rational coefficients, denominators stay factored."""
import time
from fractions import Fraction
import z3

BITS = 8
ONE = {0: Fraction(1)}

class Slow(Exception): pass

class Ring:
    def __init__(self, seconds=10.0, terms=60000):
        self.atoms = {}; self.keep = []; self.memo = {}
        self.end = time.time() + seconds; self.terms = terms
        self.factors = {}; self.polys = []

    # polynomials: packed exponents -> coefficient
    def add(self, p, q, s=1):
        r = dict(p)
        for k, v in q.items():
            x = r.get(k, 0) + s * v
            if x == 0: r.pop(k, None)
            else: r[k] = x
        return r

    def mul(self, p, q):
        if len(p) > len(q): p, q = q, p
        if p == ONE: return q
        if len(p) * len(q) > 40 * self.terms: raise Slow()
        r = {}
        for k1, v1 in p.items():
            if time.time() > self.end: raise Slow()
            for k2, v2 in q.items():
                k = k1 + k2
                x = r.get(k, 0) + v1 * v2
                if x == 0: r.pop(k, None)
                else: r[k] = x
        if len(r) > self.terms: raise Slow()
        if r and self.degree(r) >= 1 << (BITS - 1): raise Slow()
        return r

    def degree(self, p):
        d = 0
        for k in p:
            t = 0
            while k: t += k & ((1 << BITS) - 1); k >>= BITS
            d = max(d, t)
        return d

    def divides(self, q, p):
        """p / q when exact, else None"""
        if len(q) > 200: return None
        lead = max(q); lc = q[lead]
        n = len(self.atoms)
        high = 0
        for i in range(n): high |= 1 << (BITS * i + BITS - 1)
        r = dict(p); out = {}
        steps = 0
        while r:
            steps += 1
            if steps > 2000 or time.time() > self.end: return None
            k = max(r)
            if ((k | high) - lead) & high != high: return None
            m = k - lead; c = r[k] / lc
            out[m] = c
            for k2, v2 in q.items():
                kk = m + k2
                x = r.get(kk, 0) - c * v2
                if x == 0: r.pop(kk, None)
                else: r[kk] = x
        return out

    def factor(self, p):
        """(constant, factor numbers) of a denominator polynomial"""
        lead = p[max(p)]
        q = {k: v / lead for k, v in p.items()}
        if len(q) == 1:
            k = max(q); out = {}; i = 0
            while k:
                e = k & ((1 << BITS) - 1)
                if e: out[self.number({1 << (BITS * i): Fraction(1)})] = e
                k >>= BITS; i += 1
            return lead, out
        # split off known factors
        out = {}
        for n, f in list(enumerate(self.polys)):
            while len(q) > 1:
                d = self.divides(f, q)
                if d is None: break
                q = d; out[n] = out.get(n, 0) + 1
        if len(q) == 1 and max(q) == 0: return lead, out
        if len(q) == 1:
            _, o = self.factor(q)
            for a, b in o.items(): out[a] = out.get(a, 0) + b
            return lead, out
        n = self.number(q); out[n] = out.get(n, 0) + 1
        return lead, out

    def number(self, q):
        key = tuple(sorted(q.items()))
        if key not in self.factors:
            self.factors[key] = len(self.polys); self.polys.append(q)
        return self.factors[key]

    def grow(self, n, have, want):
        for f, e in want.items():
            for _ in range(e - have.get(f, 0)): n = self.mul(n, self.polys[f])
        return n

    def reduce(self, n, d):
        if not n: return n, {}
        for f in list(d):
            while d.get(f, 0):
                q = self.divides(self.polys[f], n)
                if q is None: break
                n = q; d = dict(d); d[f] -= 1
                if not d[f]: del d[f]
        return n, d

    def sum(self, a, b, s):
        (n1, d1), (n2, d2) = a, b
        if not n2: return a
        if not n1: return ({k: s * v for k, v in n2.items()}, d2)
        l = dict(d1)
        for f, e in d2.items(): l[f] = max(l.get(f, 0), e)
        return self.reduce(self.add(self.grow(n1, d1, l), self.grow(n2, d2, l), s), l)

    def product(self, a, b):
        (n1, d1), (n2, d2) = a, b
        n1, d2 = self.reduce(n1, d2); n2, d1 = self.reduce(n2, d1)
        d = dict(d1)
        for f, e in d2.items(): d[f] = d.get(f, 0) + e
        return self.mul(n1, n2), d

    def of(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.of1(e); self.memo[k] = r; self.keep.append(e)
        return r

    def of1(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({0: v} if v else {}), {}
        if z3.is_int_value(e):
            v = Fraction(e.as_long()); return ({0: v} if v else {}), {}
        if z3.is_app(e):
            d = e.decl().kind(); ch = e.children()
            if d == z3.Z3_OP_TO_REAL: return self.of(ch[0])
            if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                r = self.of(ch[0])
                for c in ch[1:]: r = self.sum(r, self.of(c), 1 if d == z3.Z3_OP_ADD else -1)
                return r
            if d == z3.Z3_OP_UMINUS:
                n, m = self.of(ch[0]); return {k: -v for k, v in n.items()}, m
            if d == z3.Z3_OP_MUL:
                r = (ONE, {})
                for c in ch: r = self.product(r, self.of(c))
                return r
            if d == z3.Z3_OP_DIV:
                n, m = self.of(ch[0]); n2, m2 = self.of(ch[1])
                if not n2: raise Slow()
                num = ONE
                for f, x in m2.items():
                    for _ in range(x): num = self.mul(num, self.polys[f])
                lead, fs = self.factor(n2)
                return self.product((n, m), self.reduce({k: v / lead for k, v in num.items()}, fs))
            if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
                r = (ONE, {}); x = self.of(ch[0])
                for _ in range(ch[1].numerator_as_long()): r = self.product(r, x)
                return r
            if d == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'exp' and e.num_args() == 1:
                r = self.exponential(*self.of(ch[0]))
                if r is not None: return r
            if d == z3.Z3_OP_UNINTERPRETED and ch:
                # the same function of arguments that are equal as rational functions
                key = ('uf', e.decl().name()) + tuple((tuple(sorted(n.items())), tuple(sorted(m.items()))) for n, m in map(self.of, ch))
                if key not in self.atoms: self.atoms[key] = len(self.atoms)
                return {1 << (BITS * self.atoms[key]): Fraction(1)}, {}
        return self.atom(e)

    def exponential(self, n, d):
        """exp of a sum is the product of the exps of its terms"""
        r = (ONE, {})
        dk = tuple(sorted(d.items()))
        for mono, c in n.items():
            # exp(c m) = exp(m / q)^p for c = p / q
            if abs(c.numerator) > 8: return None
            key = ('exp', mono, dk, c.denominator)
            if key not in self.atoms: self.atoms[key] = len(self.atoms)
            a = 1 << (BITS * self.atoms[key])
            if c > 0: r = self.product(r, ({a * c.numerator: Fraction(1)}, {}))
            else: r = self.product(r, (ONE, {self.number({a: Fraction(1)}): -c.numerator}))
        return r

    def atom(self, e):
        k = e.get_id()
        if k not in self.atoms: self.atoms[k] = len(self.atoms); self.keep.append(e)
        return {1 << (BITS * self.atoms[k]): Fraction(1)}, {}

def identity(a, b, seconds=10.0):
    """a = b as rational functions of their atoms. Denominators are non-zero on the
    path (division forks on a zero denominator), so the identity carries over."""
    try:
        R = Ring(seconds)
        return R.sum(R.of(a), R.of(b), -1)[0] == {}
    except (Slow, RecursionError):
        return False
