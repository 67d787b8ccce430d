"""Exact real-field symbolic values.

Node      hash-consed expression DAG over + - * / sqrt neg, rational constants and input variables
Poly      multivariate polynomial, dict monomial -> coefficient; monomial = tuple of (gen, exp)
RF        rational function num / prod(factor^e), with square-root generators s (s*s = P, s >= 0)

Special IEEE results (NaN, +-Inf) are ordinary Python floats and are handled in exec.Real.
"""
from fractions import Fraction
import math


class AlgLimit(Exception):
    """normal form grew past the configured limit (the query is then left to z3 on the raw terms)"""


# ------------------------------------------------------------------ nodes
class Node:
    __slots__ = ('op', 'a', 'b', 'id', 'rf', 'z', 'h')
    # op: 'c' const (a = Fraction/int) ; 'v' variable (a = index) ; '+','-','*','/','neg','sqrt'

    def __repr__(self):
        return node_str(self)


FLIP = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}
SGN = ('+', '-', '0+', '0-')


def _primes(n):
    s = bytearray([1]) * (n + 1)
    s[0] = s[1] = 0
    for i in range(2, int(n ** .5) + 1):
        if s[i]:
            s[i * i::i] = bytearray(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if s[i]]


SMALL = _primes(4000)


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL[:15]:
        if n % p == 0:
            return n == p
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in SMALL[:20]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


FACT = {}


def big_factors(n, budget=60000):
    """factors of n (no factor below SMALL[-1]); composite leftovers stay when the search budget is used up"""
    if n in FACT:
        return FACT[n]
    if n < SMALL[-1] ** 2 or is_prime(n):
        r = [n]
    else:
        r = None
        q = math.isqrt(n)
        if q * q == n:
            r = big_factors(q) * 2
        c = 1
        while r is None and c < 4:
            x = y = 2
            g = 1
            k = 0
            while g == 1 and k < budget:
                pr = 1
                sx, sy = x, y
                for _ in range(64):
                    x = (x * x + c) % n
                    y = (y * y + c) % n
                    y = (y * y + c) % n
                    pr = pr * (x - y) % n
                k += 64
                g = math.gcd(pr, n)
                if g == n:
                    x, y = sx, sy
                    g = 1
                    while g == 1:
                        x = (x * x + c) % n
                        y = (y * y + c) % n
                        y = (y * y + c) % n
                        g = math.gcd(x - y, n)
            if 1 < g < n:
                r = sorted(big_factors(g) + big_factors(n // g))
            c += 1
            if g == 1:
                break
        if r is None:
            r = [n]
    if len(FACT) > 20000:
        FACT.clear()
    FACT[n] = r
    return r


class Ctx:
    """one per explored path (ids are path-local, creation is deterministic)"""
    MAXTERMS = 60000

    def __init__(self):
        self.tab = {}
        self.nodes = 0
        self.vars = []        # names
        self.gens = []        # generator records: ('v', idx) or ('s', Poly)
        self.gen_of_var = {}
        self.sqrt_of = {}     # Poly key -> gen
        self.sign_facts = {}  # Poly key (primitive) -> sign string in {'+','-','0+','0-','!','0'}
        self.qs = {}
        self.gensign = []     # known sign of generator
        self.subs = {}        # variable generator -> RF it equals on this path
        self.sign_hook = None  # called to decide the sign of a node (may fork)
        self.ZERO = self.const(0)
        self.ONE = self.const(1)

    # -- construction
    def mk(self, op, a, b=None):
        k = (op, a if op in 'cv' else a.id, b.id if b is not None else -1)
        n = self.tab.get(k)
        if n is None:
            n = Node()
            n.op, n.a, n.b = op, a, b
            n.id = self.nodes
            n.rf = None
            n.z = None
            self.nodes += 1
            self.tab[k] = n
        return n

    def const(self, v):
        if type(v) is Fraction and v.denominator == 1:
            v = v.numerator
        return self.mk('c', v)

    def var(self, name):
        i = len(self.vars)
        self.vars.append(name)
        g = len(self.gens)
        self.gens.append(('v', i))
        self.gensign.append(None)
        self.gen_of_var[i] = g
        return self.mk('v', i)

    def add(self, a, b):
        if a.op == 'c':
            if b.op == 'c':
                return self.const(a.a + b.a)
            if a.a == 0:
                return b
        elif b.op == 'c' and b.a == 0:
            return a
        return self.mk('+', a, b)

    def sub(self, a, b):
        if b.op == 'c':
            if a.op == 'c':
                return self.const(a.a - b.a)
            if b.a == 0:
                return a
        if a is b:
            return self.ZERO
        return self.mk('-', a, b)

    def mul(self, a, b):
        if a.op == 'c':
            if b.op == 'c':
                return self.const(a.a * b.a)
            if a.a == 0:
                return self.ZERO
            if a.a == 1:
                return b
        elif b.op == 'c':
            if b.a == 0:
                return self.ZERO
            if b.a == 1:
                return a
        return self.mk('*', a, b)

    def neg(self, a):
        if a.op == 'c':
            return self.const(-a.a)
        if a.op == 'neg':
            return a.a
        return self.mk('neg', a)

    def div(self, a, b):
        # the caller has established b != 0
        if b.op == 'c':
            if a.op == 'c':
                return self.const(Fraction(a.a) / b.a)
            if b.a == 1:
                return a
        return self.mk('/', a, b)

    def sqrt(self, a):
        # the caller has established a >= 0
        if a.op == 'c':
            f = Fraction(a.a)
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return self.const(Fraction(p, q))
        return self.mk('sqrt', a)

    # -- normal form
    def rf(self, n):
        """rational-function normal form of a node (iterative, memoised)"""
        if n.rf is not None:
            return n.rf
        st = [n]
        while st:
            x = st[-1]
            if x.rf is not None:
                st.pop()
                continue
            op = x.op
            if op == 'c':
                x.rf = RF(self, Poly.const(x.a), {})
                st.pop()
                continue
            if op == 'v':
                g = self.gen_of_var[x.a]
                x.rf = self.subs.get(g) or RF(self, Poly.gen(g), {})
                st.pop()
                continue
            need = [y for y in (x.a, x.b) if y is not None and y.rf is None]
            if need:
                st.extend(need)
                continue
            a = x.a.rf
            if op == '+':
                x.rf = a.add(x.b.rf)
            elif op == '-':
                x.rf = a.add(x.b.rf.neg())
            elif op == '*':
                x.rf = a.mul(x.b.rf)
            elif op == 'neg':
                x.rf = a.neg()
            elif op == '/':
                x.rf = a.mul(x.b.rf.inv())
            elif op == 'sqrt':
                x.rf = a.sqrt()
            st.pop()
        return n.rf

    def factor_root(self, k):
        """k = sq^2 * product of distinct base integers; bases are primes, or leftovers that could not be factored
        (roots of the latter may be dependent: equality tests stay sound, only less complete)"""
        sq, bases = 1, []
        if k <= 1:
            return 1, []
        for p in SMALL:
            if p * p > k:
                break
            if k % p == 0:
                e = 0
                while k % p == 0:
                    k //= p
                    e += 1
                sq *= p ** (e // 2)
                if e % 2:
                    bases.append(p)
        if k > 1:
            for b in big_factors(k):
                if b in bases:
                    bases.remove(b)
                    sq *= b
                    continue
                r = math.isqrt(b)
                if r * r == b:
                    sq *= r
                    continue
                bases.append(b)
        return sq, bases

    def new_sqrt_gen(self, poly):
        k = poly.key()
        g = self.sqrt_of.get(k)
        if g is None:
            g = len(self.gens)
            self.gens.append(('s', poly))
            self.gensign.append('0+')
            self.sqrt_of[k] = g
        return g

    # -- sign knowledge
    def sign_poly(self, p):
        """'+','-','0','0+','0-','!' (nonzero) or None"""
        t = p.t
        if not t:
            return '0'
        k = p.key()
        f = self.sign_facts.get(k)
        if f is not None:
            return f
        f = self.sign_facts.get(p.neg().key())
        if f is not None:
            return {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(f, f)
        r = self.const_sign(p)
        if r is not None:
            return r
        tot = None
        if len(t) > 200:
            return None
        strict = False
        for m, c in t.items():
            s = '+' if c > 0 else '-'
            for g, e in m:
                gs = self.gensign[g]
                if e % 2 == 0:
                    if gs in ('+', '-', '!'):
                        pass
                    else:
                        s = {'+': '0+', '-': '0-'}.get(s, s)
                else:
                    if gs is None:
                        return None
                    s = SMUL[s, gs]
                    if s is None:
                        return None
            if len(t) == 1:
                return s
            if s == '!':
                return None
            pos = s in ('+', '0+')
            if tot is None:
                tot = pos
            elif tot != pos:
                return None
            if s in ('+', '-'):
                strict = True
        if tot:
            return '+' if strict else '0+'
        return '-' if strict else '0-'

    def const_sign(self, p):
        """sign of monomial * (polynomial in roots of integers): decided by enclosing the value; such a
        polynomial in normal form is practically never zero unless it has no terms (and then None is given)"""
        com = None
        terms = []
        for m, c in p.t.items():
            v = []
            k = []
            for g, e in m:
                gen = self.gens[g]
                if gen[0] == 's' and len(gen[1].t) == 1 and () in gen[1].t:
                    k.append(gen[1].t[()])
                else:
                    v.append((g, e))
            v = tuple(v)
            if com is None:
                com = v
            elif com != v:
                return None
            terms.append((c, k))
        if len(terms) > 400 or (len(terms) < 2 and com):
            return None
        s = None
        for bits in (64, 128, 256, 512, 1024, 2048):
            lo = hi = 0
            for c, k in terms:
                n = 1
                for x in k:
                    n *= x
                r = math.isqrt(n << (2 * bits))
                f = Fraction(c)
                a, b = (f * r, f * (r + 1)) if n > 1 else (f * (1 << bits),) * 2
                if a > b:
                    a, b = b, a
                lo += a
                hi += b
            if lo > 0:
                s = '+'
                break
            if hi < 0:
                s = '-'
                break
        if s is None:
            return None
        for g, e in com:
            gs = self.gensign[g]
            if e % 2 == 0:
                if gs not in ('+', '-', '!'):
                    s = {'+': '0+', '-': '0-'}.get(s, s)
            else:
                if gs is None:
                    return None
                s = SMUL[s, gs]
                if s is None:
                    return None
        return s

    def sign_node(self, n):
        if n.op == 'c':
            return '+' if n.a > 0 else '-' if n.a < 0 else '0'
        q = self.quick_sign(n)
        if q in ('+', '-', '0'):
            return q
        try:
            rf = self.rf(n)
        except AlgLimit:
            return q
        return self.sign_rf(rf) or q

    def quick_sign(self, n):
        """sign from the shape of the term alone (sums of squares, roots, products of known signs)"""
        memo = self.qs
        st = [n]
        tmp = {}
        while st:
            x = st[-1]
            if x.id in memo or x.id in tmp:
                st.pop()
                continue
            op = x.op
            if op == 'c':
                memo[x.id] = '+' if x.a > 0 else '-' if x.a < 0 else '0'
                st.pop()
                continue
            if op == 'v':
                tmp[x.id] = self.gensign[self.gen_of_var[x.a]]
                st.pop()
                continue
            if op == 'sqrt':
                memo[x.id] = '0+'
                st.pop()
                continue
            need = [y for y in (x.a, x.b) if y is not None and y.id not in memo and y.id not in tmp]
            if need:
                st.extend(need)
                continue
            a = memo.get(x.a.id) or tmp.get(x.a.id)
            b = None if x.b is None else memo.get(x.b.id) or tmp.get(x.b.id)
            r = None
            if op == 'neg':
                r = FLIP.get(a, a)
            elif op in '+-':
                if op == '-':
                    b = FLIP.get(b, b)
                if a == '0':
                    r = b
                elif b == '0':
                    r = a
                elif a in ('+', '0+') and b in ('+', '0+'):
                    r = '+' if '+' in (a, b) else '0+'
                elif a in ('-', '0-') and b in ('-', '0-'):
                    r = '-' if '-' in (a, b) else '0-'
            elif op == '*':
                if a == '0' or b == '0':
                    r = '0'
                elif x.a is x.b:
                    r = '+' if a in ('+', '-', '!') else '0+'
                elif a in SGN and b in SGN:
                    z = '0' in a or '0' in b
                    p = ('+' in a) == ('+' in b)
                    r = ('0' if z else '') + ('+' if p else '-')
            elif op == '/':
                if b in ('+', '-') and a in SGN:
                    p = ('+' in a) == ('+' in b)
                    r = ('0' if '0' in a else '') + ('+' if p else '-')
            (memo if r is not None else tmp)[x.id] = r
            st.pop()
        return memo.get(n.id) or tmp.get(n.id)

    def sign_rf(self, rf):
        s = self.sign_poly(rf.num)
        if s in (None, '0'):
            return s
        for f, e in rf.den.values():
            fs = self.sign_poly(f)
            if e % 2 == 0:
                continue
            if fs in ('+', '0+'):
                continue
            if fs in ('-', '0-'):
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(s, s)
            else:
                s = '!' if s in ('+', '-', '!') else None
                if s is None:
                    return None
        return s

    def learn(self, n, sign):
        """record that node n has the given sign on this path"""
        try:
            rf = self.rf(n)
        except AlgLimit:
            return
        p = rf.num
        flip = False
        for f, e in rf.den.values():
            if e % 2:
                fs = self.sign_poly(f)
                if fs == '-' or fs == '0-':
                    flip = not flip
                elif fs not in ('+', '0+'):
                    if sign in ('!', '0'):
                        continue
                    return
        if flip:
            sign = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(sign, sign)
        self.learn_poly(p, sign)

    def subst_poly(self, p, g, r):
        res = RF(self, Poly({}), {})
        by = {}
        for m, c in p.t.items():
            e = 0
            o = []
            for x in m:
                if x[0] == g:
                    e = x[1]
                else:
                    o.append(x)
            by.setdefault(e, {})[tuple(o)] = c
        pw, k = RF(self, Poly.const(1), {}), 0
        for e in sorted(by):
            while k < e:
                pw = pw.mul(r)
                k += 1
            res = res.add(RF(self, Poly(by[e]), {}).mul(pw))
        return res

    def subst_rf(self, q, g, r):
        x = self.subst_poly(q.num, g, r)
        for f, e in q.den.values():
            y = self.subst_poly(f, g, r).inv()
            for _ in range(e):
                x = x.mul(y)
        return x

    def deep_gens(self, g, out):
        if g not in out:
            out.add(g)
            k = self.gens[g]
            if k[0] == 's':
                for m in k[1].t:
                    for h, _ in m:
                        self.deep_gens(h, out)
        return out

    def eliminate(self, n):
        """n == 0 holds on this path: solve it for a variable it is linear in. -> (variable, RF) or None"""
        try:
            p = self.rf(n).num
        except AlgLimit:
            return None
        if not 1 <= len(p.t) <= 40:
            return None
        occ, hidden = {}, set()
        for m in p.t:
            for g, e in m:
                occ.setdefault(g, []).append((m, e))
                if self.gens[g][0] == 's':
                    hidden |= self.deep_gens(g, set())
        best = None
        for g, l in occ.items():
            if self.gens[g][0] != 'v' or g in hidden or any(e != 1 for _, e in l):
                continue
            co = Poly({tuple(x for x in m if x[0] != g): p.t[m] for m, _ in l})
            const = len(co.t) == 1 and () in co.t
            if not const and self.sign_poly(co) not in ('+', '-', '!'):
                continue
            key = (not const, len(co.t), -g)
            if best is None or key < best[0]:
                best = (key, g, co)
        if best is None:
            return None
        _, g, co = best
        rest = Poly({m: c for m, c in p.t.items() if all(x[0] != g for x in m)})
        if any(x[0] == g for m in rest.t for x in m):
            return None
        try:
            r = RF(self, rest.neg(), {}).mul(RF(self, co, {}).inv())
        except AlgLimit:
            return None
        known = self.gensign[g]
        try:
            old = {h: self.subst_rf(q, g, r) for h, q in self.subs.items()}
        except AlgLimit:
            return None
        self.subs = old
        self.subs[g] = r
        # forget the normal forms built with the variable
        for x in self.tab.values():
            if x.op != 'c':
                x.rf = None
        return self.gens[g][1], g, r, known

    def learn_poly(self, p, sign):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1:
                g, e = m[0]
                if sign == '!' or (sign in '+-' and e % 2 == 0):
                    self.set_gensign(g, '!')
                elif sign in ('+', '-', '0+', '0-') and e % 2 == 1:
                    if c < 0:
                        sign = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[sign]
                    self.set_gensign(g, sign)
                return
            if sign in ('!', '+', '-'):
                for g, e in m:
                    self.set_gensign(g, '!')
        self.sign_facts[p.key()] = meet(self.sign_facts.get(p.key()), sign)

    def set_gensign(self, g, s):
        n = self.gensign[g] = meet(self.gensign[g], s)
        if n in ('+', '!'):
            k = self.gens[g]
            if k[0] == 's':
                self.gensign[g] = '+'
                kk = k[1].key()
                self.sign_facts[kk] = '+'


def meet(a, b):
    if a is None:
        return b
    if a == b:
        return a
    if {a, b} == {'0+', '!'}:
        return '+'
    if {a, b} == {'0-', '!'}:
        return '-'
    if {a, b} == {'0+', '0-'}:
        return '0'
    for s in ('+', '-', '0'):
        if s in (a, b):
            return s
    return b


SMUL = {}
for _a in ('+', '-', '0+', '0-', '!', '0'):
    for _b in ('+', '-', '0+', '0-', '!', '0'):
        if '0' in (_a, _b):
            r = '0'
        elif '!' in (_a, _b):
            o = _b if _a == '!' else _a
            r = '!' if o in ('+', '-', '!') else None
        else:
            neg = (_a in ('-', '0-')) != (_b in ('-', '0-'))
            strict = _a in '+-' and _b in '+-'
            r = ('-' if neg else '+') if strict else ('0-' if neg else '0+')
        SMUL[_a, _b] = r


# ------------------------------------------------------------------ polynomials
def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def mdiv(m1, m2):
    """m1 / m2 or None"""
    if not m2:
        return m1
    d = dict(m1)
    for g, e in m2:
        x = d.get(g, 0) - e
        if x < 0:
            return None
        if x:
            d[g] = x
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def gen(g):
        return Poly({((g, 1),): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x += c
                if x == 0:
                    del r[m]
                else:
                    r[m] = x
        return Poly(r)

    def scale(self, c):
        if c == 1:
            return self
        if c == 0:
            return Poly({})
        return Poly({m: x * c for m, x in self.t.items()})

    def mul(self, o, ctx):
        if not self.t or not o.t:
            return Poly({})
        if len(self.t) * len(o.t) > Ctx.MAXTERMS * 8:
            raise AlgLimit()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                x = r.get(m)
                if x is None:
                    r[m] = c1 * c2
                else:
                    r[m] = x + c1 * c2
        r = {m: c for m, c in r.items() if c != 0}
        if len(r) > Ctx.MAXTERMS:
            raise AlgLimit()
        return Poly(r).reduce(ctx)

    def reduce(self, ctx):
        """apply s^2 -> P for square-root generators"""
        gens = ctx.gens
        while True:
            hit = None
            for m in self.t:
                for g, e in m:
                    if e >= 2 and gens[g][0] == 's':
                        hit = g
                        break
                if hit is not None:
                    break
            if hit is None:
                return self
            keep = {}
            by = {}
            for m, c in self.t.items():
                e = 0
                for g, x in m:
                    if g == hit:
                        e = x
                        break
                if e < 2:
                    keep[m] = c
                else:
                    q, rem = divmod(e, 2)
                    m2 = tuple((g, x) if g != hit else (g, rem) for g, x in m if g != hit or rem)
                    by.setdefault(q, {})[m2] = c
            res = Poly(keep)
            P = gens[hit][1]
            pw = Poly.const(1)
            for q in range(1, max(by) + 1):
                pw = pw.mul(P, ctx)
                if q in by:
                    res = res.add(Poly(by[q]).mul(pw, ctx))
            self = res

    def pow(self, e, ctx):
        r = Poly.const(1)
        b = self
        while e:
            if e & 1:
                r = r.mul(b, ctx)
            e >>= 1
            if e:
                b = b.mul(b, ctx)
        return r

    def lead(self):
        return max(self.t, key=mkey)

    def content_split(self):
        """(const, monomial, primitive poly with leading coefficient > 0)"""
        t = self.t
        num = 0
        den = 1
        mono = None
        for m, c in t.items():
            if type(c) is int:
                num = math.gcd(num, c)
            else:
                num = math.gcd(num, c.numerator)
                den = den * c.denominator // math.gcd(den, c.denominator)
            if mono is None:
                mono = dict(m)
            elif mono:
                d = dict(m)
                mono = {g: min(e, d[g]) for g, e in mono.items() if g in d}
        c = Fraction(num, den)
        if den != 1:
            # coefficients are n_i/d_i : use gcd(n_i)/lcm(d_i)
            pass
        if t[self.lead()] < 0:
            c = -c
        if c.denominator == 1:
            c = c.numerator
        mono = tuple(sorted(mono.items()))
        if c == 1 and not mono:
            return c, mono, self
        r = {}
        for m, x in t.items():
            y = Fraction(x) / c
            if y.denominator == 1:
                y = y.numerator
            r[mdiv(m, mono)] = y
        return c, mono, Poly(r)

    def divexact(self, d, budget=4000):
        """exact quotient self / d or None"""
        if len(d.t) == 1:
            (dm, dc), = d.t.items()
            r = {}
            for m, c in self.t.items():
                q = mdiv(m, dm)
                if q is None:
                    return None
                x = Fraction(c) / dc
                r[q] = x.numerator if x.denominator == 1 else x
            return Poly(r)
        if len(d.t) > len(self.t) * 50 + 50:
            return None
        # degree screening
        dl = d.lead()
        dc = d.t[dl]
        rest = [(m, c) for m, c in d.t.items() if m != dl]
        rem = dict(self.t)
        quo = {}
        import heapq
        steps = 0
        while rem:
            steps += 1
            if steps > budget:
                return None
            m = max(rem, key=mkey)
            c = rem.pop(m)
            q = mdiv(m, dl)
            if q is None:
                return None
            x = Fraction(c) / dc
            if x.denominator == 1:
                x = x.numerator
            quo[q] = x
            for m2, c2 in rest:
                mm = mmul(q, m2)
                y = rem.get(mm, 0) - x * c2
                if y == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = y
        return Poly(quo)

    def psqrt(self):
        """polynomial square root (up to sign) or None"""
        t = self.t
        if not t:
            return Poly({})
        lm = self.lead()
        if any(e % 2 for _, e in lm):
            return None
        c = csqrt(t[lm])
        if c is None:
            return None
        root = {tuple((g, e // 2) for g, e in lm): c}
        rl = tuple((g, e // 2) for g, e in lm)
        rem = dict(t)
        del rem[lm]
        steps = 0
        while rem:
            steps += 1
            if steps > 300:
                return None
            m = max(rem, key=mkey)
            q = mdiv(m, rl)
            if q is None:
                return None
            x = Fraction(rem[m]) / (2 * c)
            if x.denominator == 1:
                x = x.numerator
            if mkey(q) >= mkey(rl):
                return None
            # rem -= 2*root*x*q + (x q)^2
            for m2, c2 in root.items():
                mm = mmul(m2, q)
                y = rem.get(mm, 0) - 2 * x * c2
                if y == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = y
            mm = mmul(q, q)
            y = rem.get(mm, 0) - x * x
            if y == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = y
            root[q] = root.get(q, 0) + x
        return Poly(root)


_mk = {}


def mkey(m):
    """graded lexicographic order key"""
    k = _mk.get(m)
    if k is None:
        if len(_mk) > 500000:
            _mk.clear()
        k = _mk[m] = (sum(e for _, e in m), tuple((-g, e) for g, e in m))
    return k


def csqrt(c):
    f = Fraction(c)
    if f < 0:
        return None
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        r = Fraction(p, q)
        return r.numerator if r.denominator == 1 else r
    return None


class RF:
    __slots__ = ('ctx', 'num', 'den')

    # den: key -> (Poly, exp); factors are primitive, non-constant, pairwise distinct
    def __init__(self, ctx, num, den):
        self.ctx, self.num, self.den = ctx, num, den

    def neg(self):
        return RF(self.ctx, self.num.neg(), self.den)

    def add(self, o):
        ctx = self.ctx
        if not self.num.t:
            return o
        if not o.num.t:
            return self
        d1, d2 = self.den, o.den
        if not d1 and not d2:
            r = self.num.add(o.num)
            if len(r.t) > Ctx.MAXTERMS:
                raise AlgLimit()
            return RF(ctx, r, d1)
        den = dict(d1)
        n1 = self.num
        n2 = o.num
        for k, (f, e) in d2.items():
            x = d1.get(k)
            if x is None:
                den[k] = (f, e)
                n1 = n1.mul(f.pow(e, ctx), ctx)
            elif x[1] < e:
                den[k] = (f, e)
                n1 = n1.mul(f.pow(e - x[1], ctx), ctx)
        for k, (f, e) in d1.items():
            x = d2.get(k)
            e2 = x[1] if x else 0
            if e2 < e:
                n2 = n2.mul(f.pow(e - e2, ctx), ctx)
        return RF(ctx, n1.add(n2), den).cancel()

    def cancel(self):
        if not self.den:
            return self
        if not self.num.t:
            return RF(self.ctx, self.num, {})
        num = self.num
        den = {}
        for k, (f, e) in self.den.items():
            while e:
                q = num.divexact(f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                den[k] = (f, e)
        return RF(self.ctx, num, den)

    def mul(self, o):
        ctx = self.ctx
        if not self.num.t or not o.num.t:
            return RF(ctx, Poly({}), {})
        n = self.num.mul(o.num, ctx)
        if not self.den and not o.den:
            return RF(ctx, n, {})
        den = dict(self.den)
        for k, (f, e) in o.den.items():
            x = den.get(k)
            den[k] = (f, e + x[1]) if x else (f, e)
        return RF(ctx, n, den).cancel()

    def inv(self):
        """1/self (self != 0 established by the caller)"""
        ctx = self.ctx
        if not self.num.t:
            raise AlgLimit()
        c, mono, prim = self.num.content_split()
        den = {}
        num = Poly.const(Fraction(1) / c if c not in (1, -1) else c)
        for g, e in mono:
            p = Poly.gen(g)
            if ctx.gens[g][0] == 's':
                # rationalise 1/s = s/P
                num = num.mul(p, ctx)
                r = RF(ctx, ctx.gens[g][1], {}).inv()
                num = num.mul(r.num, ctx)
                for k, (f, x) in r.den.items():
                    y = den.get(k)
                    den[k] = (f, x + y[1]) if y else (f, x)
                continue
            y = den.get(p.key())
            den[p.key()] = (p, e + y[1]) if y else (p, e)
        if not (len(prim.t) == 1 and () in prim.t):
            # rationalise one level of square roots if the factor is linear in one
            prim, extra = rationalise(prim, ctx)
            if extra is not None:
                num = num.mul(extra, ctx)
                r = RF(ctx, prim, {}).inv()
                num = num.mul(r.num, ctx)
                for k, (f, x) in r.den.items():
                    y = den.get(k)
                    den[k] = (f, x + y[1]) if y else (f, x)
            else:
                # split known factors out of prim
                y = den.get(prim.key())
                den[prim.key()] = (prim, 1 + y[1]) if y else (prim, 1)
        else:
            num = num.scale(Fraction(1) / prim.t[()])
        for k, (f, e) in self.den.items():
            num = num.mul(f.pow(e, ctx), ctx)
        return RF(ctx, num, den).cancel()

    def sqrt(self):
        """square root of a value known to be >= 0"""
        ctx = self.ctx
        n = self.num
        if not n.t:
            return self
        den = {}
        for k, (f, e) in self.den.items():
            if e % 2:
                n = n.mul(f, ctx)
                e += 1
            den[k] = (f, e // 2)
        c, mono, prim = n.content_split()
        if c < 0:
            c = -c
            prim = prim.neg()
        # n = c * mono * prim
        out = Poly.const(1)
        fc = Fraction(c)
        # rational content: pull square part
        a, b = sqfree(fc.numerator), sqfree(fc.denominator)
        # sqrt(num/den) = sqrt(num*den)/den
        outside = Fraction(a[0], b[0])
        inside = Fraction(a[1] * b[1])
        outside = outside / b[1]
        out = out.scale(outside.numerator if outside.denominator == 1 else outside)
        ins_m = {}
        for g, e in mono:
            if e // 2:
                out = out.mul(ctx_abs(ctx, Poly.gen(g)).pow(e // 2, ctx), ctx)
            if e % 2:
                ins_m[g] = 1
        ip = Poly({tuple(sorted(ins_m.items())): 1})
        k = inside.numerator
        r = prim.psqrt() if len(prim.t) > 1 or () not in prim.t else None
        if len(prim.t) == 1 and () in prim.t:
            q = Fraction(prim.t[()])
            k *= q.numerator * q.denominator
            out = out.scale(Fraction(1, q.denominator))
        elif r is not None:
            out = out.mul(ctx_abs(ctx, r), ctx)
        else:
            ip = ip.mul(prim, ctx)
        # constant part: one generator per prime, so that the generators are independent
        if k < 0:
            k, ip = -k, ip.neg()
        sq, primes = ctx.factor_root(k)
        out = out.scale(sq)
        for q in primes:
            g = ctx.new_sqrt_gen(Poly.const(q))
            ctx.gensign[g] = '+'
            out = out.mul(Poly.gen(g), ctx)
        if not (len(ip.t) == 1 and ip.t.get(()) == 1):
            g = ctx.new_sqrt_gen(ip)
            s = ctx.sign_poly(ip)
            if s in ('+', '!'):
                ctx.gensign[g] = '+'
            out = out.mul(Poly.gen(g), ctx)
        # denominators: |f|
        res = RF(ctx, out, {})
        neg = False
        for k, (f, e) in den.items():
            if e % 2:
                s = ctx.sign_poly(f)
                if s in ('+', '0+'):
                    pass
                elif s in ('-', '0-'):
                    neg = not neg
                else:
                    s = ctx.sign_hook(f)
                    if s == '-':
                        neg = not neg
        res = RF(ctx, out.neg() if neg else out, den)
        return res.cancel()

    def is_zero(self):
        return not self.num.t


def ctx_abs(ctx, p):
    s = ctx.sign_poly(p)
    if s in ('+', '0+', '0'):
        return p
    if s in ('-', '0-'):
        return p.neg()
    s = ctx.sign_hook(p)
    return p.neg() if s == '-' else p


def sqfree(n):
    """n = a^2 * b with small square factors pulled"""
    a = 1
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    for p in (2, 3, 5, 7, 11, 13):
        while n % (p * p) == 0:
            n //= p * p
            a *= p
    return a, n


def rationalise(p, ctx):
    """if p = A + B s with a sqrt generator s, return (A^2 - B^2 P, A - B s), else (p, None)"""
    gs = [g for m in p.t for g, e in m if ctx.gens[g][0] == 's']
    if not gs:
        return p, None
    g = max(gs)
    A = {}
    B = {}
    for m, c in p.t.items():
        if any(x == g for x, _ in m):
            B[tuple((x, e) for x, e in m if x != g)] = c
        else:
            A[m] = c
    A, B = Poly(A), Poly(B)
    Pg = ctx.gens[g][1]
    n = A.mul(A, ctx).add(B.mul(B, ctx).mul(Pg, ctx).neg())
    if not n.t:
        raise AlgLimit()
    return n, A.add(B.mul(Poly.gen(g), ctx).neg())


# ------------------------------------------------------------------ evaluation
def evaluate(n, val, memo, ctx=None):
    """numeric value of a node under val: var index -> Fraction ; exact unless irrational (then float)"""
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        op = x.op
        if op == 'c':
            memo[x.id] = x.a
            st.pop()
            continue
        if op == 'v':
            memo[x.id] = val[x.a]
            st.pop()
            continue
        need = [y for y in (x.a, x.b) if y is not None and y.id not in memo]
        if need:
            st.extend(need)
            continue
        a = memo[x.a.id]
        b = memo[x.b.id] if x.b is not None else None
        try:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == 'neg':
                r = -a
            elif op == '/':
                r = Fraction(a) / b if not isinstance(a, float) and not isinstance(b, float) else a / b
            elif op == 'sqrt':
                r = csqrt(a) if not isinstance(a, float) else None
                if r is None:
                    r = math.sqrt(a) if a >= 0 else float('nan')
        except (ZeroDivisionError, OverflowError):
            r = float('nan')
        memo[x.id] = r
        st.pop()
    return memo[n.id]


def node_str(n, depth=6):
    if n.op == 'c':
        return str(n.a)
    if n.op == 'v':
        return 'x%d' % n.a
    if depth == 0:
        return '...'
    if n.op == 'neg':
        return '-(%s)' % node_str(n.a, depth - 1)
    if n.op == 'sqrt':
        return 'sqrt(%s)' % node_str(n.a, depth - 1)
    return '(%s %s %s)' % (node_str(n.a, depth - 1), n.op, node_str(n.b, depth - 1))
