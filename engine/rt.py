"""Symbolic runtime: memory, integers, real/IEEE values, exceptions, path forking, obligations."""
import math
import random
import struct
import time
from fractions import Fraction
import z3
import alg
import ir
from alg import Node, AlgLimit
from codegen import Gen

INF = float('inf')
NAN = float('nan')
M64 = (1 << 64) - 1


class EngineError(Exception):
    """construct outside the encoder: the run is inconclusive, never a success"""


class PathEnd(Exception):
    """path finished early (assumption false / exit)"""


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind, msg)
        self.kind, self.msg = kind, msg


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        Exception.__init__(self)
        self.ptr, self.tinfo = ptr, tinfo


class Undef:
    def _u(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _u
    __xor__ = __rxor__ = __invert__ = __neg__ = __eq__ = __ne__ = __lshift__ = __rshift__ = _u
    __hash__ = object.__hash__

    def __getitem__(self, i):
        return self

    def __repr__(self):
        return 'UNDEF'

    def __bool__(self):
        raise Violation('uninit', 'branch on an uninitialised value')


UNDEF = Undef()


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'ro')

    def __init__(self, size, kind, name=''):
        self.size, self.kind, self.name = size, kind, name
        self.cells = {}
        self.alive = True
        self.ro = False


STD_BASES = {
    '@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception',
    '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error',
    '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt12domain_error': '@_ZTISt11logic_error',
    '@_ZTISt11range_error': '@_ZTISt13runtime_error', '@_ZTISt14overflow_error': '@_ZTISt13runtime_error',
    '@_ZTISt15underflow_error': '@_ZTISt13runtime_error',
    '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc',
}


class Limits:
    real_branch_ms = 1500
    eq_ms = 8000
    max_steps = 30_000_000


class RT:
    def __init__(self, mod, mode='real', limits=None):
        self.mod = mod
        self.mode = mode
        self.lim = limits or Limits()
        self.G = {}
        self.fpconsts = {}
        self.compiled = {}
        self.static = [None]          # static objects (index = object id)
        self.gaddr = {}
        self.addrg = {}
        self.gen = None
        self.stats = {'solver_calls': 0, 'solver_s': 0.0, 'feas_calls': 0, 'eq_queries': 0, 'z3_raw': 0, 'nf': 0,
                      'structural': 0, 'obligations': 0, 'undecided': 0, 'int_queries': 0, 'branches': 0,
                      'slow_feas_unknown': 0}
        self.omp = None
        self.n = 0
        self.exc = None
        self.objs = []
        self.bind()
        self.gen = Gen(mod, self)

    # ------------------------------------------------------------------ static data
    def global_addr(self, g):
        a = self.gaddr.get(g)
        if a is not None:
            return a
        if g in self.mod.aliases and g not in self.mod.functions:
            x = self.mod.aliases[g]
            a = self.gaddr[g] = self.global_addr(x[1])
            return a
        oid = len(self.static)
        gl = self.mod.globals.get(g)
        if gl is not None:
            o = Obj(gl.ty.size(), 'global', g)
            o.ro = gl.const
        else:
            o = Obj(0, 'func', g)
        self.static.append(o)
        a = self.gaddr[g] = oid << 32
        self.addrg[a] = g
        # ids of static objects must stay below those of path objects
        if oid >= RT.STATIC_MAX:
            raise EngineError('too many globals')
        if gl is not None and gl.init is not None:
            self.init_global(o, 0, gl.ty, gl.init)
        elif g == '@__libc_single_threaded':
            o.cells[0] = (1, 1)
        elif gl is not None:
            o.kind = 'external'
        if self.objs:
            self.objs[oid] = o if o.ro or o.kind == 'func' else self.clone_static(o)
        return a

    STATIC_MAX = 4000

    def clone_static(self, o):
        c = Obj(o.size, o.kind, o.name)
        c.cells = dict(o.cells)
        return c

    def init_global(self, o, off, t, v):
        k = v[0]
        if k == 'agg':
            if t.k == 'struct':
                for (et, x), eo in zip(v[2], t.offs()):
                    self.init_global(o, off + eo, et, x)
            else:
                s = t.elem.size()
                for i, (et, x) in enumerate(v[2]):
                    self.init_global(o, off + i * s, et, x)
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif k == 'zero':
            n = t.size()
            i = 0
            while i < n:
                s = 8 if n - i >= 8 and (off + i) % 8 == 0 else 4 if n - i >= 4 and (off + i) % 4 == 0 else 1
                o.cells[off + i] = (s, 0)
                i += s
        elif k == 'undef':
            pass
        elif k == 'fp':
            b = struct.pack('<d', float(v[1])) if t.k == 'double' else struct.pack('<f', float(v[1]))
            o.cells[off] = (t.size(), int.from_bytes(b, 'little'))
        elif k == 'int':
            o.cells[off] = (t.size(), v[1])
        elif k == 'null':
            o.cells[off] = (8, 0)
        elif k == 'glob':
            o.cells[off] = (8, self.global_addr(v[1]))
        elif k == 'gepc':
            b = self.global_addr(v[2][1]) if v[2][0] == 'glob' else 0
            o.cells[off] = (8, (b + v[1]) & M64)
        else:
            raise EngineError('global init %r' % (v,))

    def cstring(self, p):
        if type(p) is not int:
            return '?'
        o = self.objs[p >> 32]
        off = p & 0xffffffff
        s = bytearray()
        while True:
            c = o.cells.get(off)
            if c is None or c[1] == 0 or len(s) > 300:
                break
            s.append(c[1] & 255)
            off += 1
        return s.decode('latin1')

    # ------------------------------------------------------------------ path set-up
    def reset(self, prefix, rng_seed):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.pending = []       # alternative prefixes discovered
        self.ctx = alg.Ctx()
        self.ctx.sign_hook = self.poly_sign_fork
        self.rpc = []           # (rel, Node) rel in '<','<=','==','!=' meaning node rel 0
        self.ipc = []
        self.isolver = None
        self.inputs = []
        self.checks = []
        self.reached = {}
        self.failed = []        # candidate violations (kind,msg,extra)
        self.defs = []
        self.zvars = []
        self.wit = []
        self.wit_ok = True
        self.elim = []
        self.rng = random.Random(rng_seed)
        self.conc = {}
        self.n = 0
        self.exc = None
        self.caught = []
        self.fbuf = 0
        self.objs = list(self.static) + [None] * (RT.STATIC_MAX - len(self.static))
        for i, o in enumerate(self.static):
            if o is not None and not o.ro and o.kind != 'func':
                self.objs[i] = self.clone_static(o)
        self.heap_live = {}
        self.at_exit = []
        self.freed = {}         # released blocks by size, handed out again when a harness asks for it
        self.trunc_exact = False
        self.eps_count = 0
        self.eps_vars = set()   # rounding perturbations among the reals
        for nme, (v, k) in self.fpconsts.items():
            self.G[nme] = self.fp_const(v, k)
        self.omp_state = None
        self.flags = {}
        if self.mode == 'real':
            self.Z = self.ctx.ZERO

    # ------------------------------------------------------------------ decisions
    def decide(self, options):
        """options(): list of feasible option values, computed only when not replaying a prefix"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            return v, True
        opts = options()
        self.stats['branches'] += 1
        if not opts:
            raise PathEnd('infeasible')
        self.pos += 1
        for o in opts[1:]:
            self.pending.append(self.taken + [o])
        self.taken.append(opts[0])
        return opts[0], False

    # ---- integers
    def isolv(self):
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set('timeout', 20000)
        return self.isolver

    def icheck(self, *c):
        t = time.time()
        r = self.isolv().check(*c)
        self.stats['solver_calls'] += 1
        self.stats['int_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise EngineError('integer/bit-vector query undecided (timeout)')
        return r == z3.sat

    def iadd(self, c):
        self.isolv().add(c)
        self.ipc.append(c)

    def cond(self, c):
        if c is True or c is False:
            return c
        if c.__class__ is int:
            return bool(c)
        if c is UNDEF:
            raise Violation('uninit', 'branch on an uninitialised value')
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def opts():
            o = []
            if self.icheck(c):
                o.append(1)
            if self.icheck(z3.Not(c)):
                o.append(0)
            return o
        v, _ = self.decide(opts)
        self.iadd(c if v else z3.Not(c))
        return bool(v)

    def concretize(self, e, what='value', limit=300):
        if e.__class__ is int:
            return e
        if e is UNDEF:
            raise Violation('uninit', what + ' depends on an uninitialised value')
        if not z3.is_bv(e):
            raise EngineError('cannot concretise %r' % (e,))
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        k = e.get_id()
        x = self.conc.get(k)
        if x is not None:
            return x[0]

        def opts():
            s = self.isolv()
            s.push()
            out = []
            try:
                while self.icheck():
                    v = s.model().eval(e, model_completion=True).as_long()
                    out.append(v)
                    if len(out) > limit:
                        raise EngineError('too many values for a symbolic ' + what)
                    s.add(e != v)
            finally:
                s.pop()
            return sorted(out)
        v, _ = self.decide(opts)
        self.iadd(e == v)
        self.conc[k] = (v, e)
        return v

    # ---- reals
    def zr(self, n):
        """z3 term of a node (divisions and roots via fresh variables with definitions)"""
        if n.z is not None:
            return n.z
        st = [n]
        while st:
            x = st[-1]
            if x.z is not None:
                st.pop()
                continue
            need = [y for y in ((x.a, x.b) if x.op not in 'cv' else ()) if y is not None and y.z is None]
            if need:
                st.extend(need)
                continue
            op = x.op
            if op == 'c':
                f = Fraction(x.a)
                x.z = z3.RealVal(str(f.numerator) + ('/' + str(f.denominator) if f.denominator != 1 else ''))
            elif op == 'v':
                x.z = z3.Real('x%d' % x.a)
            elif op == '+':
                x.z = x.a.z + x.b.z
            elif op == '-':
                x.z = x.a.z - x.b.z
            elif op == '*':
                x.z = x.a.z * x.b.z
            elif op == 'neg':
                x.z = -x.a.z
            elif op == '/':
                q = z3.Real('q%d' % x.id)
                self.defs.append((q * x.b.z == x.a.z, x.b.z != 0))
                x.z = q
            elif op == 'sqrt':
                q = z3.Real('s%d' % x.id)
                self.defs.append((q * q == x.a.z, q >= 0))
                x.z = q
            st.pop()
        return n.z

    def rel_z(self, rel, n):
        z = self.zr(n)
        return {'<': z < 0, '<=': z <= 0, '==': z == 0, '!=': z != 0, '>': z > 0, '>=': z >= 0}[rel]

    def rsolver(self, ms, extra):
        cs = [self.rel_z(r, n) for r, n in self.rpc] + extra
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', ms)
        s.add(*cs)
        done = 0
        while done < len(self.defs):
            s.add(*self.defs[done])
            done += 1
        return s

    snapshot = None

    def rcheck(self, ms, extra):
        """sat / unsat / unknown for the real path condition plus extra (list of thunks -> z3)"""
        t = time.time()
        if self.snapshot:
            self.snapshot(self)   # inputs near this path, for the case that the solver does not return
        ex = [e() if callable(e) else e for e in extra]
        s = self.rsolver(ms, ex)
        r = s.check()
        self.stats['solver_calls'] += 1
        self.stats['solver_s'] += time.time() - t
        return r, s

    def witness_holds(self):
        memo = {}
        for rel, n in self.rpc:
            if not rel_ok(rel, alg.evaluate(n, self.wit, memo)):
                return False
        return True

    def refresh_witness(self, tries=60):
        if self.wit_ok and self.witness_holds():
            return True
        save = list(self.wit)
        n = len(self.wit)
        for t in range(tries):
            k = 3 if t < 20 else 9
            for i in range(n):
                if t % 3 == 0 and self.rng.random() < 0.6:
                    self.wit[i] = save[i]
                else:
                    self.wit[i] = self.rand_wit(i, k)
            if self.elim:
                self.solve_wit()
            if self.witness_holds():
                self.wit_ok = True
                return True
        # ask the solver
        r, s = self.rcheck(self.lim.real_branch_ms, [])
        if r == z3.sat:
            if self.model_to_wit(s.model()) and self.witness_holds():
                self.wit_ok = True
                return True
        self.wit = save
        self.wit_ok = False
        return False

    def model_to_wit(self, m):
        for i in range(len(self.wit)):
            v = m.eval(z3.Real('x%d' % i), model_completion=True)
            self.wit[i] = z3_to_frac(v)
        return True

    def rand_real(self, k):
        d = self.rng.choice((1, 1, 1, 2, 4))
        v = 0
        while v == 0:
            v = Fraction(self.rng.randint(-k * d, k * d), d)
        return v

    def rand_wit(self, i, k, den=0):
        if i in self.eps_vars:
            return Fraction(self.rng.choice((-1, 1)), 1 << 25)
        return self.rand_real(k) + (Fraction(self.rng.randint(1, den - 1), den) if den else 0)

    def rfork(self, n, pos_rel, neg_rel):
        """fork on (n pos_rel 0) ; returns True/False"""
        def feas(rel):
            # cheap: does the current witness satisfy it?
            return None

        def opts():
            o = []
            wv = None
            if self.refresh_witness(20):
                memo = {}
                wv = alg.evaluate(n, self.wit, memo)
            for v, rel in ((1, pos_rel), (0, neg_rel)):
                if wv is not None and not isinstance(wv, float) and rel_ok(rel, wv):
                    o.append(v)
                    continue
                self.stats['feas_calls'] += 1
                r, s = self.rcheck(self.lim.real_branch_ms, [lambda: self.rel_z(rel, n)])
                if r == z3.unsat:
                    continue
                if r == z3.unknown:
                    self.stats['slow_feas_unknown'] += 1
                o.append(v)
            return o
        v, _ = self.decide(opts)
        rel = pos_rel if v else neg_rel
        self.assume_rel(rel, n)
        return bool(v)

    def assume_rel(self, rel, n):
        self.rpc.append((rel, n))
        self.ctx.learn(n, RELSIGN[rel])
        if rel == '==':
            self.eliminate(n)

    def eliminate(self, n):
        """use an equality of the path condition to remove a variable from the normal forms"""
        r = self.ctx.eliminate(n)
        if r is None:
            return
        var, g, rf, known = r
        self.elim.append((var, rf))
        if known is not None:
            self.ctx.learn_poly(rf.num, known) if not rf.den else None
        for rel, m in self.rpc:
            if rel != '==':
                self.ctx.learn(m, RELSIGN[rel])

    def solve_wit(self):
        """the eliminated variables follow from the others"""
        c = self.ctx
        gv = {g: i for i, g in c.gen_of_var.items()}

        def gen(g):
            k = c.gens[g]
            if k[0] == 'v':
                return self.wit[k[1]]
            v = poly(k[1])
            q = alg.csqrt(v) if not isinstance(v, float) else None
            return q if q is not None else math.sqrt(v) if v >= 0 else float('nan')

        def poly(p):
            s = 0
            for m, co in p.t.items():
                t = co
                for g, e in m:
                    t = t * gen(g) ** e
                s = s + t
            return s
        for var, rf in reversed(self.elim):
            try:
                v = poly(rf.num)
                for f, e in rf.den.values():
                    d = poly(f) ** e
                    v = v / d if isinstance(v, float) or isinstance(d, float) else Fraction(v) / d
            except (ZeroDivisionError, OverflowError):
                return
            self.wit[var] = v

    def poly_node(self, p):
        c = self.ctx
        r = c.ZERO
        for m, co in sorted(p.t.items()):
            t = c.const(co)
            for g, e in m:
                k = c.gens[g]
                x = c.mk('v', k[1]) if k[0] == 'v' else c.sqrt(self.poly_node(k[1]))
                for _ in range(e):
                    t = c.mul(t, x)
            r = c.add(r, t)
        return r

    def poly_sign_fork(self, p):
        n = self.poly_node(p)
        s = self.ctx.sign_poly(p)
        if s in ('-', '0-'):
            return '-'
        if s in ('+', '0+', '0'):
            return '+'
        neg = self.rfork(n, '<', '>=')
        return '-' if neg else '+'

    def sign(self, n):
        """sign of a finite node, forking when it is not determined: '+','-','0'"""
        s = self.ctx.sign_node(n)
        if s in ('+', '-', '0'):
            return s
        if s not in ('!',):
            if s == '0+':
                if not self.rfork(n, '!=', '=='):
                    return '0'
                return '+'
            if s == '0-':
                if not self.rfork(n, '!=', '=='):
                    return '0'
                return '-'
            if not self.rfork(n, '!=', '=='):
                return '0'
        return '+' if self.rfork(n, '>', '<=') else '-'

    # ------------------------------------------------------------------ obligations
    def flush_checks(self):
        """discharge the pending equalities under the current path condition"""
        ch = self.checks
        if not ch:
            return
        self.checks = []
        if self.mode == 'ieee':
            return self.flush_ieee(ch)
        st = self.stats
        st['obligations'] += len(ch)
        todo = []
        for a, b, msg in ch:
            bad = None
            if a is UNDEF or b is UNDEF:
                self.failed.append(('uninit', msg + ': compared value is uninitialised', None))
                continue
            fa, fb = a.__class__ is float, b.__class__ is float
            if fa or fb:
                if not (fa and fb and (a == b or (a != a and b != b))):
                    self.failed.append(('value', '%s: special value %s vs %s' % (msg, sval(a), sval(b)), None))
                continue
            todo.append((a, b, msg))
        if not todo:
            return
        rest = [(a, b, m) for a, b, m in todo if a is not b]
        st['structural'] += len(todo) - len(rest)
        if not rest:
            # identical terms: still put one (trivially unsat) query to the solver per batch
            t = time.time()
            s = z3.Solver()
            s.add(z3.Or([self.zr(a) != self.zr(b) for a, b, _ in todo[:200]]))
            r = s.check()
            st['solver_calls'] += 1
            st['eq_queries'] += 1
            st['solver_s'] += time.time() - t
            if r != z3.unsat:
                raise EngineError('solver disagrees on identical terms')
            return
        nonlin = any(has_div(a, {}) or has_div(b, {}) for a, b, _ in rest)
        if not nonlin:
            t = time.time()
            s = z3.Solver()
            s.set('timeout', self.lim.eq_ms)
            bad = []
            for a, b, m in rest:
                d = z3.simplify(self.zr(a) - self.zr(b), som=True)
                if z3.is_rational_value(d) and d.as_fraction() == 0:
                    continue
                bad.append((a, b, m, d))
            st['solver_calls'] += 1
            st['eq_queries'] += 1
            st['z3_raw'] += len(rest) - len(bad)
            st['solver_s'] += time.time() - t
            rest = [(a, b, m) for a, b, m, d in bad]
        # normal-form stage
        left = []
        for a, b, m in rest:
            try:
                d = self.ctx.rf(a).add(self.ctx.rf(b).neg())
                if d.is_zero():
                    st['nf'] += 1
                    self.nf_query(a, b)
                    continue
                left.append((a, b, m, d))
            except AlgLimit:
                left.append((a, b, m, None))
        for a, b, m, d in left:
            self.refute_or_prove(a, b, m, d)

    def check_same(self, a, b, msg):
        self.checks.append((a, b, msg))
        if len(self.checks) >= 400:
            self.flush_checks()

    def flush_ieee(self, ch):
        """bit-for-bit equality (any NaN equals any NaN) of IEEE terms for all inputs of the path"""
        st = self.stats
        st['obligations'] += len(ch)
        todo = []
        for a, b, msg in ch:
            if a is UNDEF or b is UNDEF:
                self.failed.append(('uninit', msg + ': compared value is uninitialised', None))
                continue
            todo.append((a, b, msg))
        if not todo:
            return
        diff = []
        for a, b, msg in todo:
            # SMT-LIB "=" on floating-point: identity, all NaNs are one value, +0 and -0 differ
            diff.append((a != b, msg))
            if a.eq(b):
                st['structural'] += 1
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.lim.eq_ms)
        s.add(*self.ipc)
        s.add(z3.Or([d for d, _ in diff]))
        r = s.check()
        st['solver_calls'] += 1
        st['eq_queries'] += 1
        st['solver_s'] += time.time() - t
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = s.model()
            msg = next((g for d, g in diff if z3.is_true(m.eval(d, model_completion=True))), diff[0][1])
            self.failed.append(('value', msg, ('inputs', self.inputs_from(m, None))))
            return
        st['undecided'] += 1
        self.failed.append(('undecided', diff[0][1], None))

    def nf_query(self, a, b):
        """hand the normalised difference to z3 (numerators cross-multiplied)"""
        t = time.time()
        ra, rb = self.ctx.rf(a), self.ctx.rf(b)
        st = self.stats
        st['solver_calls'] += 1
        st['eq_queries'] += 1
        if len(ra.num.t) + len(rb.num.t) < 400:
            za = self.zpoly(ra.num)
            zb = self.zpoly(rb.num)
            for f, e in rb.den.values():
                zf = self.zpoly(f)
                for _ in range(e):
                    za = za * zf
            for f, e in ra.den.values():
                zf = self.zpoly(f)
                for _ in range(e):
                    zb = zb * zf
            d = z3.simplify(za - zb, som=True)
            st['nf_z3'] = st.get('nf_z3', 0) + (1 if z3.is_rational_value(d) and d.as_fraction() == 0 else 0)
        st['solver_s'] += time.time() - t

    def zpoly(self, p):
        c = self.ctx
        ts = []
        for m, co in p.t.items():
            t = z3.RealVal(str(Fraction(co)))
            for g, e in m:
                v = z3.Real('g%d' % g)
                for _ in range(e):
                    t = t * v
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def refute_or_prove(self, a, b, msg, d):
        st = self.stats
        # 1. concrete refutation on points of the path condition
        save = list(self.wit)
        ok = self.wit_ok
        found = False
        small = None
        for t in range(40):
            if t:
                self.wit = [self.rand_real(2 + t // 8) for _ in save]
                if self.elim:
                    self.solve_wit()
                self.wit_ok = True
            if not (self.refresh_witness(12) if t < 4 else self.witness_holds()):
                continue
            memo = {}
            x, y = alg.evaluate(a, self.wit, memo), alg.evaluate(b, self.wit, memo)
            fx, fy = float(x), float(y)
            if fx != fx or fy != fy or abs(fx - fy) > 1e-5 * max(1.0, abs(fx), abs(fy)):
                found = True
                break
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and x != y and (small is None or abs(fx - fy) > small[0]):
                small = abs(fx - fy), fx, fy, list(self.wit)   # refuted exactly, by less than the replay can show
        if not found and small:
            found, fx, fy, self.wit = True, small[1], small[2], small[3]
        if found:
            self.failed.append(('value', '%s: %r vs %r' % (msg, fx, fy), list(self.wit)))
            return
        self.wit, self.wit_ok = save, ok
        # 2. solver on the raw terms
        r, s = self.rcheck(self.lim.eq_ms, [lambda: self.zr(a) != self.zr(b)])
        st['eq_queries'] += 1
        if r == z3.unsat:
            st['z3_raw'] += 1
            return
        if r == z3.sat:
            self.model_to_wit(s.model())
            self.failed.append(('value', msg + ': solver model', list(self.wit)))
            return
        st['undecided'] += 1
        self.failed.append(('undecided', msg, None))

    # ------------------------------------------------------------------ memory
    def bind(self):
        G = self.G
        G['X'] = self
        G['UNDEF'] = UNDEF
        G['CxxThrow'] = CxxThrow
        rt = self
        Z3B = z3.BitVecRef

        def norm_ptr(p):
            if p is UNDEF:
                raise Violation('uninit', 'dereference of an uninitialised pointer')
            if isinstance(p, z3.BitVecRef):
                return rt.concretize(p, 'address')
            raise EngineError('pointer value %r' % (p,))

        def getobj(p, sz, what):
            i = p >> 32
            objs = rt.objs
            o = objs[i] if i < len(objs) else None
            if o is None:
                raise Violation('memory', '%s of %d bytes through a null or invalid pointer (%#x)' % (what, sz, p))
            if not o.alive:
                raise Violation('memory', '%s of %d bytes in a dead object (%s %s: use after free/return)' % (
                    what, sz, o.kind, o.name))
            off = p & 0xffffffff
            if off + sz > o.size:
                if off >= 0x80000000:
                    # negative offset: belongs to the next object
                    j = i + 1
                    n = objs[j] if j < len(objs) else None
                    raise Violation('memory', '%s of %d bytes at offset %d of %s %s (size %s)' % (
                        what, sz, off - (1 << 32), n.kind if n else '?', n.name if n else '?', n.size if n else '?'))
                raise Violation('memory', '%s of %d bytes at offset %d of %s %s (size %d)' % (
                    what, sz, off, o.kind, o.name, o.size))
            return o, off

        def load(p, sz):
            if p.__class__ is not int:
                p = norm_ptr(p)
            try:
                o = rt.objs[p >> 32]
            except IndexError:
                o = None
            if o is not None:
                c = o.cells.get(p & 0xffffffff)
                if c is not None and c[0] == sz and o.alive:
                    return c[1]
            o, off = getobj(p, sz, 'load')
            if o.kind == 'external' and off not in o.cells:
                raise EngineError('load of the external variable %s' % o.name)
            if o.kind == 'func':
                raise Violation('memory', 'load from function address')
            c = o.cells.get(off)
            if c is not None and c[0] == sz:
                return c[1]
            return assemble(o, off, sz)

        def cell_covering(o, off):
            for b in range(0, 16):
                c = o.cells.get(off - b)
                if c is not None:
                    if c[0] > b:
                        return off - b, c
                    return None
            return None

        def byte_at(o, off):
            c = cell_covering(o, off)
            if c is None:
                return UNDEF
            s, (sz, v) = c
            k = off - s
            if v is UNDEF:
                return UNDEF
            if v.__class__ is int:
                return (v >> (8 * k)) & 255
            if isinstance(v, z3.BitVecRef):
                return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
            b = fp_bits(v, sz)
            if b is None:
                raise EngineError('partial access to a symbolic floating-point value')
            return (b >> (8 * k)) & 255

        def fp_bits(v, sz):
            if v.__class__ is float:
                f = v
            elif v.__class__ is Node and v.op == 'c':
                f = float(v.a)
            elif isinstance(v, z3.FPRef):
                x = z3.simplify(z3.fpToIEEEBV(v))
                return x.as_long() if z3.is_bv_value(x) else None
            else:
                return None
            return int.from_bytes(struct.pack('<d' if sz == 8 else '<f', f), 'little')

        def assemble(o, off, sz):
            bs = [byte_at(o, off + i) for i in range(sz)]
            if all(b.__class__ is int for b in bs):
                return int.from_bytes(bytes(bs), 'little')
            if any(b is UNDEF for b in bs):
                return UNDEF
            bs = [z3.BitVecVal(b, 8) if b.__class__ is int else b for b in bs]
            return z3.simplify(z3.Concat(*reversed(bs))) if len(bs) > 1 else bs[0]

        def loadf(p, sz):
            v = load(p, sz)
            if v.__class__ is int:
                return rt.fp_from_bits(v, sz)
            if isinstance(v, z3.BitVecRef):
                raise EngineError('floating-point load of symbolic integer bits')
            return v

        def clear_range(o, off, sz):
            cells = o.cells
            # partial cell starting before
            for b in range(1, 16):
                c = cells.get(off - b)
                if c is not None:
                    if c[0] > b:
                        split(o, off - b)
                    break
            if sz > 4 * len(cells) + 16:
                for k in [k for k in cells if off <= k < off + sz]:
                    if k + cells[k][0] > off + sz:
                        split(o, k)
                for k in [k for k in cells if off <= k < off + sz]:
                    del cells[k]
                return
            i = off
            end = off + sz
            while i < end:
                c = cells.get(i)
                if c is None:
                    i += 1
                    continue
                if i + c[0] > end:
                    split(o, i)
                    c = cells[i]
                del cells[i]
                i += c[0]

        def split(o, k):
            sz, v = o.cells[k]
            bs = [byte_at(o, k + i) for i in range(sz)]
            del o.cells[k]
            for i, b in enumerate(bs):
                if b is not UNDEF:
                    o.cells[k + i] = (1, b)

        def store(p, sz, v):
            if p.__class__ is not int:
                p = norm_ptr(p)
            try:
                o = rt.objs[p >> 32]
            except IndexError:
                o = None
            off = p & 0xffffffff
            if o is not None:
                c = o.cells.get(off)
                if c is not None and c[0] == sz and o.alive and not o.ro:
                    o.cells[off] = (sz, v)
                    return
            o, off = getobj(p, sz, 'store')
            if o.ro or o.kind == 'func':
                raise Violation('memory', 'store to constant ' + o.name)
            clear_range(o, off, sz)
            o.cells[off] = (sz, v)

        def alloca(A, n, name):
            if n.__class__ is not int:
                n = rt.concretize(n, 'alloca size')
            o = Obj(n, 'stack', name)
            A.append(o)
            rt.objs.append(o)
            return (len(rt.objs) - 1) << 32

        def lifetime_start(n, p):
            o = rt.objs[p >> 32]
            o.alive = True
            o.cells = {}

        def lifetime_end(n, p):
            rt.objs[p >> 32].alive = False

        def length(n):
            if n.__class__ is not int:
                n = rt.concretize(n, 'length')
            return n

        def memcpy(d, s, n):
            n = length(n)
            if n == 0:
                return
            if d.__class__ is not int:
                d = norm_ptr(d)
            if s.__class__ is not int:
                s = norm_ptr(s)
            so, soff = getobj(s, n, 'read')
            do, doff = getobj(d, n, 'write')
            if do.ro:
                raise Violation('memory', 'write to constant')
            items = []
            cells = so.cells
            # boundary pieces
            for b in range(1, 16):
                c = cells.get(soff - b)
                if c is not None:
                    if c[0] > b:
                        for i in range(min(n, c[0] - b)):
                            items.append((i, (1, byte_at(so, soff + i))))
                    break
            if n > 4 * len(cells) + 16:
                src = [(k, cells[k]) for k in cells if soff <= k < soff + n]
            else:
                src = []
                i = soff
                e = soff + n
                while i < e:
                    c = cells.get(i)
                    if c is None:
                        i += 1
                    else:
                        src.append((i, c))
                        i += c[0]
            for k, c in src:
                if k + c[0] > soff + n:
                    for i in range(soff + n - k):
                        items.append((k - soff + i, (1, byte_at(so, k + i))))
                else:
                    items.append((k - soff, c))
            clear_range(do, doff, n)
            for k, c in items:
                if c[1] is not UNDEF:
                    do.cells[doff + k] = c

        def memset(d, v, n):
            n = length(n)
            if n == 0:
                return
            if d.__class__ is not int:
                d = norm_ptr(d)
            o, off = getobj(d, n, 'write')
            if o.ro:
                raise Violation('memory', 'write to constant')
            clear_range(o, off, n)
            if v is UNDEF:
                return
            if v.__class__ is not int:
                v = rt.concretize(v)
            v &= 255
            w8 = int.from_bytes(bytes([v]) * 8, 'little')
            i = off
            e = off + n
            while i < e:
                if e - i >= 8 and i % 8 == 0:
                    o.cells[i] = (8, w8)
                    i += 8
                elif e - i >= 4 and i % 4 == 0:
                    o.cells[i] = (4, w8 & 0xffffffff)
                    i += 4
                else:
                    o.cells[i] = (1, v)
                    i += 1

        rt.load, rt.store, rt.loadf, rt.memcpy_, rt.memset_, rt.getobj = load, store, loadf, memcpy, memset, getobj
        G.update(load=load, store=store, loadf=loadf, alloca=alloca, lifetime_start=lifetime_start,
                 lifetime_end=lifetime_end, memcpy=memcpy, memmove=memcpy, memset=memset)

        # -------------------------------------------------------------- integers
        def bv(v, w):
            if v.__class__ is int:
                return z3.BitVecVal(v, w)
            if v.__class__ is bool:
                return z3.BitVecVal(int(v), w)
            if isinstance(v, z3.BitVecRef):
                return v
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            raise EngineError('integer operation on %r' % (v,))

        def sx(v, w):
            return v - (1 << w) if v >> (w - 1) else v

        def und(*a):
            for x in a:
                if x is UNDEF:
                    return True
            return False

        def iudiv(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                if b == 0:
                    raise Violation('arith', 'integer division by zero')
                return a // b
            if und(a, b):
                return UNDEF
            if rt.cond(bv(b, w) == 0):
                raise Violation('arith', 'integer division by zero')
            return z3.simplify(z3.UDiv(bv(a, w), bv(b, w)))

        def iurem(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                if b == 0:
                    raise Violation('arith', 'integer division by zero')
                return a % b
            if und(a, b):
                return UNDEF
            if rt.cond(bv(b, w) == 0):
                raise Violation('arith', 'integer division by zero')
            return z3.simplify(z3.URem(bv(a, w), bv(b, w)))

        def isdiv(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                if b == 0:
                    raise Violation('arith', 'integer division by zero')
                x, y = sx(a, w), sx(b, w)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
            if und(a, b):
                return UNDEF
            return z3.simplify(bv(a, w) / bv(b, w))

        def isrem(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                if b == 0:
                    raise Violation('arith', 'integer division by zero')
                x, y = sx(a, w), sx(b, w)
                r = abs(x) % abs(y)
                return (r if x >= 0 else -r) & ((1 << w) - 1)
            if und(a, b):
                return UNDEF
            return z3.simplify(z3.SRem(bv(a, w), bv(b, w)))

        def ishl(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                return (a << b) & ((1 << w) - 1) if b < w else UNDEF
            if und(a, b):
                return UNDEF
            return z3.simplify(bv(a, w) << bv(b, w))

        def ilshr(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                return a >> b if b < w else UNDEF
            if und(a, b):
                return UNDEF
            return z3.simplify(z3.LShR(bv(a, w), bv(b, w)))

        def iashr(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                return (sx(a, w) >> b) & ((1 << w) - 1) if b < w else UNDEF
            if und(a, b):
                return UNDEF
            return z3.simplify(bv(a, w) >> bv(b, w))

        def icmp(pred, a, b, w):
            if und(a, b):
                return UNDEF
            x, y = bv(a, w), bv(b, w)
            r = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred)
            if r is not None:
                e = r(x, y)
            else:
                e = {'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                     'eq': lambda: x == y, 'ne': lambda: x != y}[pred]()
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return e

        def zb(x):
            if x.__class__ is bool:
                return z3.BoolVal(x)
            if x.__class__ is int:
                return z3.BoolVal(bool(x & 1))
            return x

        def fold(e):
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return e

        def icmp1(pred, a, b):
            if und(a, b):
                return UNDEF
            if a.__class__ in (bool, int) and b.__class__ in (bool, int):
                if pred == 'eq':
                    return bool(a) == bool(b)
                if pred == 'ne':
                    return bool(a) != bool(b)
                x, y = bool(a), bool(b)
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x > y, 'sle': x >= y,
                        'sgt': x < y, 'sge': x <= y}[pred]
            if pred == 'eq':
                return fold(zb(a) == zb(b))
            if pred == 'ne':
                return fold(zb(a) != zb(b))
            raise EngineError('icmp i1 ' + pred)

        def bool1(op, a, b):
            if a.__class__ is bool and b.__class__ is bool:
                return (a and b) if op == 'and' else (a or b) if op == 'or' else (a != b) if op in ('xor', 'add', 'sub') else (a and b)
            if op == 'and' and (a is False or b is False):
                return False
            if op == 'or' and (a is True or b is True):
                return True
            if und(a, b):
                return UNDEF
            if op in ('and', 'mul'):
                return fold(z3.And(zb(a), zb(b)))
            if op == 'or':
                return fold(z3.Or(zb(a), zb(b)))
            return fold(z3.Xor(zb(a), zb(b)))

        def itrunc1(a):
            if a.__class__ is int:
                return bool(a & 1)
            if a.__class__ is bool or a is UNDEF or isinstance(a, z3.BoolRef):
                return a
            return fold(z3.Extract(0, 0, a) == 1)

        def izext1(a, w):
            if a.__class__ is bool or a.__class__ is int:
                return int(a)
            if a is UNDEF:
                return UNDEF
            return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

        def itrunc(a, w, d):
            if a is UNDEF:
                return UNDEF
            if a.__class__ is int:
                return a & ((1 << d) - 1)
            return z3.simplify(z3.Extract(d - 1, 0, bv(a, w)))

        def izext(a, w, d):
            if a is UNDEF or a.__class__ is int:
                return a
            return z3.simplify(z3.ZeroExt(d - w, bv(a, w)))

        def isext(a, w, d):
            if a.__class__ is int:
                return sx(a, w) & ((1 << d) - 1)
            if a.__class__ is bool:
                return ((1 << d) - 1) if a else 0
            if a is UNDEF:
                return a
            if isinstance(a, z3.BoolRef):
                return z3.If(a, z3.BitVecVal(-1, d), z3.BitVecVal(0, d))
            return z3.simplify(z3.SignExt(d - w, a))

        def minmax(op, a, b, w):
            s = op[0] == 's'
            if a.__class__ is int and b.__class__ is int:
                x, y = (sx(a, w), sx(b, w)) if s else (a, b)
                lt = x < y
                return (a if lt else b) if op[1:] == 'min' else (b if lt else a)
            if und(a, b):
                return UNDEF
            x, y = bv(a, w), bv(b, w)
            lt = x < y if s else z3.ULT(x, y)
            return z3.simplify(z3.If(lt, x, y) if op[1:] == 'min' else z3.If(lt, y, x))

        def satop(op, a, b, w):
            if a.__class__ is int and b.__class__ is int:
                m = (1 << w) - 1
                if op == 'usub':
                    return max(0, a - b)
                if op == 'uadd':
                    return min(m, a + b)
            raise EngineError('saturating op on symbolic values')

        def ovop(op, a, b, w):
            if und(a, b):
                return (UNDEF, UNDEF)
            if a.__class__ is not int or b.__class__ is not int:
                x, y = bv(a, w), bv(b, w)
                if op == 'uadd':
                    return (x + y, fold(z3.Not(z3.BVAddNoOverflow(x, y, False))))
                if op == 'usub':
                    return (x - y, fold(z3.ULT(x, y)))
                if op == 'umul':
                    return (x * y, fold(z3.Not(z3.BVMulNoOverflow(x, y, False))))
                raise EngineError('overflow op')
            m = (1 << w) - 1
            if op[0] == 's':
                a, b = sx(a, w), sx(b, w)
            r = a + b if op[1:] == 'add' else a - b if op[1:] == 'sub' else a * b
            ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if op[0] == 's' else not (0 <= r <= m)
            return (r & m, ov)

        def bitop(op, a, w):
            if a is UNDEF:
                return UNDEF
            if a.__class__ is not int:
                bit = lambda i: z3.Extract(i, i, a) == 1
                n = z3.BitVecVal(w if op != 'ctpop' else 0, w)
                if op == 'ctlz':
                    for i in range(w):
                        n = z3.If(bit(i), z3.BitVecVal(w - 1 - i, w), n)
                elif op == 'cttz':
                    for i in range(w - 1, -1, -1):
                        n = z3.If(bit(i), z3.BitVecVal(i, w), n)
                elif op == 'ctpop':
                    for i in range(w):
                        n = n + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
                else:
                    n = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])
                return z3.simplify(n)
            if op == 'ctlz':
                return w - a.bit_length()
            if op == 'cttz':
                return w if a == 0 else (a & -a).bit_length() - 1
            if op == 'ctpop':
                return bin(a).count('1')
            return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')

        def iabs(a, w):
            if a.__class__ is int:
                return abs(sx(a, w)) & ((1 << w) - 1)
            if a is UNDEF:
                return a
            return z3.simplify(z3.If(a < 0, -a, a))

        def fshl(a, b, c, w):
            if a.__class__ is int and b.__class__ is int and c.__class__ is int:
                c %= w
                return ((((a << w) | b) << c) >> w) & ((1 << w) - 1)
            raise EngineError('fshl')

        def select(c, a, b):
            if c is True:
                return a
            if c is False:
                return b
            if c is UNDEF:
                if a is b:
                    return a
                return UNDEF
            if isinstance(c, tuple):
                raise EngineError('vector select')
            if isinstance(a, (z3.BoolRef, bool)) and isinstance(b, (z3.BoolRef, bool)):
                return fold(z3.If(c, zb(a), zb(b)))
            if a.__class__ is int and b.__class__ is int and a == b:
                return a
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
                if a is not UNDEF and b is not UNDEF:
                    w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
                    return z3.simplify(z3.If(c, bv(a, w), bv(b, w)))
            return a if rt.cond(c) else b

        def swval(c, cases, w):
            if c.__class__ is int:
                return c
            if c.__class__ is bool:
                return int(c)
            if c is UNDEF:
                raise Violation('uninit', 'switch on an uninitialised value')
            if isinstance(c, z3.BoolRef):
                return 1 if rt.cond(c) else 0
            for k in cases:
                if rt.cond(c == k):
                    return k
            return -1

        def insval(agg, v, ix):
            if agg is UNDEF:
                raise EngineError('insertvalue into untyped undef')
            lst = list(agg)
            if len(ix) == 1:
                lst[ix[0]] = v
            else:
                lst[ix[0]] = insval(lst[ix[0]], v, ix[1:])
            return tuple(lst)

        def shuffle(a, b, m):
            ab = list(a) + list(b)
            return tuple(ab[i] if i.__class__ is int else UNDEF for i in m)

        G.update(iudiv=iudiv, iurem=iurem, isdiv=isdiv, isrem=isrem, ishl=ishl, ilshr=ilshr, iashr=iashr, icmp=icmp,
                 icmp1=icmp1, bool1=bool1, itrunc1=itrunc1, izext1=izext1, itrunc=itrunc, izext=izext, isext=isext,
                 minmax=minmax, satop=satop, ovop=ovop, bitop=bitop, iabs=iabs, fshl=fshl, select=select, swval=swval,
                 insval=insval, shuffle=shuffle, cond=self.cond)

        # -------------------------------------------------------------- control
        def landingpad(cleanup, clauses):
            e = rt.exc
            for k, ti in clauses:
                if k == 'filter':
                    raise Violation('abort', 'exception escapes a dynamic exception specification')
                if ti == 0 or rt.ti_matches(e.tinfo, ti):
                    return (e.ptr, rt.typeid(ti))
            if cleanup:
                return (e.ptr, 0)
            raise e

        def resume(v):
            raise rt.exc_of(v[0])

        def unreachable():
            raise Violation('ub', 'control reaches an unreachable point')

        def trap():
            raise Violation('abort', 'trap')

        def icall(p, *args):
            if p.__class__ is not int:
                p = norm_ptr(p)
            g = rt.addrg.get(p)
            if g is None:
                raise Violation('memory', 'call through an invalid function pointer')
            return G[rt.gen.fname(g)](*args)

        G.update(landingpad=landingpad, resume=resume, unreachable=unreachable, trap=trap, icall=icall,
                 typeid_for=lambda ti: rt.typeid(ti))

        def atomicrmw(k, p, v, sz, tk):
            old = load(p, sz)
            if k == 'add':
                new = (old + v) & ((1 << 8 * sz) - 1)
            elif k == 'sub':
                new = (old - v) & ((1 << 8 * sz) - 1)
            elif k == 'xchg':
                new = v
            elif k == 'fadd':
                old = loadf(p, sz)
                new = G['fadd'](old, v)
            else:
                raise EngineError('atomicrmw ' + k)
            store(p, sz, new)
            return old

        def cmpxchg(p, c, v, sz):
            old = load(p, sz)
            same = rt.cond(old == c) if old is not c else True
            if same:
                store(p, sz, v)
            return (old, same)
        G.update(atomicrmw=atomicrmw, cmpxchg=cmpxchg)

        if self.mode == 'real':
            self.bind_real(G)
        else:
            self.bind_ieee(G)

    # ------------------------------------------------------------------ real domain
    def fp_const(self, v, k):
        if self.mode == 'ieee':
            sort = z3.Float64() if k == 'double' else z3.Float32()
            return z3.FPVal(float(v), sort) if v == v else z3.fpNaN(sort)
        if type(v) is float:
            if v == 0:
                return self.ctx.ZERO if hasattr(self, 'ctx') else None
            return v
        return self.ctx.const(v) if hasattr(self, 'ctx') else None

    def fp_from_bits(self, b, sz):
        if self.mode == 'ieee':
            sort = z3.Float64() if sz == 8 else z3.Float32()
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, 8 * sz), sort))
        f = struct.unpack('<d' if sz == 8 else '<f', b.to_bytes(sz, 'little'))[0]
        if f != f or f in (INF, -INF):
            return f
        return self.ctx.const(Fraction(f))

    def bind_real(self, G):
        rt = self

        def lift(v):
            # operand that is not a Node: special float, UNDEF or bits
            if v.__class__ is float or v is UNDEF:
                return v
            if v.__class__ is int:
                raise EngineError('integer bits used as floating-point')
            raise EngineError('floating-point operand %r' % (v,))

        def sgn(v):
            """sign of finite node or inf as -1,0,1"""
            if v.__class__ is float:
                return 1 if v > 0 else -1
            return {'+': 1, '-': -1, '0': 0}[rt.sign(v)]

        def fadd(a, b):
            if a.__class__ is Node and b.__class__ is Node:
                return rt.ctx.add(a, b)
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if a.__class__ is Node:
                return lift(b)
            if b.__class__ is Node:
                return lift(a)
            return lift(a) + lift(b)

        def fneg(a):
            if a.__class__ is Node:
                return rt.ctx.neg(a)
            if a is UNDEF:
                return a
            return -lift(a)

        def fsub(a, b):
            if a.__class__ is Node and b.__class__ is Node:
                return rt.ctx.sub(a, b)
            return fadd(a, fneg(b))

        def fmul(a, b):
            if a.__class__ is Node and b.__class__ is Node:
                return rt.ctx.mul(a, b)
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if a.__class__ is float and a != a or b.__class__ is float and b != b:
                return NAN
            s = sgn(a) * sgn(b)
            return INF if s > 0 else -INF if s < 0 else NAN

        def fdiv(a, b):
            if b.__class__ is Node:
                if a.__class__ is Node:
                    if b.op == 'c' and b.a != 0:
                        return rt.ctx.div(a, b)
                    s = rt.ctx.sign_node(b)
                    if s not in ('+', '-', '!', '0'):
                        s = '!' if rt.rfork(b, '!=', '==') else '0'
                    if s != '0':
                        return rt.ctx.div(a, b)
                    t = sgn(a)
                    return INF if t > 0 else -INF if t < 0 else NAN
                if a is UNDEF:
                    return a
                if a != a:
                    return a
                s = sgn(b)
                return a if s >= 0 else -a
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if b != b:
                return b
            if a.__class__ is Node:
                return rt.ctx.ZERO
            return NAN

        def fsqrt(a):
            if a.__class__ is Node:
                if a.op == 'c':
                    if a.a < 0:
                        return NAN
                    return rt.ctx.sqrt(a)
                s = rt.ctx.sign_node(a)
                if s not in ('+', '0+', '0', '-'):
                    s = '0+' if rt.rfork(a, '>=', '<') else '-'
                if s == '-':
                    return NAN
                if s == '0':
                    return rt.ctx.ZERO
                r = rt.ctx.sqrt(a)
                return r
            if a is UNDEF:
                return a
            return a if a > 0 else NAN

        def fcmp(pred, a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if pred in ('true', 'false'):
                return pred == 'true'
            if a.__class__ is Node and b.__class__ is Node:
                if pred == 'ord':
                    return True
                if pred == 'uno':
                    return False
                p = pred[1:]
                if a is b:
                    return p in ('eq', 'le', 'ge')
                d = rt.ctx.sub(a, b)
                s = rt.ctx.sign_node(d)
                tbl = {'eq': ({'0'}, {'+', '-', '!'}), 'ne': ({'+', '-', '!'}, {'0'}),
                       'lt': ({'-'}, {'+', '0', '0+'}), 'le': ({'-', '0', '0-'}, {'+'}),
                       'gt': ({'+'}, {'-', '0', '0-'}), 'ge': ({'+', '0', '0+'}, {'-'})}[p]
                if s in tbl[0]:
                    return True
                if s in tbl[1]:
                    return False
                rel = {'eq': ('==', '!='), 'ne': ('!=', '=='), 'lt': ('<', '>='), 'le': ('<=', '>'),
                       'gt': ('>', '<='), 'ge': ('>=', '<')}[p]
                return rt.rfork(d, rel[0], rel[1])
            # at least one special
            x = a if a.__class__ is float else 0.0 if a.__class__ is Node else lift(a)
            y = b if b.__class__ is float else 0.0 if b.__class__ is Node else lift(b)
            un = x != x or y != y
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if un:
                return pred[0] == 'u'
            p = pred[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]

        def fabs_(a):
            if a.__class__ is Node:
                s = rt.ctx.sign_node(a)
                if s in ('+', '0+', '0'):
                    return a
                if s in ('-', '0-'):
                    return rt.ctx.neg(a)
                return a if rt.rfork(a, '>=', '<') else rt.ctx.neg(a)
            if a is UNDEF:
                return a
            return abs(a)

        def fpow(a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if b.__class__ is Node and b.op == 'c':
                e = Fraction(b.a)
                if e.denominator == 1 and abs(e) <= 64:
                    return fpowi(a, int(e))
                if e == Fraction(1, 2):
                    return fsqrt(a)
            raise EngineError('pow with a non-constant exponent')

        def fpowi(a, n):
            if n.__class__ is not int:
                raise EngineError('powi')
            if n >> 31 and n > 0:
                n -= 1 << 32
            r = rt.ctx.ONE
            for _ in range(abs(n)):
                r = fmul(r, a) if r is not rt.ctx.ONE else a
            if n < 0:
                r = fdiv(rt.ctx.ONE, r)
            return r

        def fminmax(op, a, b):
            lt = fcmp('olt', a, b)
            return (a if lt else b) if op.startswith('min') else (b if lt else a)

        def fptrunc(a):
            if a.__class__ is Node:
                if a.op == 'c':
                    f = struct.unpack('<f', struct.pack('<f', float(a.a)))[0]
                    if f != f or f in (INF, -INF):
                        return f
                    return rt.ctx.const(Fraction(f)) if not rt.flags.get('float') else a
                if rt.flags.get('float'):
                    return a
                # a double narrowed to float in double-precision code: value perturbed by a relative
                # rounding error of unknown sign and size <= 2^-24
                rt.eps_count += 1
                e = rt.new_real('round%d' % rt.eps_count, internal=True)
                return rt.ctx.mul(a, rt.ctx.add(rt.ctx.ONE, e))
            return a

        def toint(a, w, signed):
            if a is UNDEF:
                return UNDEF
            if a.__class__ is Node:
                if a.op == 'c':
                    v = int(Fraction(a.a))
                else:
                    try:
                        x = alg.evaluate(a, [], {})
                    except IndexError:
                        raise EngineError('conversion of a symbolic real to an integer')
                    v = int(x)
                return v & ((1 << w) - 1)
            raise Violation('ub', 'conversion of NaN/Inf to an integer')

        def fromint(a, w, signed):
            if a is UNDEF:
                return UNDEF
            if a.__class__ is bool:
                return rt.ctx.const(int(a))
            if a.__class__ is not int:
                a = rt.concretize(a)
            if signed and a >> (w - 1):
                a -= 1 << w
            return rt.ctx.const(a)

        def fmuladd(a, b, c):
            return fadd(fmul(a, b), c)

        def fcopysign(a, b):
            m = fabs_(a)
            neg = fcmp('olt', b, rt.ctx.ZERO)
            return fneg(m) if neg else m

        def bitcast(a, s, d):
            if a.__class__ is int and d in ('double', 'float'):
                return rt.fp_from_bits(a, 8 if d == 'double' else 4)
            if a.__class__ is Node and a.op == 'c' and s in ('double', 'float'):
                f = float(Fraction(a.a))
                if Fraction(f) == Fraction(a.a):
                    return int.from_bytes(struct.pack('<d' if s == 'double' else '<f', f), 'little')
            return a

        def frem(a, b):
            if a.__class__ is Node and b.__class__ is Node and a.op == 'c' and b.op == 'c' and b.a != 0:
                x, y = Fraction(a.a), Fraction(b.a)
                q = abs(x) // abs(y)
                r = abs(x) - q * abs(y)
                return rt.ctx.const(r if x >= 0 else -r)
            raise EngineError('fmod of symbolic values')

        def fround_(op, a):
            if a.__class__ is Node and a.op == 'c':
                f = Fraction(a.a)
                return rt.ctx.const({'floor': math.floor(f), 'ceil': math.ceil(f), 'trunc': int(f),
                                     'round': math.floor(f + Fraction(1, 2)) if f >= 0 else -math.floor(-f + Fraction(1, 2)),
                                     'rint': round(f), 'nearbyint': round(f)}[op])
            if a.__class__ is float or a is UNDEF:
                return a
            try:
                x = float(alg.evaluate(a, [], {}))      # a constant with radicals
            except IndexError:
                raise EngineError('rounding a symbolic real')
            if abs(x * 2 - round(x * 2)) < 1e-9 * max(1, abs(x)):
                raise EngineError('rounding a constant too close to a boundary')
            return fround_(op, rt.ctx.const(Fraction(x)))

        def fpclass(a, mask):
            # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -zero 6 +zero 7 +sub 8 +normal 9 +inf
            if a is UNDEF:
                return UNDEF
            if a.__class__ is float:
                k = 3 if a != a else (1 << 9) if a > 0 else (1 << 2)
                return bool(mask & k)
            neg, zero, pos = mask & 0b11000, mask & 0b1100000, mask & 0b110000000
            if not (neg or zero or pos):
                return False
            if neg and zero and pos:
                return True
            s = rt.sign(a)
            return bool(neg if s == '-' else pos if s == '+' else zero)

        rt.fadd, rt.fsub, rt.fmul, rt.fdiv, rt.fneg = fadd, fsub, fmul, fdiv, fneg
        rt.fsqrt, rt.fabs = fsqrt, fabs_
        rt.fcmp = fcmp
        G.update(fadd=fadd, fsub=fsub, fmul=fmul, fdiv=fdiv, fneg=fneg, fsqrt=fsqrt, fcmp=fcmp, fabs_=fabs_, fpow=fpow,
                 fpowi=fpowi, fminmax=fminmax, fptrunc=fptrunc, fpext=lambda a: a, fmuladd=fmuladd, fpclass=fpclass,
                 fptoui=lambda a, w: toint(a, w, False), fptosi=lambda a, w: toint(a, w, True),
                 uitofp=lambda a, w, k: fromint(a, w, False), sitofp=lambda a, w, k: fromint(a, w, True),
                 fcopysign=fcopysign, bitcast=bitcast, frem=frem, fround_=fround_)

    def new_real(self, name, internal=False):
        n = self.ctx.var(name)
        self.wit.append(self.rand_real(3))
        if not internal:
            self.inputs.append(('r', n.a, name))
        else:
            self.wit[-1] = Fraction(1, 1 << 25)
            self.eps_vars.add(n.a)
            self.rpc.append(('<=', self.ctx.sub(n, self.ctx.const(Fraction(1, 1 << 24)))))
            self.rpc.append(('>=', self.ctx.add(n, self.ctx.const(Fraction(1, 1 << 24)))))
        return n

    # ------------------------------------------------------------------ IEEE domain
    def bind_ieee(self, G):
        rt = self
        RM = z3.RNE()

        def comm(op):
            def f(a, b):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                if a.get_id() > b.get_id():
                    a, b = b, a
                return op(RM, a, b)
            return f

        def nc(op):
            def f(a, b):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                return op(RM, a, b)
            return f

        def un(op):
            return lambda a: a if a is UNDEF else op(a)

        def fcmp(pred, a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if pred in ('true', 'false'):
                return pred == 'true'
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if pred == 'uno':
                return nan
            if pred == 'ord':
                return z3.Not(nan)
            e = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](a, b)
            if pred[0] == 'u':
                return z3.Or(nan, e)
            return z3.And(z3.Not(nan), e)

        def bad(*a):
            raise EngineError('operation not modelled in IEEE mode')

        def fromint(a, w, k, signed):
            so = z3.Float64() if k == 'double' else z3.Float32()
            if a is UNDEF:
                return a
            if a.__class__ is bool:
                a = int(a)
            if a.__class__ is int:
                if signed and a >> (w - 1):
                    a -= 1 << w
                return z3.fpRealToFP(RM, z3.RealVal(a), so) if abs(a) >> 53 or k != 'double' else z3.FPVal(float(a), so)
            if z3.is_bool(a):
                return z3.If(a, z3.FPVal(-1.0 if signed else 1.0, so), z3.FPVal(0.0, so))
            if z3.is_bv(a):
                return z3.fpSignedToFP(RM, a, so) if signed else z3.fpUnsignedToFP(RM, a, so)
            return bad()

        def fminmax(op, a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            m = z3.fpMin(a, b) if op.startswith('min') else z3.fpMax(a, b)
            return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, m))

        def fcopysign(a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            m = z3.fpAbs(a)
            return z3.If(z3.fpIsNegative(b), z3.fpNeg(m), m)

        def fpclass(a, mask):
            if a is UNDEF:
                return UNDEF
            ng, ps = z3.fpIsNegative(a), z3.fpIsPositive(a)
            t = []
            if bool(mask & 1) != bool(mask & 2):
                return bad()
            if mask & 3:
                t.append(z3.fpIsNaN(a))
            for i, f in ((2, z3.fpIsInf), (3, z3.fpIsNormal), (4, z3.fpIsSubnormal), (5, z3.fpIsZero)):
                if mask >> i & 1:
                    t.append(z3.And(ng, f(a)))
                if mask >> (11 - i) & 1:
                    t.append(z3.And(ps, f(a)))
            return z3.Or(*t) if t else False

        def bitcast(a, s, d):
            if a is UNDEF:
                return a
            if z3.is_fp(a) and d not in ('double', 'float', 'ptr'):
                return z3.fpToIEEEBV(a)
            if d in ('double', 'float'):
                so, n = (z3.Float64(), 64) if d == 'double' else (z3.Float32(), 32)
                if a.__class__ is int:
                    return z3.fpBVToFP(z3.BitVecVal(a, n), so)
                if z3.is_bv(a):
                    return z3.fpBVToFP(a, so)
            return a

        def fround_(op, a):
            if a is UNDEF:
                return UNDEF
            m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': RM, 'nearbyint': RM}
            return z3.fpRoundToIntegral(m[op], a) if op in m else bad()
        fadd, fmul = comm(z3.fpAdd), comm(z3.fpMul)
        G.update(fadd=fadd, fsub=nc(z3.fpSub), fmul=fmul, fdiv=nc(z3.fpDiv), fneg=un(z3.fpNeg),
                 fsqrt=lambda a: z3.fpSqrt(RM, a), fcmp=fcmp, fabs_=un(z3.fpAbs), fpow=bad, fpowi=bad, fminmax=fminmax,
                 fptrunc=lambda a: a if a is UNDEF else z3.fpFPToFP(RM, a, z3.Float32()),
                 fpext=lambda a: a if a is UNDEF else z3.fpFPToFP(RM, a, z3.Float64()),
                 fmuladd=lambda a, b, c: fadd(fmul(a, b), c), fpclass=fpclass,
                 fptoui=bad, fptosi=bad, uitofp=lambda a, w, k: fromint(a, w, k, False),
                 sitofp=lambda a, w, k: fromint(a, w, k, True), fcopysign=fcopysign,
                 bitcast=bitcast, frem=bad, fround_=fround_)

    # ------------------------------------------------------------------ exceptions
    def typeid(self, ti):
        return 0x7fffffff if ti == 0 else (ti >> 32)

    def ti_name(self, ti):
        return self.addrg.get(ti, '?')

    def ti_base(self, g):
        b = STD_BASES.get(g)
        if b:
            return b
        gl = self.mod.globals.get(g)
        if gl is not None and gl.init is not None and gl.init[0] == 'agg' and len(gl.init[2]) >= 3:
            x = gl.init[2][2][1]
            if x[0] == 'glob':
                return x[1]
        return None

    def ti_matches(self, thrown, want):
        g, w = self.ti_name(thrown), self.ti_name(want)
        while g is not None:
            if g == w:
                return True
            g = self.ti_base(g)
        return False

    def exc_of(self, ptr):
        for e in reversed(self.excs):
            if e.ptr == ptr:
                self.exc = e
                return e
        raise EngineError('resume of unknown exception')

    excs = ()

    def throw_std(self, tname, msg=''):
        ti = self.global_addr(tname)
        o = Obj(16, 'exception', tname)
        self.objs.append(o)
        e = CxxThrow((len(self.objs) - 1) << 32, ti)
        e.msg = msg
        self.excs.append(e)
        raise e

    # ------------------------------------------------------------------ externals
    OVERRIDE_PREFIX = ('_ZNSt7__cxx119to_stringE', '_ZNSt9to_stringE')

    def override(self, name):
        import externs
        return externs.override(self, name)

    def extern(self, name):
        import externs
        return externs.extern(self, name)

    # ------------------------------------------------------------------ run one path
    def run(self, entry, prefix, seed):
        """execute entry along prefix; returns a result dict"""
        self.reset(prefix, seed)
        self.excs = []
        fn = '@' + entry
        if fn not in self.mod.functions:
            raise EngineError('no such harness ' + entry)
        status = 'ok'
        try:
            self.G[self.gen.fname(fn)]()
            self.flush_checks()
            while self.at_exit:
                fn, arg = self.at_exit.pop()
                self.G['icall'](fn, arg)
            leaked = [o for o in self.heap_live.values() if o.alive]
            if leaked and not self.flags.get('leak_ok'):
                self.failed.append(('leak', 'heap object of %d bytes never freed' % leaked[0].size, None))
        except PathEnd as e:
            self.try_flush()
            status = 'pruned' if str(e) != 'exit' else 'ok'
        except Violation as e:
            self.try_flush()
            self.failed.append((e.kind, e.msg, None))
        except CxxThrow as e:
            self.try_flush()
            self.failed.append(('abort', 'exception %s escapes the harness' % self.ti_name(e.tinfo), None))
        except RecursionError:
            self.failed.append(('abort', 'unbounded recursion', None))
        return status

    def try_flush(self):
        try:
            self.flush_checks()
        except PathEnd:
            pass

    # ------------------------------------------------------------------ concrete inputs of this path
    def concrete_inputs(self, wit=None):
        """assignment for all inputs of the path (call order) or None"""
        m = None
        if self.ipc or any(i[0] in ('u', 'f') for i in self.inputs):
            if not self.icheck():
                return None
            m = self.isolv().model()
        if wit is None:
            if self.mode == 'real':
                self.refresh_witness(60)
            wit = self.wit
        return self.inputs_from(m, wit)

    def inputs_from(self, m, wit):
        out = []
        for k, v, name in self.inputs:
            if k == 'r':
                out.append(('r', float(wit[v])))
            elif k == 'u':
                x = m.eval(v, model_completion=True).as_long() if m is not None else 0
                out.append(('u', x))
            elif k == 'c':
                out.append(('u', v))
            elif k == 'f':
                b = z3.simplify(m.eval(v[0], model_completion=True)) if m is not None else z3.BitVecVal(0, v[1])
                out.append(('b', b.as_long(), v[1]))
        return out


RELSIGN = {'<': '-', '<=': '0-', '==': '0', '!=': '!', '>': '+', '>=': '0+'}


def rel_ok(rel, v):
    if isinstance(v, float):
        if v != v:
            return False
        if rel in ('==',):
            return abs(v) < 1e-12
        if rel == '!=':
            return abs(v) > 1e-9
        if rel in ('<', '>'):
            return (v < -1e-9) if rel == '<' else (v > 1e-9)
    return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0}[rel]


def z3_to_frac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def sval(a):
    if a.__class__ is float:
        return repr(a)
    return 'finite'


def has_div(n, memo):
    st = [n]
    while st:
        x = st.pop()
        if x.id in memo:
            continue
        memo[x.id] = 1
        if x.op in ('/', 'sqrt'):
            return True
        if x.op not in 'cv':
            st.append(x.a)
            if x.b is not None:
                st.append(x.b)
    return False
