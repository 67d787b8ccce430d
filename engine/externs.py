"""Models of everything outside the translated module: the harness API (vf_*), the C++ run-time support
(allocation, exceptions), libm entry points and the OpenMP runtime entry points."""
from fractions import Fraction
import z3
import rt as R
from rt import UNDEF, Violation, PathEnd, CxxThrow, EngineError, Obj, Node


def put_string(rt, p):
    rt.store(p, 8, p + 16)
    rt.store(p + 8, 8, 0)
    rt.store(p + 16, 1, 0)


def override(rt, name):
    """functions that exist in the module but are replaced: only message formatting"""
    if name.startswith('_ZNSt7__cxx119to_stringE'):
        def f(p, v):
            put_string(rt, p)
        return f
    if name.startswith('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_string'):
        def f(p, *a):
            put_string(rt, p)
        return f
    if name.startswith('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC') and 'PKc' in name:
        # basic_string(const char*, alloc): exception texts only
        def f(p, *a):
            put_string(rt, p)
        return f
    # texts of exceptions and diagnostics: streams and formatting do nothing
    if 'basic_ostringstream' in name or 'basic_stringstream' in name:
        if name.startswith('_ZNSt7__cxx11') and ('C1E' in name or 'C2E' in name or 'D1E' in name or 'D2E' in name):
            return lambda *a: None
        if name.startswith('_ZNKSt7__cxx11') and '3strE' in name or name.startswith('_ZNKRSt7__cxx11') and '3strE' in name \
                or name.startswith('_ZNOSt7__cxx11') and '3strE' in name:
            def f(p, *a):
                put_string(rt, p)
            return f
    if name.startswith('_ZNSolsE') or name.startswith('_ZStls') or name.startswith('_ZSt16__ostream_insert') or \
            name.startswith('_ZNSo5write') or name.startswith('_ZNSo3put') or name.startswith('_ZNSo5flush') or \
            name.startswith('_ZNSo9_M_insert') or name.startswith('_ZSt4endl') or name.startswith('_ZSt5flush'):
        return lambda p, *a: p
    if name.startswith('_ZSt6formatIJ') or name.startswith('_ZSt7vformat'):
        def f(p, *a):
            put_string(rt, p)
        return f
    return None


def bool_of(rt, c):
    if c.__class__ is int:
        return bool(c)
    return c


def extern(rt, name):
    f = TABLE.get(name)
    if f is not None:
        return f(rt)
    f = override(rt, name)
    if f is not None:
        return f
    if name.startswith('_ZN') and ('C1E' in name or 'C2E' in name) and name.startswith('_ZNSt'):
        return lambda *a: None          # std exception constructors
    if name.startswith('_ZNSt') and (name.endswith('D1Ev') or name.endswith('D2Ev') or name.endswith('D0Ev')):
        return lambda *a: None
    if name.startswith('_ZNKSt') and name.endswith('4whatEv'):
        return lambda p: empty_cstr(rt)
    if name.startswith('_ZSt') and '__throw_' in name:
        for k, t in THROWS:
            if k in name:
                return lambda *a, t=t: rt.throw_std(t)
    import omp
    return omp.extern(rt, name)


THROWS = [('length_error', '@_ZTISt12length_error'), ('bad_array_new_length', '@_ZTISt20bad_array_new_length'),
          ('bad_alloc', '@_ZTISt9bad_alloc'), ('logic_error', '@_ZTISt11logic_error'),
          ('out_of_range', '@_ZTISt12out_of_range'), ('invalid_argument', '@_ZTISt16invalid_argument'),
          ('domain_error', '@_ZTISt12domain_error'), ('runtime_error', '@_ZTISt13runtime_error'),
          ('range_error', '@_ZTISt11range_error'), ('overflow_error', '@_ZTISt14overflow_error'),
          ('bad_function_call', '@_ZTISt17bad_function_call'), ('bad_cast', '@_ZTISt8bad_cast'),
          ('bad_optional_access', '@_ZTISt19bad_optional_access')]


def empty_cstr(rt):
    o = Obj(1, 'const', 'what')
    o.cells[0] = (1, 0)
    rt.objs.append(o)
    return (len(rt.objs) - 1) << 32


TABLE = {}


def ext(*names):
    def d(mk):
        for n in names:
            TABLE[n] = mk
        return mk
    return d


# ---------------------------------------------------------------------- harness API
def in_real(rt, k):
    def f(name):
        nm = rt.cstring(name)
        if rt.mode == 'real':
            return rt.new_real(nm)
        w = 64 if k == 'double' else 32
        b = z3.BitVec('f%d' % len(rt.inputs), w)
        rt.inputs.append(('f', (b, w), nm))
        return z3.fpBVToFP(b, z3.Float64() if w == 64 else z3.Float32())
    return f


TABLE['vf_real'] = lambda rt: in_real(rt, 'double')
TABLE['vf_realf'] = lambda rt: in_real(rt, 'float')


@ext('vf_u64')
def _(rt):
    def f(name, lo, hi):
        v = z3.BitVec('u%d' % len(rt.inputs), 64)
        rt.inputs.append(('u', v, rt.cstring(name)))
        rt.iadd(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        return v
    return f


@ext('vf_choose')
def _(rt):
    def f(name, lo, hi):
        lo, hi = rt.concretize(lo), rt.concretize(hi)
        if lo > hi:
            raise PathEnd('empty choice')
        v, _ = rt.decide(lambda: list(range(lo, hi + 1)))
        rt.inputs.append(('c', v, rt.cstring(name)))
        return v
    return f


@ext('vf_concretize')
def _(rt):
    return lambda v: rt.concretize(v)


@ext('vf_assume')
def _(rt):
    def f(c):
        c = bool_of(rt, c)
        if c is UNDEF:
            raise Violation('uninit', 'assumption over an uninitialised value')
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c) or not rt.icheck(c):
            raise PathEnd('assume')
        rt.iadd(c)
    return f


def assume_rel(rel):
    def mk(rt):
        def f(x):
            if rt.mode != 'real':
                return
            if x.__class__ is not Node:
                raise PathEnd('assume')
            s = rt.ctx.sign_node(x)
            ok = {'>': ('+',), '!=': ('+', '-', '!'), '>=': ('+', '0+', '0')}[rel]
            bad = {'>': ('-', '0', '0-'), '!=': ('0',), '>=': ('-',)}[rel]
            if s in ok:
                return
            if s in bad:
                raise PathEnd('assume')
            rt.assume_rel(rel, x)
            rt.wit_ok = False
        return f
    return mk


TABLE['vf_assume_pos'] = TABLE['vf_assume_posf'] = assume_rel('>')
TABLE['vf_assume_nz'] = TABLE['vf_assume_nzf'] = assume_rel('!=')
TABLE['vf_assume_nonneg'] = assume_rel('>=')


@ext('vf_check')
def _(rt):
    def f(c, msg):
        rt.stats['obligations'] += 1
        c = bool_of(rt, c)
        m = rt.cstring(msg)
        if c is UNDEF:
            raise Violation('uninit', m + ': depends on an uninitialised value')
        if not (c if c.__class__ is bool else rt.cond(c)):
            raise Violation('value', m)
    return f


@ext('vf_check_u64')
def _(rt):
    def f(a, b, msg):
        rt.stats['obligations'] += 1
        m = rt.cstring(msg)
        if a is UNDEF or b is UNDEF:
            raise Violation('uninit', m + ': uninitialised integer')
        if a.__class__ is int and b.__class__ is int:
            if a != b:
                raise Violation('value', '%s: %d vs %d' % (m, a, b))
            return
        if not rt.cond(a == b):
            raise Violation('value', m)
    return f


def check_eq(rt):
    def f(a, b, msg):
        if rt.mode == 'real':
            rt.checks.append((a, b, rt.cstring(msg)))
            if len(rt.checks) >= 400:
                rt.flush_checks()
        else:
            rt.check_same(a, b, rt.cstring(msg))
    return f


TABLE['vf_check_eq'] = TABLE['vf_check_eqf'] = check_eq


@ext('vf_check_same', 'vf_check_samef')
def _(rt):
    return check_eq(rt)


@ext('vf_reach')
def _(rt):
    def f(msg):
        m = rt.cstring(msg)
        rt.reached[m] = rt.reached.get(m, 0) + 1
    return f


@ext('vf_fail')
def _(rt):
    def f(msg):
        raise Violation('value', rt.cstring(msg))
    return f


@ext('vf_float_mode')
def _(rt):
    def f():
        rt.flags['float'] = True
    return f


@ext('vf_reuse')
def _(rt):
    def f():
        rt.flags['reuse'] = True
    return f


@ext('vf_leak_ok')
def _(rt):
    def f():
        rt.flags['leak_ok'] = True
    return f


@ext('vf_flush')
def _(rt):
    def f():
        rt.flush_checks()
    return f


@ext('vf_is_nan')
def _(rt):
    def f(x):
        if rt.mode == 'real':
            if x is UNDEF:
                return UNDEF
            return x.__class__ is float and x != x
        return z3.fpIsNaN(x)
    return f


@ext('vf_is_finite')
def _(rt):
    def f(x):
        if rt.mode == 'real':
            if x is UNDEF:
                return UNDEF
            return x.__class__ is Node
        return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
    return f


@ext('vf_known_zero', 'vf_known_zerof')
def _(rt):
    def f(x):
        if rt.mode == 'real':
            if x is UNDEF:
                return UNDEF
            return x.__class__ is Node and x is rt.ctx.ZERO
        return x.__class__ is not R.Undef and z3.is_fp(x) and z3.is_true(z3.simplify(z3.fpIsZero(x)))
    return f


@ext('vf_symbolic')
def _(rt):
    return lambda: 1


# ---------------------------------------------------------------------- allocation
def mk_new(rt, kind):
    def f(n, *a):
        if n.__class__ is not int:
            n = rt.concretize(n, 'allocation size')
        if n > (1 << 31) - 1:
            rt.throw_std('@_ZTISt9bad_alloc')
        st = rt.freed.get((n, kind))
        if st:
            # the address of the last released block of this size comes back, as from a real allocator
            i = st.pop()
            o = rt.objs[i]
            o.alive, o.cells = True, {}
            rt.heap_live[i] = o
            return i << 32
        o = Obj(n, 'heap', kind)
        rt.objs.append(o)
        i = len(rt.objs) - 1
        rt.heap_live[i] = o
        return i << 32
    return f


def mk_del(rt, kind):
    def f(p, *a):
        if p is UNDEF:
            raise Violation('uninit', 'delete of an uninitialised pointer')
        if p == 0:
            return
        i = p >> 32
        o = rt.objs[i] if i < len(rt.objs) else None
        if o is None or o.kind != 'heap':
            raise Violation('memory', 'delete of a pointer that was not allocated')
        if p & 0xffffffff:
            raise Violation('memory', 'delete of an interior pointer')
        if not o.alive:
            raise Violation('memory', 'double delete')
        if o.name != kind:
            raise Violation('memory', 'allocated with %s, released with delete%s' % (
                'new[]' if o.name == '[]' else 'new', kind))
        o.alive = False
        rt.heap_live.pop(i, None)
        if rt.flags.get('reuse'):
            rt.freed.setdefault((o.size, kind), []).append(i)
    return f


for _n in ('_Znwm', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
    TABLE[_n] = lambda rt: mk_new(rt, '')
for _n in ('_Znam', '_ZnamSt11align_val_t', '_ZnamRKSt9nothrow_t'):
    TABLE[_n] = lambda rt: mk_new(rt, '[]')
for _n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
    TABLE[_n] = lambda rt: mk_del(rt, '')
for _n in ('_ZdaPv', '_ZdaPvm', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t'):
    TABLE[_n] = lambda rt: mk_del(rt, '[]')
TABLE['malloc'] = lambda rt: mk_new(rt, 'malloc')
TABLE['free'] = lambda rt: mk_del(rt, 'malloc')


@ext('realloc')
def _(rt):
    nw, de = mk_new(rt, 'malloc'), mk_del(rt, 'malloc')

    def f(p, n):
        n = rt.concretize(n, 'allocation size')
        q = nw(n)
        if p != 0:
            o = rt.objs[p >> 32] if p >> 32 < len(rt.objs) else None
            if o is None or o.kind != 'heap' or not o.alive:
                raise Violation('memory', 'realloc of a pointer that is not allocated')
            rt.memcpy_(q, p, min(n, o.size))
            de(p)
        return q
    return f


@ext('aligned_alloc')
def _(rt):
    nw = mk_new(rt, 'malloc')
    return lambda a, n: nw(n)


@ext('posix_memalign')
def _(rt):
    nw = mk_new(rt, 'malloc')

    def f(p, a, n):
        rt.store(p, 8, nw(n))
        return 0
    return f


@ext('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_init', 'pthread_mutex_destroy')
def _(rt):
    return lambda *a: 0


@ext('pthread_once')
def _(rt):
    def f(p, fn):
        if rt.load(p, 4) != 2:
            rt.G['icall'](fn)
            rt.store(p, 4, 2)
        return 0
    return f


@ext('calloc')
def _(rt):
    nw = mk_new(rt, 'malloc')

    def f(n, s):
        p = nw(n * s)
        rt.memset_(p, 0, n * s)
        return p
    return f


# ---------------------------------------------------------------------- exceptions
@ext('__cxa_allocate_exception')
def _(rt):
    def f(n):
        o = Obj(n, 'exception', '')
        rt.objs.append(o)
        return (len(rt.objs) - 1) << 32
    return f


@ext('__cxa_free_exception')
def _(rt):
    def f(p):
        rt.objs[p >> 32].alive = False
    return f


@ext('__cxa_throw')
def _(rt):
    def f(p, ti, dtor):
        e = CxxThrow(p, ti)
        e.dtor = dtor
        rt.excs.append(e)
        raise e
    return f


@ext('__cxa_begin_catch')
def _(rt):
    def f(p):
        e = rt.exc_of(p)
        rt.caught.append(e)
        return p
    return f


@ext('__cxa_end_catch')
def _(rt):
    def f():
        if rt.caught:
            rt.caught.pop()
    return f


@ext('__cxa_get_exception_ptr')
def _(rt):
    return lambda p: p


@ext('__cxa_rethrow')
def _(rt):
    def f():
        if not rt.caught:
            raise Violation('abort', 'rethrow without an exception')
        raise rt.caught[-1]
    return f


@ext('_ZSt9terminatev')
def _(rt):
    def f():
        e = rt.exc
        raise Violation('abort', 'std::terminate called' + (
            ' (exception %s leaves a noexcept function)' % rt.ti_name(e.tinfo) if e is not None else ''))
    return f


@ext('abort')
def _(rt):
    def f():
        raise Violation('abort', 'abort() called')
    return f


@ext('__assert_fail')
def _(rt):
    def f(e, *a):
        raise Violation('abort', 'assertion failed: ' + rt.cstring(e))
    return f


@ext('__cxa_pure_virtual')
def _(rt):
    def f():
        raise Violation('abort', 'pure virtual call')
    return f


@ext('__cxa_guard_acquire')
def _(rt):
    def f(p):
        v = rt.load(p, 1)
        return 0 if v == 1 else 1
    return f


@ext('__cxa_guard_release')
def _(rt):
    def f(p):
        rt.store(p, 1, 1)
    return f


@ext('__cxa_guard_abort')
def _(rt):
    return lambda *a: 0


@ext('__cxa_atexit', '__cxa_thread_atexit')
def _(rt):
    def f(fn, arg, dso):
        rt.at_exit.append((fn, arg))
        return 0
    return f


# ---------------------------------------------------------------------- libc / libm
@ext('strlen')
def _(rt):
    def f(p):
        n = 0
        while True:
            c = rt.load(p + n, 1)
            if c == 0:
                return n
            n += 1
    return f


@ext('memcmp', 'bcmp')
def _(rt):
    def f(a, b, n):
        n = rt.concretize(n)
        for i in range(n):
            x, y = rt.load(a + i, 1), rt.load(b + i, 1)
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if x.__class__ is int and y.__class__ is int:
                if x != y:
                    return (1 if x > y else -1) & 0xffffffff
            elif not rt.cond(x == y):
                return 1
        return 0
    return f


@ext('memchr')
def _(rt):
    def f(a, c, n):
        for i in range(rt.concretize(n)):
            if rt.load(a + i, 1) == (c & 255):
                return a + i
        return 0
    return f


@ext('memcpy', 'memmove')
def _(rt):
    def f(d, s, n):
        rt.memcpy_(d, s, n)
        return d
    return f


@ext('memset')
def _(rt):
    def f(d, v, n):
        rt.memset_(d, v, n)
        return d
    return f


def g(name):
    return lambda rt: rt.G[name]


for _n in ('sqrt', 'sqrtf', 'sqrtl'):
    TABLE[_n] = g('fsqrt')
for _n in ('pow', 'powf'):
    TABLE[_n] = g('fpow')
for _n in ('fabs', 'fabsf'):
    TABLE[_n] = g('fabs_')
for _n in ('fma', 'fmaf'):
    TABLE[_n] = g('fmuladd')
for _n in ('fmin', 'fminf'):
    TABLE[_n] = lambda rt: (lambda a, b: rt.G['fminmax']('minnum', a, b))
for _n in ('fmax', 'fmaxf'):
    TABLE[_n] = lambda rt: (lambda a, b: rt.G['fminmax']('maxnum', a, b))


@ext('lround', 'lroundf', 'llround', 'llroundf', 'lrint', 'lrintf', 'llrint', 'llrintf')
def _(rt):
    return lambda a: rt.G['fptosi'](rt.G['fround_']('round', a), 64)


@ext('ldexp', 'ldexpf', 'scalbn', 'scalbnf', 'scalbln', 'scalblnf', 'exp2', 'exp2f')
def _(rt):
    def f(a, n=None):
        if n is None:       # exp2 of a constant integer
            c = getattr(a, 'a', None) if getattr(a, 'op', None) == 'c' else None
            if c is None or c != int(c):
                raise EngineError('exp2 of a general value')
            a, n = None, int(c)
        else:
            n = rt.concretize(n)
            n = n - (1 << 64) if n >> 63 else n - (1 << 32) if n >> 31 else n
        if abs(n) > 1000:
            raise EngineError('scaling by a very large power of two')
        G = rt.G
        one = r = G['sitofp'](1, 64, 'double')
        while abs(n) > 0:
            k = min(abs(n), 60)
            p = G['sitofp'](1 << k, 64, 'double')
            r = G['fmul'](r, p) if n > 0 else G['fdiv'](r, p)
            n = n - k if n > 0 else n + k
        return r if a is None else a if r is one else G['fmul'](a, r)
    return f


@ext('hypot', 'hypotf', 'cabs', 'cabsf')
def _(rt):
    def f(a, b):
        G = rt.G
        return G['fsqrt'](G['fadd'](G['fmul'](a, a), G['fmul'](b, b)))
    return f


@ext('__muldc3', '__mulsc3')
def _(rt):
    def f(a, b, c, d):
        G = rt.G
        m = G['fmul']
        return (G['fsub'](m(a, c), m(b, d)), G['fadd'](m(a, d), m(b, c)))
    return f


@ext('__divdc3', '__divsc3')
def _(rt):
    def f(a, b, c, d):
        G = rt.G
        m = G['fmul']
        den = G['fadd'](m(c, c), m(d, d))
        return (G['fdiv'](G['fadd'](m(a, c), m(b, d)), den), G['fdiv'](G['fsub'](m(b, c), m(a, d)), den))
    return f


@ext('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm')
def _(rt):
    return lambda *a: None
