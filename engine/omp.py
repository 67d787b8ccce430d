"""OpenMP runtime model.

Without -fopenmp only the omp_* query functions of serial code are needed.  With -fopenmp (configurations 'omp' and
'ompacc') clang's calls into the OpenMP runtime are interpreted here: a parallel region runs its outlined function once
per thread of a team, thread after thread (switching at barriers), the work-sharing entry points hand every thread its
iterations exactly as the real runtime does, and every memory access inside the region is recorded with the thread, the
barrier phase and the locks held.  At the end of each outermost region the solver decides whether two accesses by
different threads, in the same phase and without a common lock, can touch the same bytes, one of them writing.  When
no such pair exists the region is race-free, so the one interleaving executed stands for all of them.

The team size is a decision of the path: 1, 2, 3 threads (thread-number dependent code) and a team with at least as many
threads as iterations, which puts every two iterations on different threads and so covers every assignment of the
iterations of a loop to threads."""
import ctypes
import threading
import time
import z3
import rt as R
from rt import PathEnd, EngineError

TEAMS = (64, 1, 2, 3)
TEAMS_T = (64, 1, 2, 3, 4, 5, 7, 8, 16, 160)
M32, M64 = (1 << 32) - 1, (1 << 64) - 1


class State:
    def __init__(self):
        self.T = None
        self.asked, self.fewer = False, None
        self.frames = []        # stack of [region, phase, tid, T] for the running thread
        self.locks = 0
        self.lockids = {}
        self.log = {}
        self.region = 0
        self.push_threads = None
        self.push_teams = None
        self.teams = None
        self.sched = None       # hand-over object when threads of the innermost team are Python threads
        self.singles = {}
        self.dispatch = {}
        self.tidcells = {}


def st(rt):
    s = rt.omp_state
    if s is None:
        s = rt.omp_state = State()
    return s


def install(rt):
    """logging versions of the memory primitives"""
    if getattr(rt, 'omp_installed', False):
        return
    rt.omp_installed = True
    G = rt.G
    load, loadf, store, memcpy, memset = rt.load, rt.loadf, rt.store, rt.memcpy_, rt.memset_
    rmw, cx = G['atomicrmw'], G['cmpxchg']

    def note(p, sz, w, atomic=False):
        s = rt.omp_state
        if s is None or not s.frames:
            return
        if p.__class__ is not int or sz.__class__ is not int:
            raise EngineError('symbolic address inside a parallel region')
        f = s.frames
        a, b = f[0], (f[1] if len(f) > 1 else None)
        k = (a[1], a[2], b[0] if b else -1, b[1] if b else 0, b[2] if b else 0, p, sz, w, s.locks | (1 if atomic else 0))
        s.log[k] = s.log.get(k, 0) + 1

    def load2(p, sz):
        note(p, sz, 0)
        return load(p, sz)

    def loadf2(p, sz):
        note(p, sz, 0)
        return loadf(p, sz)

    def store2(p, sz, v):
        note(p, sz, 1)
        return store(p, sz, v)

    def memcpy2(d, s_, n):
        if rt.omp_state is not None and rt.omp_state.frames:
            n = n if n.__class__ is int else rt.concretize(n, 'length')
            if n:
                note(d, n, 1)
                note(s_, n, 0)
        return memcpy(d, s_, n)

    def memset2(d, v, n):
        if rt.omp_state is not None and rt.omp_state.frames:
            n = n if n.__class__ is int else rt.concretize(n, 'length')
            if n:
                note(d, n, 1)
        return memset(d, v, n)

    def rmw2(k, p, v, sz, tk):
        note(p, sz, 1, True)
        return rmw(k, p, v, sz, tk)

    def cx2(p, c, v, sz):
        note(p, sz, 1, True)
        return cx(p, c, v, sz)
    G.update(load=load2, loadf=loadf2, store=store2, memcpy=memcpy2, memmove=memcpy2, memset=memset2, atomicrmw=rmw2, cmpxchg=cx2)


# ------------------------------------------------------------------------------------------------ races
def region_end(rt, s):
    """all accesses of the outermost region are in s.log: can two of them conflict?"""
    per = {}
    for (ph0, t0, r1, ph1, t1, p, sz, w, lk) in s.log:
        per.setdefault(p >> 32, []).append((ph0, t0, r1, ph1, t1, p & M32, sz, w, lk))
    s.log = {}
    for oid, acc in sorted(per.items()):
        if len({(a[1], a[2], a[4]) for a in acc}) < 2 or not any(a[7] for a in acc):
            continue
        acc = merge(acc)
        names = ('ph0', 't0', 'r1', 'ph1', 't1', 'off', 'sz', 'w', 'lk')
        V = [{n: z3.Int(n + str(k)) for n in names if n != 'lk'} for k in (1, 2)]
        L = [z3.BitVec('lk%d' % k, 16) for k in (1, 2)]
        sol = z3.Solver()
        sol.set('timeout', 60000)
        for k in (0, 1):
            sol.add(z3.Or([z3.And([V[k][n] == a[i] for i, n in enumerate(names[:-1])] + [L[k] == a[8]]) for a in acc]))
        x, y = V
        sol.add(x['off'] < y['off'] + y['sz'], y['off'] < x['off'] + x['sz'], x['w'] + y['w'] > 0, L[0] & L[1] == 0,
                x['ph0'] == y['ph0'],
                z3.Or(x['t0'] != y['t0'], z3.And(x['r1'] == y['r1'], x['r1'] >= 0, x['ph1'] == y['ph1'], x['t1'] != y['t1'])))
        t = time.time()
        r = sol.check()
        rt.stats['solver_calls'] += 1
        rt.stats['int_queries'] += 1
        rt.stats['solver_s'] += time.time() - t
        rt.stats['obligations'] += 1
        if r == z3.unknown:
            raise EngineError('race query undecided')
        if r == z3.sat:
            m = sol.model()
            g = [{n: m.eval(v, model_completion=True).as_long() for n, v in d.items()} for d in V]
            o = rt.objs[oid]
            rt.failed.append(('race', 'threads %s and %s of a parallel region access the same bytes of a %s object (%s) without '
                              'synchronisation, at least one writing' % (
                                  (g[0]['t0'], g[0]['t1']) if g[0]['r1'] >= 0 else g[0]['t0'],
                                  (g[1]['t0'], g[1]['t1']) if g[1]['r1'] >= 0 else g[1]['t0'], o.kind, o.name or 'unnamed'), None))
            return


def merge(acc):
    """join adjacent accesses of the same thread, phase, kind and locks"""
    acc = sorted(acc, key=lambda a: a[:5] + a[7:] + (a[5],))
    out = []
    for a in acc:
        if out:
            b = out[-1]
            if b[:5] == a[:5] and b[7:] == a[7:] and a[5] <= b[5] + b[6]:
                out[-1] = b[:6] + (max(b[6], a[5] + a[6] - b[5]),) + b[7:]
                continue
        out.append(a)
    return out


# ------------------------------------------------------------------------------------------------ teams
def has_barrier(rt):
    v = getattr(rt, 'omp_barriers', None)
    if v is None:
        names = ('__kmpc_barrier', '__kmpc_single', '__kmpc_end_reduce', '__kmpc_reduce', '__kmpc_cancel_barrier', '__kmpc_copyprivate')
        v = rt.omp_barriers = any(('@' + n) in rt.mod.declares for n in names)
    return v


class Handover:
    """runs the threads of a team one at a time; a thread gives way at a barrier"""

    def __init__(self, rt, s, n, body):
        self.rt, self.s, self.n, self.body = rt, s, n, body
        self.main = threading.Semaphore(0)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.exc = None
        self.base = list(s.frames)
        self.saved = [None] * n

    def thread(self, i):
        self.sem[i].acquire()
        if self.exc is None:
            try:
                self.body(i)
            except BaseException as e:          # handed to the main thread
                if self.exc is None:
                    self.exc = e
        self.done[i] = True
        self.main.release()

    def run(self):
        s = self.s
        old = threading.stack_size(256 << 20) if self.n <= 8 else threading.stack_size(64 << 20)
        ths = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        threading.stack_size(old)
        for t in ths:
            t.start()
        prev, s.sched = s.sched, self
        try:
            while not all(self.done) and self.exc is None:
                for i in range(self.n):
                    if not self.done[i] and self.exc is None:
                        s.frames, s.locks = self.saved[i] or (list(self.base), 0)
                        self.sem[i].release()
                        self.main.acquire()
        except BaseException as e:
            self.exc = self.exc or e
            for t in ths:
                if t.is_alive():
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(SystemExit))
            raise
        finally:
            s.sched = prev
            if self.exc is not None:
                for i in range(self.n):
                    self.sem[i].release()
        for t in ths:
            t.join(5)
        s.frames, s.locks = self.base, 0
        if self.exc is not None:
            raise self.exc

    def barrier(self):
        s = self.s
        i = s.frames[-1][2]
        self.saved[i] = (s.frames, s.locks)
        self.main.release()
        self.sem[i].acquire()
        if self.exc is not None:
            raise PathEnd('team stopped')


def run_team(rt, s, n, body):
    """body(tid) for every thread of a new team"""
    outer = not s.frames
    s.region += 1
    reg = s.region
    base = s.frames
    if len(base) == 2:
        n = 1
    s.T_now = n

    def one(i):
        s.frames = base + [[reg, 0, i, n]]
        body(i)
    if n > 1 and has_barrier(rt):
        Handover(rt, s, n, one).run()
    else:
        for i in range(n):
            one(i)
    s.frames = base
    if outer:
        region_end(rt, s)
    else:
        base[-1][1] = base[-1][1]


def team_size(rt, s):
    if s.push_threads is not None:
        n, s.push_threads = s.push_threads, None
        n = max(1, min(n, 160))
    else:
        n = team_size_peek(rt, s)
        if not s.asked:
            return n
    # a team may always be smaller than requested or announced
    if n > 1:
        if s.fewer is None:
            s.fewer, _ = rt.decide(lambda: [0, 1])
        if s.fewer:
            n = max(1, n // 2)
    return n


def cell(rt, v):
    o = R.Obj(4, 'omp', 'thread id')
    o.cells[0] = (4, v)
    rt.objs.append(o)
    return (len(rt.objs) - 1) << 32


def fork(rt, n_of):
    def f(ident, argc, fn, *args):
        if getattr(rt, 'omp', None) is None:
            raise EngineError('parallel region in a serial configuration')
        s = st(rt)
        n = n_of(s)
        g = rt.G[rt.gen.fname(rt.addrg[fn])]

        def body(i):
            a, b = cell(rt, gid(s)), cell(rt, i)
            g(a, b, *args)
        run_team(rt, s, n, body)
    return f


def gid(s):
    v = 0
    for fr in s.frames:
        v = v * 256 + fr[2]
    return v & 0x7fffffff


def chunk(lb, ub, incr, T, tid):
    """libomp's static schedule without a chunk size; (lb, ub, last) of this thread"""
    trip = (ub - lb) // incr + 1
    if trip < T:
        if tid < trip:
            lb = ub2 = lb + tid * incr
            return lb, ub2, tid == trip - 1, trip
        return ub + incr, ub, False, trip
    small, extra = divmod(trip, T)
    lb2 = lb + incr * (tid * small + min(tid, extra))
    ub2 = lb2 + small * incr - (0 if tid < extra else incr)
    return lb2, ub2, tid == T - 1, trip


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def conc(rt, v):
    return v if v.__class__ is int else rt.concretize(v, 'loop bound')


def static_init(rt, w, sgn):
    by = w // 8
    m = (1 << w) - 1

    def f(ident, g, sched, plast, plb, pub, pst, incr, ck):
        s = st(rt)
        sched = conc(rt, sched) & 0x9fffffff
        fr = s.frames[-1] if s.frames else [0, 0, 0, 1]
        if 91 <= sched <= 92 and len(s.frames) > 1:
            raise EngineError('distribute inside a nested region')
        tid, T = fr[2], fr[3]
        get = lambda p: conc(rt, rt.load(p, by))
        cv = (lambda v: signed(v, w)) if sgn else (lambda v: v)
        lb, ub = cv(get(plb)), cv(get(pub))
        incr, ck = signed(conc(rt, incr) & m, w), signed(conc(rt, ck) & m, w)
        if (lb > ub) if incr > 0 else (lb < ub):
            if plast:
                rt.store(plast, 4, 0)
            rt.store(pst, by, incr & m)
            return
        if T == 1:
            if plast:
                rt.store(plast, 4, 1)
            rt.store(pst, by, ((ub - lb + 1) if incr > 0 else (lb - ub + 1)) * (1 if incr > 0 else -1) & m)
            return
        if sched in (33, 91, 45):
            ck = max(ck, 1)
            trip = (ub - lb) // incr + 1
            span = ck * incr
            rt.store(pst, by, span * T & m)
            lb2 = lb + span * tid
            rt.store(plb, by, lb2 & m)
            rt.store(pub, by, (lb2 + span - incr) & m)
            if plast:
                rt.store(plast, 4, int(tid == ((trip - 1) // ck) % T))
            return
        if sched not in (34, 92):
            raise EngineError('static schedule %d' % sched)
        lb2, ub2, last, trip = chunk(lb, ub, incr, T, tid)
        rt.store(plb, by, lb2 & m)
        rt.store(pub, by, ub2 & m)
        rt.store(pst, by, trip & m)
        if plast:
            rt.store(plast, 4, int(last))
    return f


def dispatch_init(rt, w, sgn):
    m = (1 << w) - 1

    def f(ident, g, sched, lb, ub, incr, ck):
        s = st(rt)
        cv = (lambda v: signed(conc(rt, v) & m, w)) if sgn else (lambda v: conc(rt, v) & m)
        lb, ub, incr, ck = cv(lb), cv(ub), signed(conc(rt, incr) & m, w), max(1, signed(conc(rt, ck) & m, w))
        fr = s.frames[-1] if s.frames else [0, 0, 0, 1]
        n = max(0, (ub - lb) // incr + 1)
        s.dispatch[id(fr)] = [fr, lb, ub, incr, ck, n, fr[2] * ck]
    return f


def dispatch_next(rt, w, sgn):
    m = (1 << w) - 1
    by = w // 8

    def f(ident, g, plast, plb, pub, pst):
        s = st(rt)
        fr = s.frames[-1] if s.frames else [0, 0, 0, 1]
        d = s.dispatch.get(id(fr)) or next(iter(s.dispatch.values()))
        fr, lb, ub, incr, ck, n, k = d
        if k >= n:
            return 0
        e = min(k + ck, n)
        d[6] = k + ck * fr[3]
        rt.store(plb, by, (lb + k * incr) & m)
        rt.store(pub, by, (lb + (e - 1) * incr) & m)
        rt.store(pst, by, incr & m)
        if plast:
            rt.store(plast, 4, int(e == n))
        return 1
    return f


def barrier(rt):
    def f(*a):
        s = st(rt)
        if not s.frames:
            return
        if s.frames[-1][3] > 1:
            s.sched.barrier()
        s.frames[-1][1] += 1
    return f


def single(rt):
    def f(ident, g):
        s = st(rt)
        if not s.frames:
            return 1
        fr = s.frames[-1]
        fr.extend([0] * (5 - len(fr)))
        fr[4] += 1
        k = (fr[0], fr[4], tuple(x[2] for x in s.frames[:-1]))
        if k in s.singles:
            return 0
        s.singles[k] = 1
        return 1
    return f


def lock(rt, on):
    def f(ident, g, name=0, *a):
        s = st(rt)
        k = s.lockids.setdefault(name if name.__class__ is int else 0, len(s.lockids) + 1)
        if k > 14:
            raise EngineError('too many locks')
        s.locks = (s.locks | 1 << k) if on else (s.locks & ~(1 << k))
    return f


def reduce_(rt):
    def f(ident, g, nv, sz, data, fn, lck):
        s = st(rt)
        if s.frames and s.frames[-1][3] > 1:
            lock(rt, True)(ident, g, lck)
        return 1
    return f


def end_reduce(rt, bar):
    def f(ident, g, lck):
        lock(rt, False)(ident, g, lck)
        if bar:
            barrier(rt)(ident, g)
    return f


def setter(name):
    def mk(rt):
        def f(ident, g, n, *a):
            setattr(st(rt), name, conc(rt, n))
        return f
    return mk


def thread_num(rt):
    return lambda *a: st(rt).frames[-1][2] if rt.omp_state and rt.omp_state.frames else 0


def num_threads(rt):
    return lambda *a: st(rt).frames[-1][3] if rt.omp_state and rt.omp_state.frames else 1


def max_threads(rt):
    def f(*a):
        if rt.omp is None:
            return 1
        s = st(rt)
        s.asked = True
        return 1 if s.frames else team_size_peek(rt, s)
    return f


def team_size_peek(rt, s):
    if s.T is None:
        s.T, _ = rt.decide(lambda: list(rt.omp_sizes))
    return s.T


def serialized(rt, on):
    def f(ident, g):
        s = st(rt)
        if on:
            s.region += 1
            s.frames = s.frames + [[s.region, 0, 0, 1]]
        else:
            s.frames = s.frames[:-1]
            if not s.frames:
                s.log = {}
    return f


def teams_size(s):
    n = s.push_teams or 3
    s.push_teams = None
    return max(1, min(n, 16))


T = {
    '__kmpc_fork_call': lambda rt: fork(rt, lambda s: team_size(rt, s)),
    '__kmpc_fork_teams': lambda rt: fork(rt, teams_size),
    '__kmpc_push_num_threads': setter('push_threads'),
    '__kmpc_push_num_teams': setter('push_teams'),
    '__kmpc_push_proc_bind': lambda rt: lambda *a: None,
    '__kmpc_for_static_fini': lambda rt: lambda *a: None,
    '__kmpc_distribute_static_fini': lambda rt: lambda *a: None,
    '__kmpc_global_thread_num': lambda rt: lambda *a: gid(st(rt)),
    '__kmpc_barrier': barrier,
    '__kmpc_cancel_barrier': lambda rt: (lambda b: lambda *a: (b(*a), 0)[1])(barrier(rt)),
    '__kmpc_flush': lambda rt: lambda *a: None,
    '__kmpc_single': single,
    '__kmpc_end_single': lambda rt: lambda *a: None,
    '__kmpc_master': lambda rt: lambda *a: int(thread_num(rt)() == 0),
    '__kmpc_end_master': lambda rt: lambda *a: None,
    '__kmpc_masked': lambda rt: lambda i, g, k: int(thread_num(rt)() == k),
    '__kmpc_end_masked': lambda rt: lambda *a: None,
    '__kmpc_critical': lambda rt: lock(rt, True),
    '__kmpc_critical_with_hint': lambda rt: lock(rt, True),
    '__kmpc_end_critical': lambda rt: lock(rt, False),
    '__kmpc_reduce_nowait': reduce_,
    '__kmpc_reduce': reduce_,
    '__kmpc_end_reduce_nowait': lambda rt: end_reduce(rt, False),
    '__kmpc_end_reduce': lambda rt: end_reduce(rt, True),
    '__kmpc_serialized_parallel': lambda rt: serialized(rt, True),
    '__kmpc_end_serialized_parallel': lambda rt: serialized(rt, False),
    'omp_get_thread_num': thread_num,
    'omp_get_num_threads': num_threads,
    'omp_get_max_threads': max_threads,
    'omp_get_num_procs': max_threads,
    'omp_in_parallel': lambda rt: lambda *a: int(num_threads(rt)() > 1),
    'omp_get_level': lambda rt: lambda *a: len(st(rt).frames),
    'omp_get_num_devices': lambda rt: lambda *a: 0,
    'omp_get_default_device': lambda rt: lambda *a: 0,
    'omp_get_dynamic': lambda rt: lambda *a: 0,
    'omp_get_nested': lambda rt: lambda *a: 0,
    'omp_get_num_teams': lambda rt: lambda *a: st(rt).frames[0][3] if st(rt).frames else 1,
    'omp_get_team_num': lambda rt: lambda *a: st(rt).frames[0][2] if st(rt).frames else 0,
    'omp_is_initial_device': lambda rt: lambda *a: 1,
    'omp_get_max_active_levels': lambda rt: lambda *a: 1,
    'omp_get_active_level': lambda rt: lambda *a: sum(f[3] > 1 for f in st(rt).frames),
    'omp_set_nested': lambda rt: lambda n: None,
    'omp_set_max_active_levels': lambda rt: lambda n: None,
    'omp_set_schedule': lambda rt: lambda *a: None,
    'omp_init_lock': lambda rt: lambda l: None,
    'omp_destroy_lock': lambda rt: lambda l: None,
    'omp_set_lock': lambda rt: (lambda f: lambda l: f(0, 0, l))(lock(rt, True)),
    'omp_unset_lock': lambda rt: (lambda f: lambda l: f(0, 0, l))(lock(rt, False)),
    'omp_set_num_threads': lambda rt: lambda n: None,
    'omp_set_dynamic': lambda rt: lambda n: None,
    'omp_get_thread_limit': lambda rt: lambda *a: 64,
}
for _sfx, _w, _s in (('4', 32, True), ('4u', 32, False), ('8', 64, True), ('8u', 64, False)):
    T['__kmpc_for_static_init_' + _sfx] = lambda rt, w=_w, s=_s: static_init(rt, w, s)
    T['__kmpc_dispatch_init_' + _sfx] = lambda rt, w=_w, s=_s: dispatch_init(rt, w, s)
    T['__kmpc_dispatch_next_' + _sfx] = lambda rt, w=_w, s=_s: dispatch_next(rt, w, s)
    T['__kmpc_dispatch_fini_' + _sfx] = lambda rt: lambda *a: None


def extern(rt, name):
    f = T.get(name)
    return f(rt) if f else None
