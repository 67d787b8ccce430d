#!/opt/veriftools/pyvenv/bin/python3
"""check.py PXX [--tier quick|thorough] : decide one property.

Regenerates the LLVM IR of the harness plus the library headers from /repo's working tree for every
configuration, executes every harness entry symbolically, discharges the obligations with z3, replays every
counterexample against a native build and writes /verif/evidence/PXX.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery could not decide."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

CFG = {
    'internal': ['-DLALIB_INTERNAL_BACKEND', '-DNDEBUG'],
    'blas': ['-DLALIB_BLAS_BACKEND', '-DNDEBUG'],
    'lapack': ['-DLALIB_BLAS_BACKEND', '-DLALIB_LAPACK_BACKEND', '-DNDEBUG'],
    'accel': ['-DLALIB_INTERNAL_BACKEND', '-DLALIB_USE_ACCELERATOR', '-DNDEBUG'],
    'omp': ['-DLALIB_INTERNAL_BACKEND', '-DNDEBUG'],
    'ompacc': ['-DLALIB_INTERNAL_BACKEND', '-DLALIB_USE_ACCELERATOR', '-DNDEBUG'],
    'dbg': ['-DLALIB_INTERNAL_BACKEND'],
}
CFG_TEXT = {
    'internal': 'Internal backend, release', 'blas': 'BLAS backend (reference BLAS model; real OpenBLAS in replay)',
    'lapack': 'LAPACK+BLAS backend (reference model; real LAPACKE/OpenBLAS in replay)',
    'accel': 'Internal backend with accelerator kernels, host execution', 'dbg': 'Internal backend, assertions on',
    'omp': 'Internal backend compiled with OpenMP; every assignment of iterations to threads',
    'ompacc': 'Internal backend with accelerator kernels, compiled with OpenMP (host fall-back of the offloaded regions)'}
WORKERS = int(os.environ.get('VF_WORKERS', '8'))


class Entry:
    def __init__(self, name):
        self.name, self.mode, self.cfgs, self.tier = name, 'real', ['internal'], 'quick'
        self.witness = True


class Harness:
    def __init__(self, path):
        self.path = path
        self.bounds, self.assume, self.outside, self.flags, self.title = [], [], [], [], ''
        self.entries = []
        cur = {}
        for line in open(path):
            m = re.match(r'\s*//\s*@(\w+)\s*(.*)', line)
            if m:
                k, v = m.group(1), m.group(2).strip()
                if k == 'run':
                    cur = dict(x.split('=', 1) for x in v.split())
                elif k == 'bound':
                    self.bounds.append(v)
                elif k == 'assume':
                    self.assume.append(v)
                elif k == 'outside':
                    self.outside.append(v)
                elif k == 'flags':
                    self.flags += v.split()
                continue
            for m in re.finditer(r'\b(?:ENTRY|\w*_ENTRY)\(\s*(\w+)', line):
                if line.lstrip().startswith('#'):
                    continue
                e = Entry(m.group(1))
                e.mode = cur.get('mode', 'real')
                e.cfgs = cur.get('cfg', 'internal').split(',')
                e.tier = cur.get('tier', 'quick')
                e.witness = cur.get('witness', '1') == '1'
                self.entries.append(e)

    def select(self, tier):
        return [e for e in self.entries if e.tier == 'quick' or tier == 'thorough']


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors='replace', **kw)


CLANG = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-S', '-emit-llvm']
CLANG += ['-idirafter', HERE + '/shim']         # clang comes without omp.h


def write_tu(h, cfg, wd):
    p = os.path.join(wd, 'ir_%s.cc' % cfg)
    with open(p, 'w') as f:
        f.write('#include "%s"\n#include "%s/harness/refblas.inc"\n#include "%s/harness/stdrt.inc"\n' % (h.path, VERIF, VERIF))
    return p


def ir_cmd(h, cfg, wd, tier):
    src = write_tu(h, cfg, wd)
    out = os.path.join(wd, 'ir_%s.ll' % cfg)
    fl = CFG[cfg] + h.flags + (['-DVF_THOROUGH'] if tier == 'thorough' else []) + ['-DVF_CFG_' + cfg]
    if cfg.startswith('omp'):
        fl = fl + ['-fopenmp']
    c = ' '.join(CLANG + fl + [src, '-o', out + '.0']) + ' && ' + \
        "opt -S -passes='function(sroa,instsimplify,simplifycfg),globaldce,strip-dead-prototypes' %s.0 -o %s" % (out, out)
    return c, out


def native_cmd(h, cfg, wd, tier, san=None):
    san = san or ''
    src = os.path.join(wd, 'nat_%s%s.cc' % (cfg, san))
    out = os.path.join(wd, 'nat_%s%s' % (cfg, san))
    ents = [e.name for e in h.select(tier) if cfg in e.cfgs]
    with open(src, 'w') as f:
        f.write('#include "%s"\n#include "%s/native/native.cc"\n' % (h.path, VERIF))
        f.write('VfEntry vf_entries[] = {%s{0,0}};\n' % ''.join('{"%s",%s},' % (e, e) for e in ents))
        if san == 'thread':
            f.write('#include "%s/native/gomp_pthread.inc"\n' % VERIF)
    fl = CFG[cfg] + h.flags + (['-DVF_THOROUGH'] if tier == 'thorough' else []) + ['-DVF_CFG_' + cfg, '-DVF_NATIVE']
    opt = ['-O2', '-g0']
    if san == 'address':
        opt = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DVF_SAN']
    elif san == 'thread':
        opt = ['-O1', '-g', '-fsanitize=thread', '-DVF_SAN']
    if cfg != 'accel':
        opt.append('-fopenmp')
    libs = {'blas': ['-lopenblas'], 'lapack': ['-llapacke', '-lopenblas']}.get(cfg, [])
    if san == 'thread':
        libs = libs + ['-lpthread']
    return ['g++', '-std=gnu++20', '-w'] + opt + fl + ['-I' + REPO + '/include', '-I' + VERIF + '/harness', src, '-o', out] + libs, out


def case_text(entry, inputs):
    L = ['E ' + entry]
    for i in inputs:
        if i[0] == 'r':
            L.append('r ' + float(i[1]).hex())
        elif i[0] == 'u':
            L.append('u %d' % i[1])
        else:
            L.append('b %x %d' % (i[1], i[2]))
    L.append('.')
    return '\n'.join(L) + '\n'


def nat_env(**kw):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='2', OMP_WAIT_POLICY='passive')
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:alloc_dealloc_mismatch=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1'
    e.update(kw)
    return e


def run_native(binary, text, wd, timeout=120, **env):
    f = tempfile.NamedTemporaryFile('w', suffix='.case', dir=wd, delete=False)
    f.write(text)
    f.close()
    try:
        r = subprocess.run([binary, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                           errors='replace', env=nat_env(**env))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------------------------------------ workers
class PathTimeout(Exception):
    pass


def on_alarm(*a):
    raise PathTimeout()


def worker(wid, mods, tq, rq, opts):
    import rt as R
    import ir as I
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rts = {}
    while True:
        task = tq.get()
        if task is None:
            break
        cfg, entry, mode, prefixes, seed, want_wit = task
        rq.put({'start': wid, 'key': (cfg, entry)})
        res = {'wid': wid, 'cfg': cfg, 'entry': entry, 'paths': 0, 'ok': 0, 'pruned': 0, 'insns': 0, 'left': [], 'cands': [], 'wits': [],
               'reached': {}, 'err': [], 'stats': {}, 'funcs': (), 'maxdepth': 0, 'inputs': 0}
        key = (cfg, mode)
        try:
            if key not in rts:
                lim = R.Limits()
                if opts['tier'] == 'thorough':
                    lim.real_branch_ms, lim.eq_ms = 4000, 30000
                rts[key] = R.RT(mods[cfg], mode, lim)
            r = rts[key]
            if cfg.startswith('omp'):
                import omp as O
                r.omp = True
                r.omp_sizes = O.TEAMS if opts['tier'] == 'quick' else O.TEAMS_T
                O.install(r)
            r.snapshot = lambda r, k=(cfg, entry, mode): snapshot(r, k, os.path.join(opts['wd'], 'snap.%d' % wid))
            base = dict(r.stats)
            stack = list(prefixes)
            t0 = time.time()
            while stack and (time.time() - t0 < opts['slice'] or res['paths'] == 0):
                p = stack.pop()
                signal.setitimer(signal.ITIMER_REAL, opts['path_s'])
                try:
                    st = r.run(entry, p, seed + len(p) * 7 + sum(hash(x) for x in p) % 1000003)
                    res['paths'] += 1
                    res['insns'] += r.n
                    stack.extend(r.pending)
                    res['maxdepth'] = max(res['maxdepth'], len(r.taken))
                    res['inputs'] = max(res['inputs'], len(r.inputs))
                    for f in r.failed:
                        if len(res['cands']) < 40:
                            res['cands'].append(mk_cand(r, cfg, entry, mode, f))
                    if not r.failed:
                        res['ok' if st == 'ok' else 'pruned'] += 1
                    for k, v in r.reached.items():
                        res['reached'][k] = res['reached'].get(k, 0) + v
                    if want_wit > 0 and st == 'ok' and not r.failed:
                        ci = r.concrete_inputs()
                        if ci is not None and (mode != 'real' or r.wit_ok):
                            res['wits'].append(ci)
                            want_wit -= 1
                except PathTimeout:
                    res['paths'] += 1
                    stack.extend(getattr(r, 'pending', []))
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    c = mk_cand(r, cfg, entry, mode, ('hang', 'path did not finish within the per-path time limit', None))
                    res['cands'].append(c)
                except (R.EngineError, I.IRError) as e:
                    res['paths'] += 1
                    stack.extend(getattr(r, 'pending', []))
                    if len(res['err']) < 20:
                        res['err'].append('%s: %s' % (type(e).__name__, e))
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            res['left'] = stack
            res['stats'] = {k: r.stats[k] - base.get(k, 0) for k in r.stats}
            res['funcs'] = tuple(r.compiled.keys())
        except PathTimeout:
            res['err'].append('late timer')
        except Exception:
            res['err'].append('internal: ' + traceback.format_exc()[-1500:])
        rq.put(res)


def snapshot(r, key, path):
    try:
        ci = r.concrete_inputs(list(r.wit))
    except Exception:
        return
    if ci is not None:
        with open(path, 'wb') as f:
            pickle.dump((key, ci, r.eps_count), f)


def mk_cand(r, cfg, entry, mode, f):
    kind, msg, wit = f
    alts = []
    try:
        signal.setitimer(signal.ITIMER_REAL, 40)
        if isinstance(wit, tuple) and wit and wit[0] == 'inputs':
            alts.append(wit[1])
        else:
            if wit is not None:
                ci = r.concrete_inputs(wit)
                if ci:
                    alts.append(ci)
            for _ in range(6 if r.mode == 'real' else 1):
                ci = r.concrete_inputs()
                if ci is not None and ci not in alts:
                    alts.append(ci)
                if r.mode == 'real':
                    r.wit_ok = False
                    r.wit = [r.rand_wit(i, 4) for i in range(len(r.wit))]
            if r.mode == 'real' and r.eps_count:
                # a rounding to single precision shows only for values that need more digits
                for den in (3, 7, 10):
                    r.wit_ok = False
                    r.wit = [r.rand_wit(i, 4, den) for i in range(len(r.wit))]
                    ci = r.concrete_inputs()
                    if ci is not None and ci not in alts:
                        alts.append(ci)
    except BaseException as e:
        if not isinstance(e, (Exception, PathTimeout)):
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'cfg': cfg, 'entry': entry, 'mode': mode, 'kind': kind, 'msg': msg, 'alts': alts,
            'tight': r.mode == 'real' and r.eps_count > 0}


# ------------------------------------------------------------------------------------------------ check
class Check:
    def __init__(self, pid, tier, verbose):
        self.pid, self.tier, self.verbose = pid, tier, verbose
        self.t0 = time.time()
        self.h = Harness(os.path.join(VERIF, 'harness', pid + '.cc'))
        self.entries = self.h.select(tier)
        only = os.environ.get('VF_ONLY')
        if only:
            self.entries = [e for e in self.entries if re.fullmatch(only, e.name)]
        self.h.entries = self.entries
        self.cfgs = []
        for e in self.entries:
            for c in e.cfgs:
                if c not in self.cfgs:
                    self.cfgs.append(c)
        oc = os.environ.get('VF_CFG')
        if oc:
            self.cfgs = oc.split(',')
        self.wd = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir='/tmp')
        self.nat, self.natproc = {}, {}
        self.cands, self.seen = [], {}
        self.stats = {}
        self.per = {}
        self.errs, self.skipped = [], []
        self.confirmed, self.known, self.unconfirmed, self.undecided = [], [], [], []
        self.kf = load_known(pid)
        self.funcs = set()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def log(self, *a):
        print(*a, flush=True)

    def native(self, cfg, san=None):
        key = (cfg, san)
        if key in self.nat:
            return self.nat[key]
        p, out, logf = self.natproc.get(key) or self.start_native(cfg, san)
        try:
            p.wait(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
        ok = p.returncode == 0 and os.path.exists(out)
        self.nat[key] = out if ok else None
        if not ok:
            self.natlog = open(logf, errors='replace').read()
        return self.nat[key]

    def start_native(self, cfg, san=None):
        cmd, out = native_cmd(self.h, cfg, self.wd, self.tier, san)
        logf = out + '.log'
        p = subprocess.Popen(cmd, stdout=open(logf, 'w'), stderr=subprocess.STDOUT)
        self.natproc[(cfg, san)] = (p, out, logf)
        return self.natproc[(cfg, san)]

    def run(self):
        irs = {}
        for c in self.cfgs:
            cmd, out = ir_cmd(self.h, c, self.wd, self.tier)
            irs[c] = (subprocess.Popen(cmd, shell=True, stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT), out)
        import ir as I
        import rt, externs, codegen, omp  # noqa: F401 (imported before forking)
        mods = {}
        compile_fail = None
        for c in self.cfgs:
            p, out = irs[c]
            p.wait()
            if p.returncode != 0:
                compile_fail = (c, open(out + '.log', errors='replace').read())
                break
            with open(out) as f:
                mods[c] = I.parse_module(f.read())
        if compile_fail:
            c, log = compile_fail
            b = self.native(c)
            if b is None:
                errs = [x for x in (log + '\n' + getattr(self, 'natlog', '')).splitlines() if 'error' in x][:6]
                self.confirm({'cfg': c, 'entry': '(compile)', 'kind': 'compile', 'msg': 'a public operation exercised by the '
                              'harness no longer compiles: ' + ' | '.join(errs)[:900], 'alts': [[]]}, [], 'compile error')
                return self.finish()
            self.errs.append('clang failed for %s but g++ did not:\n%s' % (c, log[-3000:]))
            return self.finish()
        self.t_ir = time.time() - self.t0
        for c in self.cfgs:
            if (c, None) not in self.natproc:
                self.start_native(c)
        self.explore(mods)
        return self.finish()

    def explore(self, mods):
        ctx = mp.get_context('fork')
        opts = {'tier': self.tier, 'slice': 1.0 if self.tier == 'quick' else 3.0, 'path_s': 60 if self.tier == 'quick' else 400, 'wd': self.wd}
        limit = float(os.environ.get('VF_LIMIT', '560' if self.tier == 'quick' else '5400'))
        tq, rq = ctx.Queue(), ctx.Queue()
        procs = [ctx.Process(target=worker, args=(i, mods, tq, rq, opts), daemon=True) for i in range(WORKERS)]
        for p in procs:
            p.start()
        out = 0
        want = {}
        self.incomplete = []
        nwit = 40 if self.tier == 'quick' else 120
        for e in self.entries:
            for c in e.cfgs:
                if c not in self.cfgs:
                    continue
                self.per[(c, e.name)] = {'cfg': c, 'entry': e.name, 'mode': e.mode, 'paths': 0, 'ok': 0, 'pruned': 0, 'insns': 0,
                                         'cands': 0, 'reached': {}, 'wits': [], 'maxdepth': 0, 'inputs': 0, 'wall': 0.0}
                want[(c, e.name)] = nwit if e.witness else 0
                tq.put((c, e.name, e.mode, [[]], self.seed, min(4, want[(c, e.name)])))
                out += 1
        mode = {e.name: e.mode for e in self.entries}
        stop = False
        busy = {}
        died = 0
        hard = limit + opts['path_s'] + 60
        while out:
            now = time.time()
            if now - self.t0 > hard:
                self.incomplete.append('overall time limit')
                break
            for w, (t, k) in list(busy.items()):
                if now - t > opts['slice'] + opts['path_s'] + 20:
                    # a solver call that ignores its timeout: give the path up, keep the rest going
                    procs[w].kill()
                    procs[w].join(5)
                    del busy[w]
                    self.skipped.append('%s/%s: path abandoned, a solver call did not return' % k)
                    out -= 1
                    self.abandoned(w, k)
                    procs[w] = ctx.Process(target=worker, args=(w, mods, tq, rq, opts), daemon=True)
                    procs[w].start()
            if self.confirmed:
                break
            if not out:
                break
            try:
                r = rq.get(timeout=5)
                if 'start' in r:
                    busy[r['start']] = (time.time(), r['key'])
                    continue
            except Exception:
                for w, p in enumerate(procs):
                    if not p.is_alive():
                        died += 1
                        if w in busy:
                            k = busy.pop(w)[1]
                            self.skipped.append('%s/%s: path abandoned, the worker process died' % k)
                            self.abandoned(w, k)
                            out -= 1
                        if died > 3 * WORKERS:
                            self.errs.append('worker processes keep dying (out of memory?)')
                            out = 0
                            break
                        procs[w] = ctx.Process(target=worker, args=(w, mods, tq, rq, opts), daemon=True)
                        procs[w].start()
                continue
            out -= 1
            busy.pop(r['wid'], None)
            k = (r['cfg'], r['entry'])
            d = self.per[k]
            for f in ('paths', 'ok', 'pruned', 'insns'):
                d[f] += r[f]
            d['maxdepth'] = max(d['maxdepth'], r['maxdepth'])
            d['inputs'] = max(d['inputs'], r['inputs'])
            d['cands'] += len(r['cands'])
            for a, b in r['reached'].items():
                d['reached'][a] = d['reached'].get(a, 0) + b
            for a, b in r['stats'].items():
                self.stats[a] = self.stats.get(a, 0) + b
            self.funcs.update(r['funcs'])
            for e in r['err']:
                self.skipped.append('%s/%s: %s' % (r['cfg'], r['entry'], e))
            room = want[k] - len(d['wits'])
            d['wits'] += r['wits'][:max(0, room)]
            for c in r['cands']:
                self.candidate(c)
            if self.confirmed:
                stop = True
            if time.time() - self.t0 > limit:
                stop = True
            if r['left']:
                if stop:
                    self.incomplete.append('%s/%s' % k)
                    continue
                left = r['left']
                n = max(1, min(WORKERS, len(left)))
                chunks = [left[i::n] for i in range(n)]
                for ch in chunks:
                    room = want[k] - len(d['wits'])
                    tq.put((k[0], k[1], mode[k[1]], ch, self.seed, max(0, min(3, room))))
                    out += 1
            if self.confirmed:
                break
        for p in procs:
            p.terminate()
        for p in procs:
            p.join(2)
            if p.is_alive():
                p.kill()

    def abandoned(self, w, k):
        """a path without verdict: run the last input point the solver was asked about on the real code"""
        try:
            with open(os.path.join(self.wd, 'snap.%d' % w), 'rb') as f:
                key, ci, eps = pickle.load(f)
        except Exception:
            return
        if key[:2] != tuple(k):
            return
        self.candidate({'cfg': key[0], 'entry': key[1], 'mode': key[2], 'kind': 'hang', 'msg': 'path abandoned, a solver call did not return',
                        'alts': [ci], 'tight': key[2] == 'real' and eps > 0})

    # ------------------------------------------------------------------ counterexamples
    def candidate(self, c):
        if c['kind'] == 'undecided':
            self.undecided.append(c)
        key = (c['cfg'], c['entry'], c['kind'], c['msg'])
        n = self.seen.get(key, 0)
        self.seen[key] = n + 1
        if n >= 8 or self.confirmed:
            return
        kf = self.match_known(c)
        for alt in c['alts']:
            how = self.replay(c, alt)
            if how:
                if kf is not None:
                    if kf not in self.known:
                        self.known.append(kf)
                    return
                self.confirm(c, alt, how)
                return
        self.unconfirmed.append(c)

    def replay(self, c, alt):
        cfg, kind = c['cfg'], c['kind']
        b = self.native(cfg)
        if b is None:
            self.errs.append('native build failed (%s):\n%s' % (cfg, getattr(self, 'natlog', '')[-2000:]))
            return None
        text = case_text(c['entry'], alt)
        tries = [{}]
        if kind == 'leak':
            tries = [{'VF_LEAK': '1'}]
        if cfg.startswith('omp'):
            tries = [{'OMP_NUM_THREADS': t} for t in ('1', '2', '3', '4', '7', '64')] + \
                [{'OMP_NUM_THREADS': t, 'VF_NESTED': '1'} for t in ('2', '3', '4', '64')]
        if kind == 'hang':
            tries = [dict(t, VF_TOL='2e3') for t in tries]   # no verdict of the solver: only gross differences count
        if kind == 'uninit':
            tries = [{'VF_FILL': '255'}, {'VF_FILL': '65'}, {'VF_FILL': '1'}]
        if c.get('tight'):
            # the path rounds a double to single precision: replay with the tolerance of double arithmetic
            tries = [dict(t, VF_TOL='1e-3') for t in tries]
        for env in tries:
            rc, out, err = run_native(b, text, self.wd, timeout=40, **env)
            how = judge(rc, out, err)
            if how:
                return ('native run' + (' with %s' % env if env else '') + ': ' + how)
        if kind in ('memory', 'abort', 'ub', 'arith', 'uninit'):
            sb = self.native(cfg, 'address')
            if sb:
                for env in ([{}] if not cfg.startswith('omp') else tries):
                    rc, out, err = run_native(sb, text, self.wd, timeout=60, **env)
                    how = judge(rc, out, err)
                    if how:
                        return 'sanitizer run: ' + how
        if kind == 'uninit':
            f = tempfile.NamedTemporaryFile('w', suffix='.case', dir=self.wd, delete=False)
            f.write(text)
            f.close()
            try:
                r = subprocess.run(['valgrind', '-q', '--show-mismatched-frees=no', b, f.name], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=120, text=True, env=nat_env(VF_NOFORK='1', VF_ALARM='0'))
                if 'uninitialised' in r.stderr:
                    return 'valgrind: use of uninitialised value'
            except Exception:
                pass
            finally:
                os.unlink(f.name)
        if kind == 'race':
            tb = self.native(cfg, 'thread')
            if tb:
                for i in range(6):
                    rc, out, err = run_native(tb, text, self.wd, timeout=60)
                    if 'ThreadSanitizer: data race' in err:
                        return 'ThreadSanitizer: data race in the native build'
                    how = judge(rc, out, err)
                    if how:
                        return 'threaded native run: ' + how
        return None

    def match_known(self, c):
        for k in self.kf:
            if k.get('entry') not in (None, c['entry']):
                continue
            if k.get('cfg') and c['cfg'] not in k['cfg']:
                continue
            if k.get('kind') and c['kind'] != k['kind']:
                continue
            if k.get('msg') and not re.search(k['msg'], c['msg']):
                continue
            return k
        return None

    def confirm(self, c, alt, how):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, '%s.replay' % self.pid)
        with open(rp, 'w') as f:
            f.write('# property %s\n# tier %s\n# configuration %s (%s)\n# harness entry %s in harness/%s.cc\n# kind %s\n# %s\n# %s\n'
                    '# replay: /verif/replay.sh %s\n%s' % (
                        self.pid, self.tier, c['cfg'], CFG_TEXT[c['cfg']], c['entry'], self.pid, c['kind'], c['msg'].replace('\n', ' '),
                        how.replace('\n', ' ')[:500], rp, '# rounding tight\n' if c.get('tight') else ''))
            f.write(case_text(c['entry'], alt))
        self.confirmed.append({'cfg': c['cfg'], 'entry': c['entry'], 'kind': c['kind'], 'msg': c['msg'], 'native': how,
                               'inputs': fmt_inputs(alt), 'replay': rp})

    # ------------------------------------------------------------------ end
    def validate_witnesses(self):
        """replay one witness of every sampled path on the native build: agreement of encoder and real code"""
        agree = prune = dis = 0
        jobs = {}
        for (c, e), d in self.per.items():
            if d['wits']:
                jobs.setdefault(c, []).extend((e, w) for w in d['wits'])
        for c, lst in jobs.items():
            b = self.native(c)
            if b is None:
                self.errs.append('native build failed (%s):\n%s' % (c, getattr(self, 'natlog', '')[-2000:]))
                continue
            text = ''.join(case_text(e, w) for e, w in lst)
            rc, out, err = run_native(b, text, self.wd, timeout=300)
            lines = out.splitlines()
            st = {}
            for ln in lines:
                p = ln.split('\t')
                if p[0].isdigit():
                    st[int(p[0])] = p[1:]
            for i, (e, w) in enumerate(lst):
                s = st.get(i)
                if s is None:
                    dis += 1
                    self.errs.append('witness run produced no result (%s/%s)' % (c, e))
                elif s[0] == 'ok':
                    agree += 1
                elif s[0] in ('prune', 'short'):
                    prune += 1
                else:
                    # reproduce, with a loose tolerance, before believing it
                    r2 = run_native(b, case_text(e, w), self.wd, timeout=40, VF_TOL='2e3')
                    how = judge(*r2)
                    if how:
                        cd = {'cfg': c, 'entry': e, 'kind': 'native', 'msg': 'native run of a witness path fails: ' +
                              ' '.join(s[:2]), 'alts': [w]}
                        kf = self.match_known(cd)
                        if kf:
                            if kf not in self.known:
                                self.known.append(kf)
                        elif not self.confirmed:
                            self.confirm(cd, w, how)
                        dis += 1
                    else:
                        prune += 1
        self.wit = {'agree': agree, 'rounding_or_assumption_skips': prune, 'disagree': dis}

    def finish(self):
        self.wit = {'agree': 0, 'rounding_or_assumption_skips': 0, 'disagree': 0}
        if not self.confirmed:
            self.validate_witnesses()
        rc = 0
        vac = [k for k, d in self.per.items() if d['ok'] == 0 and d['cands'] == 0]
        if self.confirmed:
            rc = 1
        elif self.errs:
            rc = 2
        elif vac:
            self.errs.append('no path of %s reached its end (vacuous)' % vac[:5])
            rc = 2
        for k in self.known:
            self.log('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for e in self.errs[:8]:
            self.log('ENGINE:', e)
        for e in sorted(set(self.skipped))[:8]:
            self.log('note: path not encodable, left out:', e)
        for c in self.unconfirmed[:6]:
            self.log('note: candidate not reproduced natively: %s/%s %s: %s' % (c['cfg'], c['entry'], c['kind'], c['msg']))
            if self.verbose:
                for a in c['alts'][:2]:
                    self.log('    ', fmt_inputs(a)[:12])
        for c in self.confirmed:
            self.log('counterexample: %s/%s [%s] %s -- %s' % (c['cfg'], c['entry'], c['kind'], c['msg'], c['native']))
            self.log('VIOLATION property=%s replay=%s' % (self.pid, c['replay']))
        self.write_evidence(rc)
        t = self.stats
        self.log('%s %s: %s paths=%d obligations=%d queries=%d solver=%.1fs witnesses=%d wall=%.1fs' % (
            self.pid, self.tier, {0: 'held', 1: 'VIOLATED', 2: 'inconclusive'}[rc], sum(d['paths'] for d in self.per.values()),
            t.get('obligations', 0), t.get('solver_calls', 0), t.get('solver_s', 0), self.wit['agree'], time.time() - self.t0))
        if self.verbose:
            for d in sorted(self.per.values(), key=lambda d: -d['insns'])[:60]:
                self.log('   %-9s %-34s paths=%-6d ok=%-6d pruned=%-5d insns=%-9d wits=%d' % (
                    d['cfg'], d['entry'], d['paths'], d['ok'], d['pruned'], d['insns'], len(d['wits'])))
            self.log('  ', {k: round(v, 1) if isinstance(v, float) else v for k, v in self.stats.items()}, self.wit)
        shutil.rmtree(self.wd, ignore_errors=True)
        return rc

    def write_evidence(self, rc):
        names = sorted(self.funcs)
        dm = []
        if names:
            try:
                r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), stdout=subprocess.PIPE,
                                   text=True, timeout=30)
                dm = r.stdout.splitlines()
            except Exception:
                dm = names
        lib = sorted({x for x in dm if 'lalib::' in x or '_core' in x or 'orth::' in x})
        short = sorted({re.sub(r'\(.*', '', x)[:160] for x in lib})
        samples = []
        for d in self.per.values():
            for w in d['wits'][:1]:
                if len(samples) < 12:
                    samples.append({'cfg': d['cfg'], 'entry': d['entry'], 'path_witness': fmt_inputs(w)[:24]})
        paths = sum(d['paths'] for d in self.per.values())
        t = self.stats
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': paths, 'transitions': sum(d['insns'] for d in self.per.values()),
                'traces_validated_against_impl': self.wit['agree'] + self.wit['disagree'],
                'samples': samples,
                'exhaustive': bool(rc == 0 and not getattr(self, 'incomplete', []) and not self.undecided
                                   and not self.skipped and not self.unconfirmed),
                'paths_completed': sum(d['ok'] for d in self.per.values()),
                'obligations': t.get('obligations', 0),
                'solver_queries': t.get('solver_calls', 0),
                'solver_time_s': round(t.get('solver_s', 0.0), 3),
                'discharged_by_identical_terms': t.get('structural', 0), 'discharged_by_rational_normal_form': t.get('nf', 0),
                'undecided_obligations': len(self.undecided),
                'functions_encoded': short, 'functions_encoded_total': len(names),
                'configurations': [CFG_TEXT[c] for c in self.cfgs],
                'entries': [{'cfg': d['cfg'], 'entry': d['entry'], 'domain': d['mode'], 'paths': d['paths'], 'completed': d['ok'],
                             'assumption_pruned': d['pruned'], 'ir_instructions': d['insns'], 'max_symbolic_inputs': d['inputs'],
                             'reached': d['reached']} for d in self.per.values()],
                'bounds': self.h.bounds, 'outside_the_bounds': self.h.outside,
                'witness_replay': self.wit,
                'unconfirmed_candidates': [{'cfg': c['cfg'], 'entry': c['entry'], 'kind': c['kind'], 'msg': c['msg']}
                                           for c in self.unconfirmed[:20]],
                'incomplete': sorted(set(getattr(self, 'incomplete', []))),
                'engine_errors': self.errs[:10], 'paths_not_encodable': sorted(set(self.skipped))[:20],
                'known_findings': [k['what'] for k in self.known],
            },
            'assumptions': BASE_ASSUME + self.h.assume,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': [{'cfg': c['cfg'], 'entry': c['entry'], 'kind': c['kind'], 'message': c['msg'], 'native': c['native'],
                            'inputs': c['inputs'], 'replay': c['replay']} for c in self.confirmed],
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


BASE_ASSUME = [
    'entries in domain "real": element values range over all real numbers allowed by the stated preconditions and arithmetic '
    'is exact (no rounding, overflow or underflow); division by zero yields IEEE Inf/NaN; entries in domain "ieee": all bit '
    'patterns, IEEE-754 round-to-nearest arithmetic',
    'clang 18 translation of the headers at -O1 without optimisation passes, then sroa/instsimplify/simplifycfg',
    'allocation of less than 2 GiB succeeds; exception message formatting is stubbed',
]


def fmt_inputs(a):
    return [('%r' % x[1]) if x[0] != 'b' else '0x%x' % x[1] for x in a]


def judge(rc, out, err):
    """failure description or None"""
    if rc == -999:
        return 'does not terminate (timeout)'
    if 'AddressSanitizer' in err:
        m = re.search(r'AddressSanitizer: ([\w-]+)', err)
        return 'AddressSanitizer: ' + (m.group(1) if m else '?')
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'UBSan: ' + m.group(1)[:200]
    for ln in out.splitlines():
        p = ln.split('\t')
        if len(p) >= 2 and p[0].isdigit():
            if p[1] == 'fail':
                return 'check failed: ' + ' '.join(p[2:5])
            if p[1] == 'signal':
                return 'does not terminate (alarm)' if p[2] == '14' else 'killed by signal ' + p[2]
            if p[1] == 'exit':
                return 'exit status ' + p[2]
    return None


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k.get('property') == pid]


def replay_file(path):
    """run a recorded counterexample against the library as it is now; 1 if it still fails"""
    text = open(path).read()
    hd = dict(re.findall(r'^# (property|tier|configuration|kind|rounding) (\S+)', text, re.M))
    if hd['kind'] == 'compile':
        print(text)
        c = Check(hd['property'], hd['tier'], False)
        ok = c.native(hd['configuration']) is not None
        print('compiles now' if ok else c.natlog[-3000:])
    else:
        ent = re.search(r'^E (\S+)', text, re.M).group(1)
        alt = []
        for ln in text.splitlines():
            p = ln.split()
            if p and p[0] == 'r':
                alt.append(('r', float.fromhex(p[1])))
            elif p and p[0] == 'u':
                alt.append(('u', int(p[1])))
            elif p and p[0] == 'b':
                alt.append(('b', int(p[1], 16), int(p[2])))
        c = Check(hd['property'], hd['tier'], False)
        how = c.replay({'cfg': hd['configuration'], 'kind': hd['kind'], 'entry': ent, 'tight': hd.get('rounding') == 'tight'}, alt)
        ok = not how
        print('inputs: %s' % fmt_inputs(alt))
        print('does not fail on this tree' if ok else 'fails: ' + how)
    shutil.rmtree(c.wd, ignore_errors=True)
    return 0 if ok else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay_file(sys.argv[2]))
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    c = Check(a.pid, a.tier, a.v)
    try:
        rc = c.run()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
