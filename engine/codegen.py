"""LLVM IR function -> Python function (executed by the symbolic runtime in rt.py)."""
from fractions import Fraction
import ir

M = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}


class Gen:
    def __init__(self, mod, rt):
        self.mod = mod
        self.rt = rt
        self.G = rt.G
        self.names = {}
        self.consts = 0
        self.constmap = {}

    # ---------------------------------------------------------------- naming
    def fname(self, f):
        n = self.names.get(f)
        if n is None:
            n = 'F%d' % len(self.names)
            self.names[f] = n
            self.G[n] = self.placeholder(f, n)
        return n

    def placeholder(self, f, n):
        def stub(*args):
            fn = self.resolve(f)
            self.G[n] = fn
            return fn(*args)
        return stub

    def resolve(self, f):
        """f is '@name'"""
        name = f[1:].strip('"')
        ov = self.rt.override(name)
        if ov is not None:
            return ov
        if f in self.mod.aliases:
            a = self.mod.aliases[f]
            if a[0] == 'glob':
                return self.resolve(a[1])
        fn = self.mod.functions.get(f)
        if fn is not None:
            return self.compile(fn)
        ex = self.rt.extern(name)
        if ex is None:
            raise ir.IRError('call of unmodelled external function ' + name)
        return ex

    # ---------------------------------------------------------------- constants
    def pool(self, val):
        n = 'K%d' % self.consts
        self.consts += 1
        self.G[n] = val
        return n

    def fpconst(self, v, ty):
        key = ('fp', repr(v), ty.k)
        n = self.constmap.get(key)
        if n is None:
            n = self.constmap[key] = 'C%d' % len(self.constmap)
            self.rt.fpconsts[n] = (v, ty.k)
            self.G[n] = self.rt.fp_const(v, ty.k)
        return n

    def val(self, v, ty):
        k = v[0]
        if k == 'loc':
            return self.loc(v[1])
        if k == 'int':
            if ty.k == 'int' and ty.w == 1:
                return 'True' if v[1] else 'False'
            return str(v[1])
        if k == 'null':
            return '0'
        if k == 'fp':
            return self.fpconst(v[1], ty)
        if k == 'glob':
            return '%d' % self.rt.global_addr(v[1])
        if k == 'gepc':
            b = self.val(v[2], ir.PTR)
            return '%d' % ((int(b) + v[1]) & M[64])
        if k == 'undef':
            if ty.k in ('struct', 'arr', 'vec'):
                return self.undef(ty)
            return 'UNDEF'
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return '(' + ''.join(self.val(x, t) + ',' for t, x in v[2]) + ')'
        raise ir.IRError('value %r' % (v,))

    def undef(self, ty):
        if ty.k == 'struct':
            return '(' + ''.join(self.undef(t) + ',' for t in ty.elems) + ')'
        if ty.k in ('arr', 'vec'):
            return '(' + (self.undef(ty.elem) + ',') * ty.n + ')'
        return 'UNDEF'

    def zero(self, ty):
        if ty.k == 'struct':
            return '(' + ''.join(self.zero(t) + ',' for t in ty.elems) + ')'
        if ty.k in ('arr', 'vec'):
            return '(' + (self.zero(ty.elem) + ',') * ty.n + ')'
        if ty.k in ('double', 'float'):
            return self.fpconst(Fraction(0), ty)
        if ty.k == 'int' and ty.w == 1:
            return 'False'
        return '0'

    def loc(self, n):
        d = self.lmap
        x = d.get(n)
        if x is None:
            x = d[n] = 'v%d' % len(d)
        return x

    # ---------------------------------------------------------------- function
    def compile(self, fn):
        ir.parse_body(fn, self.mod)
        self_l = getattr(self, 'lmap', None)
        saved = self.__dict__.get('state')
        self.lmap = {}
        out = []
        order = fn.order
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: 0 for b in order}
        for b in order:
            t = fn.blocks[b][-1]
            for s in succs(t):
                preds[s] += 1
        phis = {}
        for b in order:
            ph = []
            for ins in fn.blocks[b]:
                if ins.op == 'phi':
                    ph.append(ins)
                else:
                    break
            phis[b] = ph
        params = []
        for i, (t, nm) in enumerate(fn.params):
            params.append(self.loc(nm if nm is not None else '%' + str(i)))
        has_alloca = any(ins.op == 'alloca' for b in order for ins in fn.blocks[b])
        emitted = set()
        need = [order[0]]
        bodies = {}
        self.cur = (fn, idx, preds, phis)

        def emit_block(b, ind, depth, from_):
            """emit instructions of b (phis already assigned) ; terminator transfers control"""
            L = []
            insts = fn.blocks[b]
            L.append(ind + 'X.n += %d' % len(insts))
            for ins in insts:
                if ins.op == 'phi':
                    continue
                self.inst(ins, b, ind, depth, L, goto)
            return L

        def goto(src, dst, ind, depth):
            """code for an edge"""
            L = []
            ph = phis[dst]
            if ph:
                tg = []
                vs = []
                for p_ in ph:
                    for v, pb in p_.a[0]:
                        if pb == src:
                            tg.append(self.loc(p_.res))
                            vs.append(self.val(v, p_.ty))
                            break
                    else:
                        raise ir.IRError('phi without predecessor')
                if len(tg) == 1:
                    if tg[0] != vs[0]:
                        L.append(ind + '%s = %s' % (tg[0], vs[0]))
                else:
                    L.append(ind + '%s = %s' % (', '.join(tg), ', '.join(vs)))
            if preds[dst] == 1 and depth < 12 and dst != order[0]:
                L.extend(emit_block(dst, ind, depth, src))
            else:
                if dst not in emitted:
                    emitted.add(dst)
                    need.append(dst)
                L.append(ind + 'b = %d' % idx[dst])
                L.append(ind + 'continue')
            return L

        emitted.add(order[0])
        while need:
            b = need.pop()
            bodies[b] = None
            bodies[b] = b
        # second pass to really emit with final indentation
        emitted.clear()
        emitted.add(order[0])
        need = [order[0]]
        done = {}
        while need:
            b = need.pop()
            done[idx[b]] = emit_block(b, '', 0, None)
        base = '        ' if has_alloca else '    '
        out.append('def %s(%s):' % ('fn', ', '.join(params)))
        if has_alloca:
            out.append('    A = []')
            out.append('    try:')
        ids = sorted(done)
        if len(ids) == 1 and not any(('continue' in l) for l in done[ids[0]]):
            out.extend(base + l for l in done[ids[0]])
        else:
            out.append(base + 'b = %d' % idx[order[0]])
            out.append(base + 'while True:')
            self.dispatch(out, ids, done, base + ' ')
        if has_alloca:
            out.append('    finally:')
            out.append('        for o in A: o.alive = False')
        src = '\n'.join(out)
        self.lmap = self_l
        ns = self.G
        try:
            code = compile(src, '<ir:%s>' % fn.name, 'exec')
        except (SyntaxError, IndentationError, RecursionError) as e:
            raise ir.IRError('codegen %s: %s\n%s' % (fn.name, e, src[:2000]))
        loc = {}
        exec(code, ns, loc)
        f = loc['fn']
        self.rt.compiled[fn.name] = len(order)
        return f

    def dispatch(self, out, ids, done, ind):
        if len(ids) == 1:
            out.extend(ind + l for l in done[ids[0]])
            return
        if len(ids) <= 3:
            for k, i in enumerate(ids):
                if k == len(ids) - 1:
                    out.append(ind + 'else:')
                else:
                    out.append(ind + ('if' if k == 0 else 'elif') + ' b == %d:' % i)
                out.extend(ind + ' ' + l for l in done[i])
            return
        mid = len(ids) // 2
        out.append(ind + 'if b < %d:' % ids[mid])
        self.dispatch(out, ids[:mid], done, ind + ' ')
        out.append(ind + 'else:')
        self.dispatch(out, ids[mid:], done, ind + ' ')

    # ---------------------------------------------------------------- instructions
    def inst(self, I, blk, ind, depth, L, goto):
        op = I.op
        r = self.loc(I.res) if I.res else None
        w = L.append

        def v(x, t):
            return self.val(x, t)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            a, b = v(I.a[0], I.ty), v(I.a[1], I.ty)
            if I.ty.k != 'int':
                raise ir.IRError('vector int op ' + I.text)
            bits = I.ty.w
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            if bits == 1:
                w(ind + '%s = bool1(%r, %s, %s)' % (r, op, a, b))
            elif op in ('and', 'or', 'xor'):
                w(ind + '%s = %s %s %s' % (r, a, sym, b))
            else:
                w(ind + '%s = (%s %s %s) & %d' % (r, a, sym, b, M[bits] if bits in M else (1 << bits) - 1))
        elif op in ('udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
            a, b = v(I.a[0], I.ty), v(I.a[1], I.ty)
            w(ind + '%s = i%s(%s, %s, %d)' % (r, op, a, b, I.ty.w))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = v(I.a[0], I.ty), v(I.a[1], I.ty)
            if I.ty.k == 'vec':
                w(ind + '%s = tuple(map(%s, %s, %s))' % (r, op, a, b))
            else:
                w(ind + '%s = %s(%s, %s)' % (r, op, a, b))
        elif op == 'fneg':
            if I.ty.k == 'vec':
                w(ind + '%s = tuple(map(fneg, %s))' % (r, v(I.a[0], I.ty)))
            else:
                w(ind + '%s = fneg(%s)' % (r, v(I.a[0], I.ty)))
        elif op == 'icmp':
            pred, t, x, y = I.a
            a, b = v(x, t), v(y, t)
            bits = 64 if t.k == 'ptr' else t.w if t.k == 'int' else None
            if bits is None:
                raise ir.IRError('vector icmp ' + I.text)
            if bits == 1:
                w(ind + '%s = icmp1(%r, %s, %s)' % (r, pred, a, b))
            elif pred in ('eq', 'ne'):
                w(ind + '%s = %s %s %s' % (r, a, '==' if pred == 'eq' else '!=', b))
            else:
                p = {'t': '<', 'e': '<='}[pred[2]] if pred[1] == 'l' else {'t': '>', 'e': '>='}[pred[2]]
                tests = ' is '.join(['%s.__class__' % z for z in (a, b) if not z.isdigit()] + ['int'])
                ca, cb = a, b
                if pred[0] == 's':
                    s = 1 << (bits - 1)
                    ca = str(int(a) ^ s) if a.isdigit() else '(%s ^ %d)' % (a, s)
                    cb = str(int(b) ^ s) if b.isdigit() else '(%s ^ %d)' % (b, s)
                if a.isdigit() and b.isdigit():
                    w(ind + '%s = %s %s %s' % (r, ca, p, cb))
                else:
                    w(ind + '%s = (%s %s %s) if %s else icmp(%r, %s, %s, %d)' % (r, ca, p, cb, tests, pred, a, b, bits))
        elif op == 'fcmp':
            pred, t, x, y = I.a
            w(ind + '%s = fcmp(%r, %s, %s)' % (r, pred, v(x, t), v(y, t)))
        elif op == 'load':
            w(ind + '%s = %s' % (r, self.load(I.ty, v(I.a[0], ir.PTR))))
        elif op == 'store':
            self.store(I.ty, v(I.a[0], I.ty), v(I.a[1], ir.PTR), ind, L)
        elif op == 'alloca':
            n = I.a[0]
            nv = v(n, ir.INT(64))
            w(ind + '%s = alloca(A, %s * %d, %r)' % (r, nv, I.ty.size(), I.res))
        elif op == 'gep':
            base, idx = I.a
            e = v(base, ir.PTR)
            off = 0
            parts = []
            cur = I.ty
            first = True
            for it, iv in idx:
                if first:
                    sz = cur.size()
                    first = False
                elif cur.k == 'struct':
                    x = iv[1]
                    off += cur.offs()[x]
                    cur = cur.elems[x]
                    continue
                else:
                    cur = cur.elem
                    sz = cur.size()
                if iv[0] == 'int':
                    x = iv[1]
                    if x >> (it.w - 1):
                        x -= 1 << it.w
                    off += x * sz
                else:
                    s = v(iv, it)
                    if it.w != 64:
                        s = 'isext(%s, %d, 64)' % (s, it.w)
                    parts.append(s if sz == 1 else '%s * %d' % (s, sz))
            if not parts and off == 0:
                w(ind + '%s = %s' % (r, e))
            elif e.isdigit() and not parts:
                w(ind + '%s = %d' % (r, (int(e) + off) & M[64]))
            else:
                ex = ' + '.join([e] + parts)
                if off > 0:
                    ex += ' + %d' % off
                elif off < 0:
                    ex += ' - %d' % -off
                w(ind + '%s = (%s) & %d' % (r, ex, M[64]))
        elif op in ir.CASTS:
            t, x = I.a
            a = v(x, t)
            d = I.ty
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                if op == 'bitcast' and t.k != d.k:
                    w(ind + '%s = bitcast(%s, %r, %r)' % (r, a, t.k, d.k))
                else:
                    w(ind + '%s = %s' % (r, a))
            elif op == 'trunc':
                if d.w == 1:
                    w(ind + '%s = itrunc1(%s)' % (r, a))
                else:
                    w(ind + '%s = (%s & %d) if %s.__class__ is int else itrunc(%s, %d, %d)' % (
                        r, a, (1 << d.w) - 1, a, a, t.w, d.w) if not a.isdigit() else ind + '%s = %d' % (r, int(a) & ((1 << d.w) - 1)))
            elif op == 'zext':
                if t.w == 1:
                    w(ind + '%s = izext1(%s, %d)' % (r, a, d.w))
                else:
                    w(ind + '%s = %s if %s.__class__ is int else izext(%s, %d, %d)' % (r, a, a, a, t.w, d.w)
                      if not a.isdigit() else ind + '%s = %s' % (r, a))
            elif op == 'sext':
                w(ind + '%s = isext(%s, %d, %d)' % (r, a, t.w, d.w))
            elif op in ('fptrunc', 'fpext'):
                w(ind + '%s = %s(%s)' % (r, op, a))
            elif op in ('fptoui', 'fptosi'):
                w(ind + '%s = %s(%s, %d)' % (r, op, a, d.w))
            elif op in ('uitofp', 'sitofp'):
                w(ind + '%s = %s(%s, %d, %r)' % (r, op, a, t.w, d.k))
        elif op == 'select':
            c, x, y = I.a
            if c[0] == 'loc' or c[0] == 'int':
                w(ind + '%s = select(%s, %s, %s)' % (r, v(c, ir.INT(1)), v(x, I.ty), v(y, I.ty)))
            else:
                raise ir.IRError('select ' + I.text)
        elif op == 'extractvalue':
            x, ix = I.a
            w(ind + '%s = %s%s' % (r, v(x, I.ty), ''.join('[%d]' % i for i in ix)))
        elif op == 'insertvalue':
            x, et, ev, ix = I.a
            w(ind + '%s = insval(%s, %s, %r)' % (r, v(x, I.ty), v(ev, et), tuple(ix)))
        elif op == 'extractelement':
            x, i = I.a
            w(ind + '%s = %s[%s]' % (r, v(x, I.ty), v(i, ir.INT(64))))
        elif op == 'insertelement':
            x, ev, i = I.a
            w(ind + '%s = insval(%s, %s, (%s,))' % (r, v(x, I.ty), v(ev, I.ty.elem), v(i, ir.INT(64))))
        elif op == 'shufflevector':
            x, y, mt, m = I.a
            w(ind + '%s = shuffle(%s, %s, %s)' % (r, v(x, I.ty), v(y, I.ty), v(m, mt)))
        elif op == 'freeze':
            w(ind + '%s = %s' % (r, v(I.a[0], I.ty)))
        elif op == 'call':
            e = self.callexpr(I)
            if e is not None:
                w(ind + (('%s = ' % r) if r else '') + e)
        elif op == 'invoke':
            e = self.callexpr(I) or 'None'
            w(ind + 'try:')
            w(ind + ' ' + (('%s = ' % r) if r else '') + e)
            w(ind + 'except CxxThrow as e_:')
            w(ind + ' X.exc = e_')
            L.extend(goto(blk, I.a[3], ind + ' ', depth + 1))
            L.extend(goto(blk, I.a[2], ind, depth))
        elif op == 'landingpad':
            cleanup, cl = I.a
            cs = []
            for k, x in cl:
                if k == 'filter':
                    cs.append("('filter', 0)")
                else:
                    cs.append('(%r, %s)' % (k, v(x, ir.PTR)))
            w(ind + '%s = landingpad(%r, (%s))' % (r, cleanup, ''.join(c + ',' for c in cs)))
        elif op == 'resume':
            w(ind + 'resume(%s)' % v(I.a[0], I.ty))
        elif op == 'br':
            L.extend(goto(blk, I.a[0], ind, depth))
        elif op == 'cbr':
            c, x, y = I.a
            if x == y:
                L.extend(goto(blk, x, ind, depth))
            else:
                cv = v(c, ir.INT(1))
                w(ind + 'if %s if %s.__class__ is bool else cond(%s):' % (cv, cv, cv))
                L.extend(goto(blk, x, ind + ' ', depth + 1))
                w(ind + 'else:')
                L.extend(goto(blk, y, ind + ' ', depth + 1))
        elif op == 'switch':
            c, d, cases = I.a
            w(ind + 's_ = swval(%s, %r, %d)' % (v(c, I.ty), tuple(k for k, _ in cases), I.ty.w))
            first = True
            for k, lab in cases:
                w(ind + ('if' if first else 'elif') + ' s_ == %d:' % k)
                first = False
                L.extend(goto(blk, lab, ind + ' ', depth + 1))
            if first:
                L.extend(goto(blk, d, ind, depth))
            else:
                w(ind + 'else:')
                L.extend(goto(blk, d, ind + ' ', depth + 1))
        elif op == 'ret':
            if I.a[0] is None:
                w(ind + 'return')
            else:
                w(ind + 'return ' + v(I.a[0], I.ty))
        elif op == 'unreachable':
            w(ind + 'unreachable()')
            w(ind + 'return')
        elif op == 'nop':
            pass
        elif op == 'atomicrmw':
            k, p, x = I.a
            w(ind + '%s = atomicrmw(%r, %s, %s, %d, %r)' % (r, k, v(p, ir.PTR), v(x, I.ty), I.ty.size(), I.ty.k))
        elif op == 'cmpxchg':
            p, c, x = I.a
            w(ind + '%s = cmpxchg(%s, %s, %s, %d)' % (r, v(p, ir.PTR), v(c, I.ty), v(x, I.ty), I.ty.size()))
        else:
            raise ir.IRError('codegen ' + I.text)

    def load(self, t, p):
        if t.k in ('double', 'float'):
            return 'loadf(%s, %d)' % (p, t.size())
        if t.k == 'int' and t.w == 1:
            return 'itrunc1(load(%s, 1))' % p
        if t.k in ('int', 'ptr'):
            return 'load(%s, %d)' % (p, t.size())
        if t.k == 'struct':
            return '(' + ''.join(self.load(e, self.addp(p, o)) + ',' for e, o in zip(t.elems, t.offs())) + ')'
        if t.k in ('arr', 'vec'):
            s = t.elem.size()
            return '(' + ''.join(self.load(t.elem, self.addp(p, i * s)) + ',' for i in range(t.n)) + ')'
        raise ir.IRError('load of %r' % t)

    @staticmethod
    def addp(p, o):
        if o == 0:
            return p
        return str(int(p) + o) if p.isdigit() else '(%s + %d)' % (p, o)

    def store(self, t, val, p, ind, L):
        if t.k in ('double', 'float', 'ptr') or (t.k == 'int' and t.w != 1):
            L.append(ind + 'store(%s, %d, %s)' % (p, t.size(), val))
        elif t.k == 'int':
            L.append(ind + 'store(%s, 1, izext1(%s, 8))' % (p, val))
        elif t.k == 'struct':
            for i, (e, o) in enumerate(zip(t.elems, t.offs())):
                self.store(e, '%s[%d]' % (val, i), self.addp(p, o), ind, L)
        elif t.k in ('arr', 'vec'):
            s = t.elem.size()
            for i in range(t.n):
                self.store(t.elem, '%s[%d]' % (val, i), self.addp(p, i * s), ind, L)
        else:
            raise ir.IRError('store of %r' % t)

    def callexpr(self, I):
        cv, args, _, _ = I.a
        if cv[0] == 'glob':
            nm = cv[1]
            s = nm[1:]
            if s.startswith(('llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.donothing', 'llvm.assume',
                             'llvm.prefetch')):
                return None
            if s.startswith('llvm.'):
                return self.intrinsic(s, I, args)
            if nm in ('@__kmpc_fork_call', '@__kmpc_fork_teams'):
                pass
            return '%s(%s)' % (self.fname(nm), ', '.join(self.val(v, t) for t, v in args))
        f = self.val(cv, ir.PTR)
        return 'icall(%s, %s)' % (f, ', '.join(self.val(v, t) for t, v in args))

    def intrinsic(self, s, I, args):
        a = [self.val(v, t) for t, v in args]
        base = s.split('.')
        n = base[1]
        if n == 'lifetime':
            return 'lifetime_%s(%s, %s)' % (base[2], a[0], a[1])
        if n in ('memcpy', 'memmove', 'memset'):
            return '%s(%s, %s, %s)' % (n, a[0], a[1], a[2])
        if n == 'eh' and base[2] == 'typeid':
            return 'typeid_for(%s)' % a[0]
        if n in ('umax', 'umin', 'smax', 'smin'):
            return 'minmax(%r, %s, %s, %d)' % (n, a[0], a[1], I.ty.w)
        if n in ('usub', 'uadd', 'sadd', 'ssub') and base[2] == 'sat':
            return 'satop(%r, %s, %s, %d)' % (n, a[0], a[1], I.ty.w)
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and base[2] == 'with':
            return 'ovop(%r, %s, %s, %d)' % (n, a[0], a[1], args[0][0].w)
        if n in ('ctlz', 'cttz', 'ctpop', 'bswap'):
            return 'bitop(%r, %s, %d)' % (n, a[0], I.ty.w)
        if n == 'abs':
            return 'iabs(%s, %d)' % (a[0], I.ty.w)
        if n in ('fshl', 'fshr'):
            return '%s(%s, %s, %s, %d)' % (n, a[0], a[1], a[2], I.ty.w)
        if n == 'fabs':
            return 'fabs_(%s)' % a[0]
        if n == 'sqrt':
            return 'fsqrt(%s)' % a[0]
        if n in ('fmuladd', 'fma'):
            return 'fmuladd(%s, %s, %s)' % (a[0], a[1], a[2])
        if n in ('minnum', 'maxnum', 'minimum', 'maximum'):
            return 'fminmax(%r, %s, %s)' % (n, a[0], a[1])
        if n == 'pow':
            return 'fpow(%s, %s)' % (a[0], a[1])
        if n == 'powi':
            return 'fpowi(%s, %s)' % (a[0], a[1])
        if n == 'copysign':
            return 'fcopysign(%s, %s)' % (a[0], a[1])
        if n == 'is' and base[2] == 'constant':
            return 'False'
        if n == 'is' and base[2] == 'fpclass':
            return 'fpclass(%s, %s)' % (a[0], a[1])
        if n == 'expect':
            return a[0]
        if n in ('objectsize',):
            return str((1 << 64) - 1)
        if n == 'stacksave':
            return '0'
        if n == 'stackrestore':
            return None
        if n == 'trap':
            return 'trap()'
        if n == 'launder' or n == 'strip':
            return a[0]
        if n == 'threadlocal':
            return a[0]
        if n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            return 'fround_(%r, %s)' % (n, a[0])
        raise ir.IRError('intrinsic ' + s)


def succs(t):
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'cbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == 'invoke':
        return [t.a[2], t.a[3]]
    return []
