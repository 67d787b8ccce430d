"""Parser for the subset of textual LLVM 18 IR that clang emits for lalib.

The result is a plain object model (Module / Function / Block / Inst) that
codegen.py turns into executable Python.  Anything that is not understood
raises IRError: an unknown construct is never silently skipped.
"""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<cstr>c"(?:[^"])*")
  | (?P<local>%(?:"[^"]*"|[-\w.$]+))
  | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
  | (?P<meta>!(?:"[^"]*"|[-\w.$]*))
  | (?P<attr>\#\d+)
  | (?P<comdat>\$(?:"[^"]*"|[-\w.$]+))
  | (?P<str>"[^"]*")
  | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<ell>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        ch = s[pos]
        if ch in ' \t\n':
            pos += 1
            continue
        if ch == ';':
            e = s.find('\n', pos)
            pos = n if e < 0 else e
            continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ('k', 'w', 'elem', 'n', 'elems', 'packed', '_size', '_align', '_offs')

    def __init__(self, k, w=0, elem=None, n=0, elems=None, packed=False):
        self.k, self.w, self.elem, self.n, self.elems, self.packed = k, w, elem, n, elems, packed
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        return self.k

    def layout(self):
        if self._size is not None:
            return self._size, self._align
        k = self.k
        if k == 'int':
            s = 1 if self.w <= 8 else 2 if self.w <= 16 else 4 if self.w <= 32 else 8 if self.w <= 64 else (self.w + 127) // 128 * 16
            a = s
        elif k == 'ptr' or k == 'double':
            s = a = 8
        elif k == 'float':
            s = a = 4
        elif k == 'x86_fp80':
            s = a = 16
        elif k == 'arr':
            es, a = self.elem.layout()
            s = es * self.n
        elif k == 'vec':
            es, _ = self.elem.layout()
            s = es * self.n
            a = s
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for t in self.elems:
                es, ea = t.layout()
                if self.packed:
                    ea = 1
                off = (off + ea - 1) // ea * ea
                offs.append(off)
                off += es
                al = max(al, ea)
            s = (off + al - 1) // al * al
            a = al
            self._offs = offs
        elif k in ('func', 'void', 'opaque'):
            s, a = 0, 1
        else:
            raise IRError('layout of %r' % (self,))
        self._size, self._align = s, a
        return s, a

    def size(self):
        return self.layout()[0]

    def offs(self):
        self.layout()
        return self._offs


PTR = Type('ptr')
DOUBLE = Type('double')
FLOAT = Type('float')
VOID = Type('void')
_ints = {}


def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Type('int', w)
    return t


# ---------------------------------------------------------------- values
# ('loc', name) ('glob', name) ('int', v) ('fp', Fraction|float special) ('null',) ('undef',)
# ('poison',) ('zero', type) ('agg', type, [vals]) ('bytes', b) ('gepc', off, base) ('meta',)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text


class Function:
    def __init__(self, name, ret, params, blocks, order):
        self.name, self.ret, self.params, self.blocks, self.order = name, ret, params, blocks, order


class Global:
    def __init__(self, name, ty, init, const, external):
        self.name, self.ty, self.init, self.const, self.external = name, ty, init, const, external


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.aliases = {}


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
               'zeroext', 'returned', 'immarg', 'inreg', 'nest', 'nofree', 'swiftself', 'allocalign', 'allocptr',
               'writable', 'dead_on_unwind', 'inrange'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range',
                 'captures', 'initializes', 'nofpclass', 'memory', 'allocsize', 'preallocated', 'inalloca', 'byref'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg', 'inbounds', 'volatile', 'atomic', 'samesign'}


class P:
    """token stream with type / value parsing"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        v = self.next()
        if v == 'void':
            t = VOID
        elif v == 'ptr':
            t = PTR
            if self.eat('addrspace'):
                self.skip_parens()
        elif v == 'double':
            t = DOUBLE
        elif v == 'float':
            t = FLOAT
        elif v in ('x86_fp80', 'label', 'metadata', 'token', 'half', 'opaque'):
            t = Type(v)
        elif v[0] == 'i' and v[1:].isdigit():
            t = INT(int(v[1:]))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Type('arr', elem=e, n=n)
        elif v == '<':
            if self.eat('{'):
                t = self.struct(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Type('vec', elem=e, n=n)
        elif v == '{':
            t = self.struct(False)
        elif v[0] == '%':
            if v not in self.mod.types:
                raise IRError('unknown type ' + v)
            t = self.mod.types[v]
        else:
            raise IRError('bad type %r in %s' % (v, ' '.join(x[1] for x in self.t)))
        # function type
        if self.peek() == '(' and t.k != 'label':
            # "ret (params...)" as in varargs calls
            save = self.i
            try:
                self.i += 1
                while self.peek() != ')':
                    if self.eat('...'):
                        continue
                    self.type()
                    self.eat(',')
                self.expect(')')
                return Type('func', elem=t)
            except (IRError, IndexError):
                self.i = save
        return t

    def struct(self, packed):
        el = []
        while not self.eat('}'):
            el.append(self.type())
            self.eat(',')
        return Type('struct', elems=el, packed=packed)

    def attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in PARAM_ATTRS_P:
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif self.kind() == 'attr' or (self.kind() == 'str'):
                self.i += 1
                if self.eat('='):
                    self.next()
            else:
                return

    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('fp', Fraction(float(v)))
            return ('int', int(v) & ((1 << ty.w) - 1))
        if k == 'hexf':
            if v[2] in 'KLMHR':
                raise IRError('unsupported fp constant ' + v)
            d = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return ('fp', d)
            if d == 0 and v.lower() == '0x8000000000000000':
                return ('fp', -0.0)
            return ('fp', Fraction(d))
        if k == 'cstr':
            b = bytearray()
            s = v[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(b))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v == 'undef':
            return ('undef',)
        if v == 'poison':
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v == 'none':
            return ('null',)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.eat('{'):
                close = '}'
                el = self.agg_elems('}')
                self.expect('>')
                return ('agg', ty, el)
            el = self.agg_elems(close)
            return ('agg', ty, el)
        if v == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.i += 1
                if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            off = 0
            first = True
            cur = bt
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                iv = self.value(it)
                if iv[0] != 'int':
                    raise IRError('non-constant index in constant gep')
                x = iv[1]
                if x >> (it.w - 1):
                    x -= 1 << it.w
                if first:
                    off += x * cur.size()
                    first = False
                elif cur.k == 'struct':
                    off += cur.offs()[x]
                    cur = cur.elems[x]
                else:
                    cur = cur.elem
                    off += x * cur.size()
            self.expect(')')
            return ('gepc', off, base)
        if v in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('(')
            t1 = self.type()
            x = self.value(t1)
            self.expect('to')
            self.type()
            self.expect(')')
            return x
        raise IRError('bad value %r in %s' % (v, ' '.join(x[1] for x in self.t)))

    def agg_elems(self, close):
        el = []
        while not self.eat(close):
            t = self.type()
            el.append((t, self.value(t)))
            self.eat(',')
        return el

    def tv(self):
        t = self.type()
        self.attrs()
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while self.i < len(self.t):
                v = self.peek()
                if d == 0 and v in (',', ')'):
                    break
                if v in '([{':
                    d += 1
                elif v in ')]}':
                    d -= 1
                self.i += 1
            return t, ('undef',)
        return t, self.value(t)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
CALLPFX = {'tail', 'musttail', 'notail'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'dso_local', 'hidden', 'local_unnamed_addr', 'unnamed_addr'}


def parse_call(p, text, res, invoke):
    # after 'call' / 'invoke'
    while p.peek() in FLAGS or p.peek() in CCONV:
        p.i += 1
    p.attrs()
    rt = p.type()
    if rt.k == 'func':
        rt = rt.elem
    k, callee = p.t[p.i]
    if callee == 'asm':
        raise IRError('inline asm: ' + text)
    cv = p.value(PTR)
    p.expect('(')
    args = []
    while not p.eat(')'):
        args.append(p.tv())
        p.eat(',')
    norm = unw = None
    if invoke:
        while p.peek() != 'to':
            p.i += 1
        p.expect('to')
        p.expect('label')
        norm = p.next()
        p.expect('unwind')
        p.expect('label')
        unw = p.next()
    return Inst('invoke' if invoke else 'call', res, rt, (cv, args, norm, unw), text)


def parse_inst(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == 'local' and p.t[1][1] == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in CALLPFX:
        op = p.next()
    if op == 'call':
        return parse_call(p, line, res, False)
    if op == 'invoke':
        return parse_call(p, line, res, True)
    while p.peek() in FLAGS:
        p.i += 1
    if op in BINOPS:
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, (a, b), line)
    if op == 'fneg':
        t = p.type()
        return Inst(op, res, t, (p.value(t),), line)
    if op in CASTS:
        t = p.type()
        a = p.value(t)
        p.expect('to')
        return Inst(op, res, p.type(), (t, a), line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.i += 1
        pred = p.next()
        while p.peek() in FLAGS:
            p.i += 1
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, INT(1), (pred, t, a, b), line)
    if op == 'load':
        while p.peek() in FLAGS:
            p.i += 1
        t = p.type()
        p.expect(',')
        p.type()
        a = p.value(PTR)
        return Inst('load', res, t, (a,), line)
    if op == 'store':
        while p.peek() in FLAGS:
            p.i += 1
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        a = p.value(PTR)
        return Inst('store', None, t, (v, a), line)
    if op == 'alloca':
        t = p.type()
        n = ('int', 1)
        while p.eat(','):
            if p.peek() == 'align':
                p.i += 2
            elif p.peek() == 'addrspace':
                p.i += 1
                p.skip_parens()
            elif p.kind() == 'meta':
                break
            else:
                nt = p.type()
                n = p.value(nt)
        return Inst('alloca', res, t, (n,), line)
    if op == 'getelementptr':
        bt = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return Inst('gep', res, bt, (base, idx), line)
    if op == 'br':
        if p.eat('label'):
            return Inst('br', None, None, (p.next(),), line)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Inst('cbr', None, None, (c, a, b), line)
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return Inst('switch', None, t, (c, d, cases), line)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Inst('ret', None, t, (None,), line)
        return Inst('ret', None, t, (p.value(t),), line)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        return Inst('phi', res, t, (inc,), line)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Inst('select', res, t, (c, a, b), line)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            ix.append(int(p.next()))
        return Inst('extractvalue', res, t, (v, ix), line)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        ix = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            ix.append(int(p.next()))
        return Inst('insertvalue', res, t, (v, et, ev, ix), line)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        it = p.type()
        return Inst('extractelement', res, t, (v, p.value(it)), line)
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        p.expect(',')
        it = p.type()
        return Inst('insertelement', res, t, (v, ev, p.value(it)), line)
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        p.expect(',')
        mt = p.type()
        m = p.value(mt)
        return Inst('shufflevector', res, t, (a, b, mt, m), line)
    if op == 'unreachable':
        return Inst('unreachable', None, None, (), line)
    if op == 'resume':
        t = p.type()
        return Inst('resume', None, t, (p.value(t),), line)
    if op == 'freeze':
        t = p.type()
        return Inst('freeze', res, t, (p.value(t),), line)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.i < len(p.t):
            v = p.next()
            if v == 'cleanup':
                cleanup = True
            elif v == 'catch':
                ct = p.type()
                cl.append(('catch', p.value(ct)))
            elif v == 'filter':
                ct = p.type()
                cl.append(('filter', p.value(ct)))
            elif v.startswith('!') or v == ',':
                break
            else:
                raise IRError('landingpad: ' + line)
        return Inst('landingpad', res, t, (cleanup, cl), line)
    if op == 'fence':
        return Inst('nop', None, None, (), line)
    if op == 'atomicrmw':
        kind = p.next()
        p.type()
        a = p.value(PTR)
        p.expect(',')
        t = p.type()
        v = p.value(t)
        return Inst('atomicrmw', res, t, (kind, a, v), line)
    if op == 'cmpxchg':
        p.eat('weak')
        p.type()
        a = p.value(PTR)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.type()
        v = p.value(t)
        return Inst('cmpxchg', res, t, (a, c, v), line)
    raise IRError('unsupported instruction: ' + line)


LINKAGE = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'common', 'appending',
           'available_externally', 'extern_weak', 'dso_local', 'hidden', 'protected', 'default', 'unnamed_addr',
           'local_unnamed_addr', 'thread_local', 'dso_preemptable'}


def parse_header(line, mod):
    """define/declare header: returns name, ret, params"""
    # drop trailing attributes after the parameter list
    p = P(tokenize(re.sub(r'^(declare|define)( ![\w.]+ !\d+)+ ', r'\1 ', line)), mod)
    p.next()
    while p.peek() in LINKAGE or p.peek() in CCONV:
        v = p.next()
        if v == 'thread_local' and p.peek() == '(':
            p.skip_parens()
    p.attrs()
    rt = p.type()
    if rt.k == 'func':
        raise IRError('header ' + line)
    name = p.next()
    p.expect('(')
    params = []
    while not p.eat(')'):
        if p.eat('...'):
            p.eat(',')
            continue
        t = p.type()
        p.attrs()
        nm = None
        if p.kind() == 'local':
            nm = p.next()
        else:
            # metadata params etc.
            pass
        params.append((t, nm))
        p.eat(',')
    return name, rt, params


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    # pass 1: named types (may reference each other)
    tdefs = []
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            nm, body = ln.split(' = type ', 1)
            mod.types[nm] = Type('struct', elems=[])
            tdefs.append((nm, body))
    for nm, body in tdefs:
        if body.strip() == 'opaque':
            mod.types[nm].k = 'opaque'
            continue
        t = P(tokenize(body), mod).type()
        d = mod.types[nm]
        d.k, d.w, d.elem, d.n, d.elems, d.packed = t.k, t.w, t.elem, t.n, t.elems, t.packed
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if ln.startswith('@'):
            p = P(tokenize(ln), mod)
            name = p.next()
            p.expect('=')
            ext = False
            alias = False
            const = False
            while True:
                v = p.peek()
                if v in ('external', 'extern_weak'):
                    ext = True
                    p.i += 1
                elif v in LINKAGE:
                    p.i += 1
                    if p.peek() == '(':
                        p.skip_parens()
                elif v == 'global':
                    p.i += 1
                    break
                elif v == 'constant':
                    const = True
                    p.i += 1
                    break
                elif v in ('alias', 'ifunc'):
                    alias = True
                    p.i += 1
                    break
                else:
                    raise IRError('global: ' + ln)
            t = p.type()
            if alias:
                p.expect(',')
                p.type()
                mod.aliases[name] = p.value(PTR)
                continue
            init = None
            if not ext:
                init = p.value(t)
            mod.globals[name] = Global(name, t, init, const, ext)
        elif ln.startswith('declare '):
            name, rt, params = parse_header(ln, mod)
            mod.declares[name] = (rt, params)
        elif ln.startswith('define '):
            hdr = ln
            name, rt, params = parse_header(hdr, mod)
            blocks = {}
            order = []
            # entry label: next unnamed number after params if params unnamed
            npar = 0
            for _, nm in params:
                if nm is not None and nm[1:].isdigit():
                    npar = max(npar, int(nm[1:]) + 1)
            cur = '%' + str(npar)
            first = True
            insts = []
            while True:
                ln = lines[i]
                i += 1
                if ln.startswith('}'):
                    break
                if not ln.strip():
                    continue
                if not ln.startswith(' '):
                    m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
                    if not m:
                        raise IRError('label: ' + ln)
                    lab = '%' + m.group(1)
                    if first and not insts:
                        cur = lab
                    else:
                        blocks[cur] = insts
                        order.append(cur)
                        insts = []
                        cur = lab
                    first = False
                    continue
                s = ln.strip()
                if s.startswith(';'):
                    continue
                # join continuation lines
                if 'landingpad' in s:
                    while lines[i].strip().startswith(('cleanup', 'catch', 'filter')):
                        s += ' ' + lines[i].strip()
                        i += 1
                elif ' invoke ' in ' ' + s and ' unwind label' not in s:
                    while ' unwind label' not in s:
                        s += ' ' + lines[i].strip()
                        i += 1
                elif s.startswith('switch') and s.endswith('['):
                    while not lines[i].strip().startswith(']'):
                        s += ' ' + lines[i].strip()
                        i += 1
                    s += ' ]'
                    i += 1
                first = False
                insts.append(s)
            blocks[cur] = insts
            order.append(cur)
            mod.functions[name] = Function(name, rt, params, blocks, order)
    return mod


def parse_body(fn, mod):
    """instructions are parsed lazily: most library functions are never executed"""
    if getattr(fn, 'parsed', False):
        return
    for b in fn.order:
        fn.blocks[b] = [parse_inst(s, mod) if isinstance(s, str) else s for s in fn.blocks[b]]
    fn.parsed = True
