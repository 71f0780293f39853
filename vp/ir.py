"""Symbolic interpreter for LLVM IR (clang -O0) of the C extension modules.

Doubles are Num (exact symbolic reals), integers and pointers are concrete.
The memory model is object based: bounds, lifetime, initialisation, leaks and
per-iteration access sets of OpenMP loops are tracked."""
import hashlib
import os
import re
import struct
import subprocess
from fractions import Fraction as F
from .num import Unsupported, Ctx
from .sym import Num, SBool
from . import num as N

HERE = os.path.dirname(os.path.abspath(__file__))


class CError(Exception):
    """undefined behaviour of the C code on this path"""


class Obj:
    __slots__ = ('size', 'kind', 'name', 'cells', 'alive', 'id', 'init', 'py')
    n = 0

    def __init__(self, size, kind, name=''):
        Obj.n += 1
        self.id = Obj.n
        self.size, self.kind, self.name = size, kind, name
        self.cells = {}
        self.alive = True
        self.py = None

    def __repr__(self):
        return '%s %s (%d bytes)' % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return '&%r+%d' % (self.obj, self.off)


NULL = 0


class PyObj:
    """a Python object seen from C"""

    def __init__(self, kind, value=None, arr=None, ro=False):
        self.kind, self.value, self.refs = kind, value, 1
        self.data = None
        self.dims = None
        self.nd = 0
        self.type = None
        self.borrowed = False


class Uninit:
    def __repr__(self):
        return 'uninit'


UN = Uninit()


# ------------------------------------------------------------------ types
def split_top(s, sep=','):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            if ch == sep and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.sizes = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'^(%[\w.$"]+) = type (.*)$', l)
            if m:
                self.structs[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^@("[^"]*"|[\w.$]+) = (.*)$', l)
                body = m.group(2)
                g = re.search(r'\b(global|constant)\s+(.*)$', body)
                self.globals[m.group(1)] = g.group(2) if g else ''
            elif l.startswith('define'):
                m = re.match(r'^define\s+(.*?)@("[^"]*"|[\w.$]+)\((.*)\)\s*(.*)\{\s*$', l)
                name = m.group(2)
                params = []
                for p in split_top(m.group(3)):
                    if p == '...':
                        continue
                    mm = re.match(r'^(.*?)\s*(%[\w.]+)$', p)
                    params.append(mm.group(2) if mm else None)
                blocks, cur, first = {}, [], None
                label = None
                i += 1
                while not lines[i].startswith('}'):
                    t = lines[i]
                    ml = re.match(r'^([\w.]+|"[^"]*"):', t)
                    if ml:
                        label = '%' + ml.group(1)
                        blocks[label] = []
                        if first is None:
                            first = label
                    elif t.strip() and not t.strip().startswith(';'):
                        if label is None:
                            label = '%entry$'
                            blocks[label] = []
                            first = label
                        s = t.strip()
                        if s.startswith('switch') and not s.endswith(']'):
                            while not lines[i].strip().endswith(']'):
                                i += 1
                                s += ' ' + lines[i].strip()
                        blocks[label].append(s)
                    i += 1
                # implicit number of the entry block
                self.funcs[name] = Func(name, params, blocks, first)
            i += 1

    def sizeof(self, t):
        t = t.strip()
        if t in self.sizes:
            return self.sizes[t]
        self.sizes[t] = r = self._sizeof(t)
        return r

    def _sizeof(self, t):
        if t == 'double' or t == 'ptr':
            return 8
        if t == 'float':
            return 4
        m = re.match(r'^i(\d+)$', t)
        if m:
            return max(1, (int(m.group(1)) + 7) // 8)
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2))
        m = re.match(r'^<(\d+) x (.*)>$', t)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2))
        if t.startswith('{') or t.startswith('<{'):
            return self.layout(t)[1]
        if t.startswith('%'):
            return self.sizeof(self.structs[t])
        raise Unsupported('IR type ' + t)

    def align(self, t):
        t = t.strip()
        if t.startswith('%'):
            return self.align(self.structs[t])
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m:
            return self.align(m.group(2))
        if t.startswith('{'):
            return max([self.align(x) for x in split_top(t[1:-1])] or [1])
        return self.sizeof(t)

    def layout(self, t):
        if t.startswith('%'):
            t = self.structs[t]
        fs = split_top(t.strip()[1:-1])
        off, offs, al = 0, [], 1
        for f in fs:
            a = self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append((off, f))
            off += self.sizeof(f)
        return offs, (off + al - 1) // al * al


class Func:
    def __init__(self, name, params, blocks, first):
        self.name, self.params, self.blocks, self.first = name, params, blocks, first
        self.code = None


TYPE_RE = re.compile(r'^(\[\d+ x [^\]]*\]|\{[^}]*\}|<[^>]*>|%[\w."$]+|void|double|float|ptr|i\d+|label|\.\.\.)\s*')
ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg', 'returned',
         'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'volatile',
         'tail', 'notail', 'musttail', 'byval', 'sret', 'inreg', 'dereferenceable', 'noreturn', 'inrange', 'nneg', 'disjoint'}


def rd_type(s):
    s = s.lstrip()
    if s.startswith('[') or s.startswith('{') or s.startswith('<'):
        d = 0
        for i, ch in enumerate(s):
            if ch in '[{<(':
                d += 1
            elif ch in ']}>)':
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    m = TYPE_RE.match(s)
    if not m:
        raise Unsupported('IR type in: ' + s)
    return m.group(1), s[m.end():]


def skip_attrs(s):
    while True:
        m = re.match(r'^(\w+)(\([^)]*\))?\s+', s)
        if m and (m.group(1) in ATTRS or m.group(1) == 'align'):
            if m.group(1) == 'align':
                m = re.match(r'^align\s+\d+\s*', s)
            s = s[m.end():]
        else:
            return s


class Machine:
    def __init__(self, module, max_steps=3000000):
        self.m = module
        self.gobj = {}
        self.heap = []
        self.steps = 0
        self.max_steps = max_steps
        self.exc = None
        self.errors = []
        self.pyobjs = []
        self.access = None            # (thread id, {(obj,off): (r,w)}) while in a parallel region
        self.parallel_depth = 0
        self.races = []
        self.regions = 0
        self.thread = None
        self.printed = 0

    # -- memory
    def alloc(self, size, kind, name=''):
        o = Obj(size, kind, name)
        if kind == 'heap':
            self.heap.append(o)
        return Ptr(o, 0)

    def _chk(self, p, size, what):
        if not isinstance(p, Ptr):
            raise CError('%s through a %s pointer' % (what, 'null' if p == 0 else 'wild'))
        o = p.obj
        if not o.alive:
            raise CError('%s of freed memory: %r at offset %d' % (what, o, p.off))
        if p.off < 0 or p.off + size > o.size:
            raise CError('%s outside %r: offset %d' % (what, o, p.off))
        return o

    def _note(self, o, off, w):
        if self.access is not None:
            k = (o, off)
            r = self.access.get(k, 0)
            self.access[k] = r | (2 if w else 1)

    def store(self, t, p, v):
        if t.startswith('{') or (t.startswith('%') and t in self.m.structs):
            for (off, ft), x in zip(self.m.layout(t)[0], v):
                self.store(ft, Ptr(p.obj, p.off + off) if isinstance(p, Ptr) else p, x)
            return
        size = self.m.sizeof(t)
        o = self._chk(p, size, 'write')
        if o.kind == 'const':
            raise CError('write to a constant %r' % o)
        if o.kind == 'input' and self.writes_inputs is not None:
            self.writes_inputs.append(repr(o))
        self._note(o, p.off, True)
        c = o.cells
        if p.off in c and c[p.off][1] == size:
            c[p.off] = (v, size, t)
            return
        for q in range(p.off - 15, p.off + size):
            if q in c and q + c[q][1] > p.off and q < p.off + size:
                del c[q]
        c[p.off] = (v, size, t)

    def load(self, t, p):
        if t.startswith('{') or (t.startswith('%') and t in self.m.structs):
            return tuple(self.load(ft, Ptr(p.obj, p.off + off)) for off, ft in self.m.layout(t)[0])
        size = self.m.sizeof(t)
        o = self._chk(p, size, 'read')
        self._note(o, p.off, False)
        c = o.cells.get(p.off)
        if c is None:
            for q in range(p.off - 15, p.off + size):
                if q in o.cells and q + o.cells[q][1] > p.off:
                    raise Unsupported('mixed-size access')
            return UN
        v, s, t0 = c
        if s != size:
            raise Unsupported('mixed-size access')
        if (t == 'double') != (t0 == 'double'):
            if t == 'double' and v == 0:
                return Num.of(0)
            raise Unsupported('type-punned access')
        return v

    def use(self, v, what):
        if v is UN:
            raise CError('use of an uninitialised value (%s)' % what)
        return v

    # -- operands
    def operand(self, fr, t, s):
        """s: operand text without type"""
        if s[0] == '%':
            return fr[s]
        return self.const(t, s)

    def const(self, t, s):
        key = (t, s)
        r = self._consts.get(key)
        if r is None:
            r = self._const(t, s)
            if not isinstance(r, Ptr):
                self._consts[key] = r
        return r
    _consts = {}

    def _const(self, t, s):
        if s in ('undef', 'poison'):
            return UN
        if t == 'double' or t == 'float':
            if s.startswith('0x'):
                return Num.of(struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0])
            if s == 'zeroinitializer':
                return Num.of(0)
            return Num.of(float(s))
        if s == 'null':
            return 0
        if s == 'true':
            return 1
        if s == 'false':
            return 0
        if t.startswith('i') and re.match(r'^-?\d+$', s):
            return int(s)
        if s.startswith('@'):
            return self.global_ptr(s[1:])
        if s.startswith('getelementptr'):
            inner = s[s.index('(') + 1:-1]
            parts = split_top(inner)
            base_t = parts[0]
            pt, pv = rd_type(parts[1])
            p = self.const('ptr', pv.strip())
            off = self.gep_off(base_t, [self.const(*rd_type(x)) for x in parts[2:]])
            return Ptr(p.obj, p.off + off)
        if s == 'zeroinitializer':
            if t.startswith('{') or t.startswith('%'):
                return tuple(self._const(ft, 'zeroinitializer') for _, ft in self.m.layout(t)[0])
            return 0
        if t.startswith('{') and s.startswith('{'):
            return tuple(self._const(*rd_type(x)) for x in split_top(s[1:-1]))
        raise Unsupported('IR constant %s %s' % (t, s))

    def global_ptr(self, name):
        if name in self.m.funcs or name not in self.m.globals:
            return ('fn', name)
        if name not in self.gobj:
            body = self.m.globals[name]
            t, rest = rd_type(body)
            try:
                size = self.m.sizeof(t)
            except Unsupported:
                size = 8
            p = self.alloc(size, 'global', '@' + name)
            self.gobj[name] = p
            self._init_global(p, t, rest)
        return self.gobj[name]

    def _init_global(self, p, t, rest):
        rest = rest.strip()
        m = re.match(r'^c"((?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*)"', rest)
        o = p.obj
        if m:
            raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
            o.py = raw.split('\0')[0]
            for i, ch in enumerate(raw):
                o.cells[i] = (ord(ch), 1, 'i8')
            o.cells.setdefault(len(raw), (0, 1, 'i8'))
            return
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m and rest.startswith('['):
            es = self.m.sizeof(m.group(2))
            d = 0
            for i, ch in enumerate(rest):
                if ch in '[({':
                    d += 1
                elif ch in '])}':
                    d -= 1
                    if d == 0:
                        break
            for k, e in enumerate(split_top(rest[1:i])):
                et, ev = rd_type(e)
                if et.startswith('%') or et.startswith('{') or et.startswith('['):
                    continue
                o.cells[k * es] = (self._const(et, ev.strip()), es, et)
            return
        if rest.startswith('zeroinitializer'):
            if m:
                es = self.m.sizeof(m.group(2))
                if re.match(r'^(i\d+|ptr|double|float)$', m.group(2)):
                    for k in range(int(m.group(1))):
                        o.cells[k * es] = (Num.of(0) if m.group(2) == 'double' else 0, es, m.group(2))
            return
        v = split_top(rest)[0].strip() if rest else None
        if not v or v.startswith('align'):      # external object of the Python API
            o.cells[0] = (('ext', o.name if hasattr(o, 'name') else t), self.m.sizeof(t), t)
            return
        if v is not None and re.match(r'^(i\d+|ptr|double|float)$', t):
            o.cells[0] = (self._const(t, v), self.m.sizeof(t), t)

    def cstr(self, p):
        o = p.obj
        s = ''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or c[0] == 0:
                return s
            s += chr(c[0])
            i += 1

    def gep_off(self, t, idx):
        off = idx[0] * self.m.sizeof(t)
        for k in idx[1:]:
            if t.startswith('%') or t.startswith('{'):
                o, ft = self.m.layout(t)[0][k]
                off += o
                t = ft
            else:
                m = re.match(r'^\[(\d+) x (.*)\]$', t)
                t = m.group(2)
                off += k * self.m.sizeof(t)
        return off

    # -- execution
    def compile(self, f):
        code = {}
        for lab, ins in f.blocks.items():
            code[lab] = [self.decode(x) for x in ins]
        f.code = code

    def decode(self, s):
        s = re.sub(r',?\s*!\w+(\.\w+)*\s+!\d+', '', s)
        s = re.sub(r',?\s*!srcloc !\d+', '', s)
        s = re.sub(r'\s+#\d+$', '', s)
        dest = None
        m = re.match(r'^(%[\w.]+) = (.*)$', s)
        if m:
            dest, s = m.group(1), m.group(2)
        op, _, rest = s.partition(' ')
        rest = rest.strip()
        if op in ('tail', 'notail', 'musttail'):
            op, _, rest = rest.partition(' ')
        if op == 'alloca':
            t, r = rd_type(rest)
            n = None
            mm = re.match(r'^,\s*(i\d+)\s+([%\w.]+)', r)
            if mm and mm.group(1) != 'align':
                n = mm.group(2)
            return ('alloca', dest, self.m.sizeof(t), n)
        if op == 'load':
            rest = skip_attrs(rest)
            t, r = rd_type(rest)
            p = split_top(r.lstrip(', '))[0]
            return ('load', dest, t, rd_type(p)[1].strip())
        if op == 'store':
            rest = skip_attrs(rest)
            parts = split_top(rest)
            t, v = rd_type(parts[0])
            return ('store', None, t, v.strip(), rd_type(parts[1])[1].strip())
        if op == 'getelementptr':
            rest = skip_attrs(rest)
            parts = split_top(rest)
            idx = [rd_type(skip_attrs(x)) for x in parts[2:]]
            return ('gep', dest, parts[0], rd_type(parts[1])[1].strip(), [(a, b.strip()) for a, b in idx])
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            rest = skip_attrs(rest)
            t, r = rd_type(rest)
            a, b = split_top(r)
            return ('bin', dest, op, t, a, b)
        if op == 'fneg':
            rest = skip_attrs(rest)
            t, r = rd_type(rest)
            return ('fneg', dest, t, r.strip())
        if op in ('icmp', 'fcmp'):
            rest = skip_attrs(rest)
            pred, _, r = rest.partition(' ')
            r = skip_attrs(r)
            t, r = rd_type(r)
            a, b = split_top(r)
            return (op, dest, pred, t, a, b)
        if op == 'br':
            if rest.startswith('label'):
                return ('jmp', None, rest.split()[1])
            parts = split_top(rest)
            return ('br', None, parts[0].split()[1], parts[1].split()[1], parts[2].split()[1])
        if op == 'switch':
            mm = re.match(r'^(i\d+) ([%\w.-]+), label (%[\w.]+) \[(.*)\]$', rest)
            cases = re.findall(r'i\d+ (-?\d+), label (%[\w.]+)', mm.group(4))
            return ('switch', None, mm.group(1), mm.group(2), mm.group(3), {int(a): b for a, b in cases})
        if op == 'ret':
            if rest == 'void':
                return ('ret', None, None, None)
            t, r = rd_type(rest)
            return ('ret', None, t, r.strip())
        if op == 'call':
            rest = skip_attrs(rest)
            while re.match(r'^(fastcc|ccc|coldcc)\s', rest):
                rest = rest.partition(' ')[2]
            t, r = rd_type(rest)
            r = r.lstrip()
            if r.startswith('('):
                d = 0
                for i, ch in enumerate(r):
                    if ch == '(':
                        d += 1
                    elif ch == ')':
                        d -= 1
                        if d == 0:
                            break
                r = r[i + 1:].lstrip()
            mm = re.match(r'^([@%][\w.$]+)\((.*)\)', r)
            args = []
            for a in split_top(mm.group(2)):
                if a.startswith('metadata'):
                    continue
                at, av = rd_type(a)
                args.append((at, skip_attrs(av).strip()))
            return ('call', dest, t, mm.group(1), args)
        if op == 'phi':
            t, r = rd_type(skip_attrs(rest))
            prs = re.findall(r'\[\s*([^,\]]+),\s*(%[\w.]+)\s*\]', r)
            return ('phi', dest, t, [(a.strip(), b) for a, b in prs])
        if op == 'select':
            rest = skip_attrs(rest)
            p = split_top(rest)
            t, a = rd_type(p[1])
            _, b = rd_type(p[2])
            return ('select', dest, rd_type(p[0])[1].strip(), t, a.strip(), b.strip())
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr', 'freeze'):
            rest = skip_attrs(rest)
            t, r = rd_type(rest)
            mm = re.match(r'^(.*?)(?:\s+to\s+(.*))?$', r.strip())
            return ('cast', dest, op, t, mm.group(1).strip(), (mm.group(2) or t).strip())
        if op in ('extractvalue', 'insertvalue'):
            p = split_top(rest)
            t, a = rd_type(p[0])
            if op == 'extractvalue':
                return ('extract', dest, t, a.strip(), int(p[1]))
            t2, b = rd_type(p[1])
            return ('insert', dest, t, a.strip(), t2, b.strip(), int(p[2]))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'fence':
            return ('nop', None)
        raise Unsupported('IR instruction: ' + s)

    def truth(self, v, what='condition'):
        self.use(v, what)
        if isinstance(v, SBool):
            return bool(v)
        return bool(v)

    def call(self, name, args):
        if name.startswith('llvm.'):
            return self.intrinsic(name, args)
        f = self.m.funcs.get(name)
        if f is None:
            h = getattr(self, 'x_' + name, None)
            if h is None:
                raise Unsupported('C function ' + name)
            return h(*args)
        if name in ('_Cbuild', '_Cmulcc') and False:
            pass
        if f.code is None:
            self.compile(f)
        fr = {}
        for p, a in zip(f.params, args):
            if p:
                fr[p] = a
        stack = []
        lab, prev = f.first, None
        # clang numbers the unnamed entry block after the parameters
        while True:
            code = f.code[lab]
            nxt = None
            for ins in code:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise CError('no end after %d steps' % self.max_steps)
                op = ins[0]
                if op == 'load':
                    fr[ins[1]] = self.load(ins[2], self.use(self.operand(fr, 'ptr', ins[3]), 'pointer'))
                elif op == 'store':
                    self.store(ins[2], self.use(self.operand(fr, 'ptr', ins[4]), 'pointer'),
                               self.operand(fr, ins[2], ins[3]))
                elif op == 'bin':
                    fr[ins[1]] = self.binop(ins[2], ins[3], self.operand(fr, ins[3], ins[4]),
                                            self.operand(fr, ins[3], ins[5]))
                elif op == 'gep':
                    p = self.use(self.operand(fr, 'ptr', ins[3]), 'pointer')
                    idx = [self.use(self.operand(fr, a, b), 'index') for a, b in ins[4]]
                    off = self.gep_off(ins[2], idx)
                    if isinstance(p, Ptr):
                        fr[ins[1]] = Ptr(p.obj, p.off + off)
                    elif off == 0:
                        fr[ins[1]] = p
                    else:
                        raise CError('arithmetic on a null pointer')
                elif op == 'alloca':
                    n = 1 if ins[3] is None else self.operand(fr, 'i64', ins[3])
                    p = self.alloc(ins[2] * n, 'stack', f.name + ins[1])
                    stack.append(p.obj)
                    fr[ins[1]] = p
                elif op == 'icmp':
                    fr[ins[1]] = self.icmp(ins[2], ins[3], self.operand(fr, ins[3], ins[4]), self.operand(fr, ins[3], ins[5]))
                elif op == 'fcmp':
                    fr[ins[1]] = self.fcmp(ins[2], self.operand(fr, ins[3], ins[4]), self.operand(fr, ins[3], ins[5]))
                elif op == 'call':
                    if ins[3][0] == '@':
                        fn = ins[3][1:]
                    else:
                        v = fr[ins[3]]
                        if not (isinstance(v, tuple) and v[0] == 'fn'):
                            raise CError('call through a bad pointer')
                        fn = v[1]
                    r = self.call(fn, [self.operand(fr, a, b) for a, b in ins[4]])
                    if ins[1]:
                        fr[ins[1]] = r
                elif op == 'jmp':
                    nxt = ins[2]
                    break
                elif op == 'br':
                    nxt = ins[3] if self.truth(self.operand(fr, 'i1', ins[2])) else ins[4]
                    break
                elif op == 'cast':
                    fr[ins[1]] = self.cast(ins[2], ins[3], self.operand(fr, ins[3], ins[4]), ins[5])
                elif op == 'extract':
                    v = self.operand(fr, ins[2], ins[3])
                    fr[ins[1]] = v if v is UN else v[ins[4]]
                elif op == 'insert':
                    v = self.operand(fr, ins[2], ins[3])
                    n = len(self.m.layout(ins[2])[0])
                    v = [UN] * n if v is UN else list(v)
                    v[ins[6]] = self.operand(fr, ins[4], ins[5])
                    fr[ins[1]] = tuple(v)
                elif op == 'phi':
                    for a, b in ins[3]:
                        if b == prev or (prev == f.first and b not in f.code):
                            fr[ins[1]] = self.operand(fr, ins[2], a)
                            break
                    else:
                        raise Unsupported('phi')
                elif op == 'select':
                    c = self.operand(fr, 'i1', ins[2])
                    fr[ins[1]] = self.operand(fr, ins[3], ins[4] if self.truth(c) else ins[5])
                elif op == 'fneg':
                    v = self.operand(fr, ins[2], ins[3])
                    fr[ins[1]] = UN if v is UN else -v
                elif op == 'ret':
                    for o in stack:
                        o.alive = False
                    return None if ins[2] is None else self.operand(fr, ins[2], ins[3])
                elif op == 'switch':
                    v = self.use(self.operand(fr, ins[2], ins[3]), 'switch')
                    nxt = ins[5].get(v, ins[4])
                    break
                elif op == 'unreachable':
                    raise CError('unreachable code reached')
            prev, lab = lab, nxt

    def binop(self, op, t, a, b):
        if a is UN or b is UN:
            return UN
        if op[0] == 'f' and op != 'fence':
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                return self.fdiv(a, b)
            raise Unsupported(op)
        if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
            if op == 'xor' and b == 1:
                return (not a) if isinstance(a, bool) else ~a
            a, b = int(self.truth(a)), int(self.truth(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer as integer')
        n = int(t[1:])
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            if b == 0:
                raise CError('integer division by zero')
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            r = q if op.endswith('div') else a - q * b
        elif op == 'shl':
            r = a << b
        elif op in ('ashr', 'lshr'):
            r = a >> b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        else:
            r = a ^ b
        r &= (1 << n) - 1
        if n > 1 and r >> (n - 1):
            r -= 1 << n
        return r

    def fdiv(self, a, b):
        return a / b

    def icmp(self, pred, t, a, b):
        if a is UN or b is UN:
            return UN
        if t == 'ptr' or isinstance(a, (Ptr, tuple, PyObj)) or isinstance(b, (Ptr, tuple, PyObj)):
            eq = a == b
            if pred == 'eq':
                return int(eq)
            if pred == 'ne':
                return int(not eq)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
            else:
                raise CError('ordering of unrelated pointers')
        if isinstance(a, SBool):
            a = int(bool(a))
        if isinstance(b, SBool):
            b = int(bool(b))
        if pred[0] == 'u':
            n = int(t[1:]) if t[0] == 'i' else 64
            a &= (1 << n) - 1
            b &= (1 << n) - 1
        return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                    'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])

    def fcmp(self, pred, a, b):
        if a is UN or b is UN:
            return UN
        if pred in ('uno', 'ord'):
            nan = (a.sp is not None and a.sp != a.sp) or (b.sp is not None and b.sp != b.sp)
            return int(nan) if pred == 'uno' else int(not nan)
        if pred in ('true', 'false'):
            return int(pred == 'true')
        k = pred[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()
        return r if isinstance(r, SBool) else int(bool(r))

    def cast(self, op, t, v, to):
        if v is UN:
            return UN
        if op in ('sext', 'freeze', 'bitcast', 'fpext', 'fptrunc'):
            if isinstance(v, SBool):
                return -int(bool(v))
            if op == 'sext' and t == 'i1':
                return -int(bool(v))
            if op == 'fptrunc' and to == 'float':
                from . import npx
                return npx.round1(v if isinstance(v, Num) else Num.of(v))
            return v
        if op == 'zext':
            if isinstance(v, SBool):
                return int(bool(v))
            n = int(t[1:])
            return v & ((1 << n) - 1)
        if op == 'trunc':
            n = int(to[1:])
            if isinstance(v, SBool):
                return v
            r = v & ((1 << n) - 1)
            return r - (1 << n) if n > 1 and r >> (n - 1) else r
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, SBool):
                v = int(bool(v))
            return Num.of(v)
        if op in ('fptosi', 'fptoui'):
            return int(v)
        raise Unsupported('IR cast ' + op)

    # -- C library
    def intrinsic(self, name, args):
        b = name.split('.')[1]
        if b == 'memcpy' or b == 'memmove':
            d, s, n = args[:3]
            if n == 0:
                return None
            self._chk(d, n, 'write')
            self._chk(s, n, 'read')
            cs = {k - s.off: c for k, c in s.obj.cells.items() if s.off <= k < s.off + n}
            for k in [k for k in d.obj.cells if d.off <= k < d.off + n]:
                del d.obj.cells[k]
            for k, c in cs.items():
                d.obj.cells[d.off + k] = c
                self._note(s.obj, s.off + k, False)
                self._note(d.obj, d.off + k, True)
            return None
        if b == 'memset':
            return self._memset(*args[:3])
        if b in ('lifetime', 'dbg', 'assume', 'stackrestore', 'va_start', 'va_end', 'experimental'):
            return None
        if b == 'stacksave':
            return 0
        if b == 'fmuladd' or b == 'fma':
            a = [self.use(x, 'fmuladd') for x in args] if UN in [type(x) for x in args] else args
            if any(x is UN for x in args):
                return UN
            return args[0] * args[1] + args[2]
        m = {'fabs': 'x_fabs', 'sqrt': 'x_sqrt', 'cos': 'x_cos', 'sin': 'x_sin', 'exp': 'x_exp', 'pow': 'x_pow',
             'round': 'x_round', 'floor': 'x_floor', 'ceil': 'x_ceil', 'powi': 'x_pow', 'rint': 'x_rint',
             'nearbyint': 'x_rint', 'log': 'x_log', 'trunc': 'x_trunc', 'lround': 'x_lround'}.get(b)
        if m:
            if any(x is UN for x in args):
                return UN
            return getattr(self, m)(*args)
        if b in ('smax', 'umax'):
            return max(args)
        if b in ('smin', 'umin'):
            return min(args)
        if b == 'abs':
            return abs(args[0])
        raise Unsupported('intrinsic ' + name)

    def _memset(self, d, c, n):
        if n == 0:
            return d
        self._chk(d, n, 'write')
        if c != 0:
            raise Unsupported('memset with %d' % c)
        for k in [k for k in d.obj.cells if d.off <= k < d.off + n]:
            del d.obj.cells[k]
        for k in range(0, n - n % 8, 8):
            d.obj.cells[d.off + k] = (0, 8, 'zero')
            self._note(d.obj, d.off + k, True)
        return d

    def x_memset(self, d, c, n):
        return self._memset(d, c, n)

    def x_memcpy(self, d, s, n):
        self.intrinsic('llvm.memcpy', [d, s, n])
        return d
    x_memmove = x_memcpy

    def x_malloc(self, n):
        if n < 0:
            raise CError('allocation of %d bytes' % n)
        return self.alloc(n, 'heap', 'malloc')
    x_PyMem_Malloc = x_PyMem_RawMalloc = x_malloc

    def x_calloc(self, n, s):
        p = self.alloc(n * s, 'heap', 'calloc')
        for k in range(0, n * s - 7, 8):
            p.obj.cells[k] = (0, 8, 'zero')
        return p
    x_PyMem_Calloc = x_calloc

    def x_realloc(self, p, n):
        q = self.alloc(n, 'heap', 'realloc')
        if isinstance(p, Ptr):
            for k, c in p.obj.cells.items():
                if k + c[1] <= n:
                    q.obj.cells[k] = c
            self.x_free(p)
        return q

    def x_free(self, p):
        if p == 0 and not isinstance(p, Ptr):
            return
        if not isinstance(p, Ptr) or p.obj.kind != 'heap' or p.off != 0:
            raise CError('free of a pointer that was not allocated: %r' % (p,))
        if not p.obj.alive:
            raise CError('double free of %r' % p.obj)
        p.obj.alive = False
    x_PyMem_Free = x_PyMem_RawFree = x_free

    def x_puts(self, *a):
        self.printed += 1
        return 0
    x_printf = x_putchar = x_fprintf = x_fflush = x_puts

    def _n(self, v):
        return self.use(v, 'math argument')

    def x_pow(self, a, b):
        self._n(a), self._n(b)
        b = Num.of(b)
        if b.isconst():
            f = b.fraction()
            if f.denominator == 1:
                return a ** int(f)
        return a ** b

    def x_fabs(self, a):
        return abs(self._n(a))

    def x_sqrt(self, a):
        return self._n(a).sqrt()

    def x_cos(self, a):
        return self._n(a).cos()

    def x_sin(self, a):
        return self._n(a).sin()

    def x_exp(self, a):
        return self._n(a).exp()

    def x_log(self, a):
        return self._n(a).log()

    def x_floor(self, a):
        return self._n(a).floor()

    def x_ceil(self, a):
        return self._n(a).ceil()

    def x_trunc(self, a):
        return self._n(a).trunc()

    def x_rint(self, a):
        return self._n(a).rint()

    def x_round(self, a):
        """half away from zero; differs from the even rule only at ties"""
        return Num(N.rround(self._n(a).re, 'roundaway'))

    def x_lround(self, a):
        return int(self.x_round(a))

    def x_creal(self, a, b=None):
        return a if b is not None else a[0]

    def x_cimag(self, a, b=None):
        return b

    def _c(self, re, im):
        return (re, im)

    def x_conj(self, a, b):
        return (a, -self._n(b))

    def x_cexp(self, a, b):
        e = self._n(a).exp()
        return (e * self._n(b).cos(), e * self._n(b).sin())

    def x_cpow(self, a, b, c, d):
        c, d = self._n(c), self._n(d)
        if not (d.isconst() and d.fraction() == 0 and c.isconst()):
            raise Unsupported('cpow')
        z = Num(self._n(a).re, self._n(b).re)
        f = c.fraction()
        if f.denominator != 1:
            raise Unsupported('cpow')
        r = z ** int(f) if int(f) > 0 else Num.of(1) if f == 0 else (z ** int(-f)).inv()
        return (r.real, r.imag)

    def x_cabs(self, a, b):
        return (self._n(a) * a + self._n(b) * b).sqrt()

    def x___muldc3(self, a, b, c, d):
        return (a * c - b * d, a * d + b * c)

    def x___divdc3(self, a, b, c, d):
        z = Num(a.re, b.re) / Num(c.re, d.re)
        return (z.real, z.imag)

    # -- OpenMP: every iteration is its own thread
    def x___kmpc_global_thread_num(self, loc):
        return 0

    def x___kmpc_push_num_threads(self, *a):
        return None

    def x_omp_get_thread_num(self):
        return self.thread or 0

    def x_omp_get_max_threads(self):
        return 4
    x_omp_get_num_threads = x_omp_get_num_procs = x_omp_get_max_threads

    def x_omp_set_num_threads(self, n):
        return None

    def x___kmpc_fork_call(self, loc, n, fn, *shared):
        self.regions += 1
        total = [None]
        t = 0
        logs = []
        while True:
            self.thread = t
            self.omp_next = t
            self.omp_total = total
            self.access, old = {}, self.access
            g = self.alloc(4, 'stack', 'gtid')
            b = self.alloc(4, 'stack', 'btid')
            g.obj.cells[0] = (t, 4, 'i32')
            b.obj.cells[0] = (t, 4, 'i32')
            fresh = Obj.n
            self.call(fn[1], [g, b] + list(shared))
            log = {k: v for k, v in self.access.items() if k[0].id <= fresh}
            logs.append(log)
            self.access = old
            t += 1
            if total[0] is None or t >= total[0]:
                break
        self.thread = None
        seen = {}
        for ti, log in enumerate(logs):
            for k, v in log.items():
                for tj, w in seen.get(k, ()):
                    if (v & 2) or (w & 2):
                        self.races.append('iterations %d and %d both access %r at offset %d, at least one writes'
                                          % (tj, ti, k[0], k[1]))
                seen.setdefault(k, []).append((ti, v))

    def _omp_bounds(self, plast, plow, pup, pstride, incr, t):
        lo, up = self.load(t, plow), self.load(t, pup)
        n = max(0, (up - lo) // incr + 1) if incr > 0 else max(0, (lo - up) // -incr + 1)
        self.omp_total[0] = max(n, 1)
        i = self.omp_next
        if i < n:
            self.store(t, plow, lo + i * incr)
            self.store(t, pup, lo + i * incr)
        else:
            self.store(t, plow, up + 1)
            self.store(t, pup, up)
        self.store('i32', plast, int(i == n - 1))

    def x___kmpc_for_static_init_4(self, loc, gtid, sched, plast, plow, pup, pstride, incr, chunk):
        self._omp_bounds(plast, plow, pup, pstride, incr, 'i32')

    def x___kmpc_for_static_init_8(self, loc, gtid, sched, plast, plow, pup, pstride, incr, chunk):
        self._omp_bounds(plast, plow, pup, pstride, incr, 'i64')

    def x___kmpc_for_static_init_4u(self, *a):
        return self.x___kmpc_for_static_init_4(*a)

    def x___kmpc_for_static_init_8u(self, *a):
        return self.x___kmpc_for_static_init_8(*a)

    def x___kmpc_for_static_fini(self, *a):
        return None

    def x___kmpc_dispatch_init_4(self, loc, gtid, sched, lo, up, st, chunk):
        self._disp = [lo, up, st, False]

    def x___kmpc_dispatch_next_4(self, loc, gtid, plast, plow, pup, pst):
        lo, up, st, done = self._disp
        n = (up - lo) // st + 1 if up >= lo else 0
        self.omp_total[0] = max(n, 1)
        if done or self.omp_next >= n:
            return 0
        self._disp[3] = True
        i = lo + self.omp_next * st
        self.store('i32', plow, i)
        self.store('i32', pup, i)
        self.store('i32', plast, int(self.omp_next == n - 1))
        self.store('i32', pst, st)
        return 1

    def x___kmpc_barrier(self, *a):
        return None

    # -- Python C API
    writes_inputs = None

    def pyobj(self, kind, value=None):
        o = PyObj(kind, value)
        self.pyobjs.append(o)
        return o

    def new_array(self, shape, typ, kind, name):
        o = self.pyobj('array')
        o.nd = len(shape)
        o.type = typ
        n = 1
        for s in shape:
            if s < 0:
                self.exc = ValueError('negative dimensions are not allowed')
                return 0
            n *= s
        o.shape = tuple(shape)
        o.data = self.alloc(n * (16 if typ == 15 else 8), kind, name)
        o.dims = self.alloc(8 * max(1, len(shape)), 'stack', 'dims')
        for i, s in enumerate(shape):
            o.dims.obj.cells[8 * i] = (s, 8, 'i64')
        return o

    def x_PyArray_FROM_OTF(self, obj, typ, flags):
        from . import npx
        import numpy as np
        if obj == 0 and not isinstance(obj, PyObj):
            self.exc = SystemError('null argument')
            return 0
        if obj.kind == 'array':
            obj.refs += 1
            return obj
        try:
            a = npx.symarray(obj.value if isinstance(obj.value, np.ndarray) else npx._tolist(obj.value))
        except (TypeError, ValueError) as e:
            self.exc = e
            return 0
        if typ not in (12, 15):
            raise Unsupported('array type %d' % typ)
        if typ == 12 and npx.kindof(obj.value) == 'c' and not (flags & 0x10):
            self.exc = TypeError("Cannot cast array data from dtype('complex128') to dtype('float64') according to the rule 'safe'")
            return 0
        o = self.new_array(a.shape, typ, 'input', getattr(obj, 'argname', 'array'))
        c = o.data.obj.cells
        for i, v in enumerate(np.asarray(a).ravel()):
            if typ == 15:
                c[16 * i] = (v.real, 8, 'double')
                c[16 * i + 8] = (v.imag, 8, 'double')
            else:
                c[8 * i] = (v, 8, 'double')
        return o

    def x_PyArray_DATA_(self, o):
        return self._arr(o).data

    def _arr(self, o):
        if not isinstance(o, PyObj) or o.kind != 'array':
            raise CError('array access on a null or non-array object')
        if o.refs <= 0:
            raise CError('use of a released array')
        return o

    def x_PyArray_DIM_(self, o, i):
        o = self._arr(o)
        if i >= o.nd or i < 0:
            raise CError('dimension %d of a %d-dimensional array' % (i, o.nd))
        return o.shape[i]

    def x_PyArray_DIMS_(self, o):
        return self._arr(o).dims

    def x_PyArray_NDIM_(self, o):
        return self._arr(o).nd

    def x_PyArray_SIZE_(self, o):
        n = 1
        for s in self._arr(o).shape:
            n *= s
        return n

    def x_PyArray_SimpleNew_(self, nd, dims, typ):
        sh = [self.use(self.load('i64', Ptr(dims.obj, dims.off + 8 * i)), 'dimension') for i in range(nd)]
        return self.new_array(sh, typ, 'output', 'result')

    def x_PyArray_ZEROS_(self, nd, dims, typ, f):
        o = self.x_PyArray_SimpleNew_(nd, dims, typ)
        for k in range(0, o.data.obj.size, 8):
            o.data.obj.cells[k] = (Num.of(0), 8, 'double')
        return o

    def x_PyArray_Return(self, o):
        return o

    def x_Py_DECREF_(self, o):
        if o == 0 and not isinstance(o, PyObj):
            raise CError('Py_DECREF(NULL)')
        o.refs -= 1
        if o.refs < 0:
            raise CError('reference released twice')

    def x_Py_XDECREF_(self, o):
        if isinstance(o, PyObj):
            self.x_Py_DECREF_(o)

    def x_Py_INCREF_(self, o):
        o.refs += 1

    def x_PyErr_SetString(self, t, msg):
        self.exc = ValueError(self.cstr(msg))

    def x_PyErr_Format(self, t, msg, *a):
        self.exc = ValueError(self.cstr(msg))
        return 0

    def x_PyErr_NoMemory(self):
        self.exc = MemoryError()
        return 0

    def x_PyErr_Occurred(self):
        return 1 if self.exc else 0

    def x_vp_none(self):
        return self.pyobj('none')

    def x_PyArg_ParseTuple(self, args, fmt, *outs):
        return self._parse_args(args, {}, self.cstr(fmt), None, outs)

    def x_PyArg_ParseTupleAndKeywords(self, args, kw, fmt, kwlist, *outs):
        names = []
        off = kwlist.off
        while True:
            p = self.load('ptr', Ptr(kwlist.obj, off))
            if not isinstance(p, Ptr):
                break
            names.append(self.cstr(p))
            off += 8
        return self._parse_args(args, kw.value if isinstance(kw, PyObj) else {}, self.cstr(fmt), names, outs)

    def _parse_args(self, args, kw, fmt, names, outs):
        fmt = fmt.split(':')[0].split(';')[0]
        pos = list(args.value)
        kw = dict(kw or {})
        i, k, opt = 0, 0, False
        outs = list(outs)
        for ch in fmt:
            if ch == '|':
                opt = True
                continue
            if ch == '$':
                continue
            if ch == '!':
                raise Unsupported('PyArg format !')
            if k < len(pos):
                v = pos[k]
            elif names and names[k] in kw:
                v = kw.pop(names[k])
            elif opt:
                k += 1
                outs.pop(0)
                continue
            else:
                self.exc = TypeError('function missing required argument')
                return 0
            p = outs.pop(0)
            if ch == 'O':
                o = self.pyobj('object', v)
                o.argname = names[k] if names else ''
                o.borrowed = True
                self.store('ptr', p, o)
            elif ch == 'd':
                n = Num.of(v) if not isinstance(v, (str, list)) else None
                if n is None or not n.isreal():
                    self.exc = TypeError('must be real number')
                    return 0
                self.store('double', p, n)
            elif ch in 'ilnp':
                if isinstance(v, (float, Num)) and not (isinstance(v, Num) and v.isreal() and N.is_integral(v.re)):
                    self.exc = TypeError("'float' object cannot be interpreted as an integer")
                    return 0
                self.store({'i': 'i32', 'p': 'i32', 'l': 'i64', 'n': 'i64'}[ch], p, int(v))
            else:
                raise Unsupported('PyArg format ' + ch)
            k += 1
        if k < len(pos) or kw:
            self.exc = TypeError('unexpected argument')
            return 0
        return 1


# ------------------------------------------------------------------ driver
_MODS = {}


def ir_text(src):
    from . import build
    with open(src, 'rb') as f:
        data = f.read()
    h = hashlib.sha256(data + b'v1').hexdigest()[:20]
    out = os.path.join(build.build_dir(), os.path.basename(src) + '_' + h + '.ll')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['clang', '-O0', '-std=gnu99', '-fopenmp', '-w', '-S', '-emit-llvm', '-fno-discard-value-names',
                            '-I' + os.path.join(HERE, 'cinc'), '-o', tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('clang: ' + r.stderr[-500:])
        os.replace(tmp, out)
    with open(out) as f:
        return f.read()


def module(src):
    if src not in _MODS:
        _MODS[src] = Module(ir_text(src))
    return _MODS[src]


def methods(mod):
    out = {}
    for name, body in mod.globals.items():
        if 'PyMethodDef' in body:
            for a, b in re.findall(r'\{ ptr @([\w.]+), ptr @([\w.]+), i32 \d+', body):
                s = re.match(r'^\[\d+ x i8\] c"((?:[^"\\]|\\..)*)"', mod.globals.get(a, ''))
                if s:
                    out[s.group(1).replace('\\00', '')] = b
    return out


LAST = [None]


def call(src, fname, args, kw, max_steps=3000000):
    """run one extension function; returns (SymArray, Machine)"""
    import numpy as np
    from .npx import SymArray
    mod = module(src)
    mt = methods(mod)
    if fname not in mt:
        raise AttributeError(fname)
    m = Machine(mod, max_steps)
    m._consts = {}
    m.writes_inputs = []
    LAST[0] = m
    a = m.pyobj('tuple', tuple(args))
    k = m.pyobj('dict', dict(kw)) if kw else 0
    r = m.call(mt[fname], [0, a, k])
    m.result = r
    m.leaks = [o for o in m.heap if o.alive]
    m.pyleaks = [o for o in m.pyobjs if o.kind == 'array' and o is not r and o.refs > 0]
    if not isinstance(r, PyObj):
        e = m.exc or SystemError('%s returned NULL without setting an exception' % fname)
        raise e
    if r.kind == 'none':
        return None, m
    out = np.empty(r.shape, dtype=object)
    flat = out.reshape(-1)
    c = r.data.obj.cells
    for i in range(flat.size):
        if r.type == 15:
            re_, im = c.get(16 * i, (UN,))[0], c.get(16 * i + 8, (UN,))[0]
            if re_ is UN or im is UN:
                raise CError('the returned array has an element that was never written: %d' % i)
            flat[i] = Num.of(re_) + Num.of(im) * Num.of(1j)
        else:
            v = c.get(8 * i, (UN,))[0]
            if v is UN:
                raise CError('the returned array has an element that was never written: %d' % i)
            flat[i] = Num.of(v)
    out = out.view(SymArray)
    out.kind = 'c' if r.type == 15 else 'f'
    return out, m
