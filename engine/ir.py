"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) we execute."""
import re
import struct

TOK = re.compile(r'''
  \s+
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+(?![a-zA-Z_]))
 |(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<ell>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('tok: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# types: ('i',n) ('f',32|64|16|80) ('ptr',) ('void',) ('vec',n,t) ('arr',n,t) ('st',[t],packed) ('fn',) ('label',) ('metadata',)
I1 = ('i', 1)
PTR = ('ptr',)
_FT = {'float': ('f', 32), 'double': ('f', 64), 'half': ('f', 16), 'x86_fp80': ('f', 80), 'bfloat': ('f', 15)}

ATTRS = set('''noundef nonnull nocapture readonly readnone writeonly signext zeroext returned noalias immarg inreg swiftself
 noinline nounwind nofree nosync willreturn mustprogress alwaysinline local_unnamed_addr unnamed_addr dso_local tail musttail notail
 fast nnan ninf nsz arcp contract afn reassoc nuw nsw exact disjoint inbounds volatile writable dead_on_unwind nneg
 linkonce_odr internal private available_externally weak_odr weak linkonce external hidden protected default comdat
 ccc fastcc coldcc cold hot noreturn norecurse speculatable memory thread_local constant allocptr samesign noreturn'''.split())


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isp(self, s):
        return self.peek() == ('p', s)

    def isw(self, s):
        return self.peek() == ('word', s)

    def eat(self, s):
        x = self.next()
        if x[1] != s:
            raise ParseError('expected %r got %r in %r' % (s, x, ' '.join(y[1] for y in self.t[:60])))

    def opt(self, s):
        if self.peek()[1] == s and self.peek()[0] in ('p', 'word'):
            self.i += 1
            return True
        return False

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word':
                if v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'addrspace', 'sret', 'byval', 'elementtype',
                         'range', 'memory', 'nofpclass', 'allocsize', 'initializes', 'captures'):
                    self.i += 1
                    if self.isp('('):
                        d = 0
                        while True:
                            x = self.next()
                            if x == ('p', '('):
                                d += 1
                            elif x == ('p', ')'):
                                d -= 1
                                if d == 0:
                                    break
                    elif self.peek()[0] == 'num':
                        self.i += 1
                    continue
                if v in ATTRS:
                    self.i += 1
                    continue
            elif k == 'attr':
                self.i += 1
                continue
            elif k == 'str' and not v.startswith('c"'):
                self.i += 1
                if self.isp('='):
                    self.i += 2
                continue
            return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.isw('addrspace'):
                    self.i += 4
                t = PTR
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v in _FT:
                t = _FT[v]
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise ParseError('type %r' % v)
        elif k == 'p' and v == '<':
            if self.isp('{'):
                self.next()
                t = ('st', self.types('}'), True)
                self.eat('>')
            else:
                n = int(self.next()[1])
                self.eat('x')
                t = ('vec', n, self.type())
                self.eat('>')
        elif k == 'p' and v == '[':
            n = int(self.next()[1])
            self.eat('x')
            t = ('arr', n, self.type())
            self.eat(']')
        elif k == 'p' and v == '{':
            t = ('st', self.types('}'), False)
        elif k == 'loc':
            t = ('named', v)
        else:
            raise ParseError('type tok %r' % ((k, v),))
        while self.isp('('):       # function type
            self.next()
            d = 1
            while d:
                x = self.next()
                if x == ('p', '('):
                    d += 1
                elif x == ('p', ')'):
                    d -= 1
            t = ('fn', t)
        return t

    def types(self, end):
        r = []
        while not self.isp(end):
            r.append(self.type())
            self.opt(',')
        self.eat(end)
        return tuple(r)

    # values: ('loc',name) ('glob',name) ('int',v) ('fp',bits) ('null',) ('zero',) ('undef',) ('poison',) ('agg',[(t,v)]) ('str',bytes) ('gep',...) ('cast',op,t,v,t2)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            return self.num(v, ty)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('undef', 'poison'):
                return (v,)
            if v == 'none':
                return ('undef',)
            if v == 'splat':
                self.eat('(')
                t = self.type()
                e = self.value(t)
                self.eat(')')
                return ('agg', [(t, e)] * ty[1])
            if v == 'getelementptr':
                self.skip_attrs()
                self.eat('(')
                bt = self.type()
                self.eat(',')
                ops = []
                while True:
                    self.skip_attrs()
                    if self.isw('inrange'):
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.opt(','):
                        break
                self.eat(')')
                return ('gep', bt, ops)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
                self.eat('(')
                t = self.type()
                e = self.value(t)
                self.eat('to')
                t2 = self.type()
                self.eat(')')
                return ('cast', v, t, e, t2)
            if v in ('sub', 'add', 'xor', 'and', 'or', 'mul', 'shl'):
                self.skip_attrs()
                self.eat('(')
                t = self.type()
                a = self.value(t)
                self.eat(',')
                t2 = self.type()
                b = self.value(t2)
                self.eat(')')
                return ('cbin', v, t, a, b)
            if v == 'blockaddress' or v == 'asm':
                raise ParseError('unsupported const ' + v)
        if k == 'str':
            return ('str', unesc(v[2:-1]))
        if k == 'p' and v in '<[{':
            end = {'<': '>', '[': ']', '{': '}'}[v]
            if v == '<' and self.isp('{'):
                self.next()
                end = '}'
                packed = True
            else:
                packed = False
            r = []
            while not self.isp(end):
                t = self.type()
                r.append((t, self.value(t)))
                self.opt(',')
            self.eat(end)
            if packed:
                self.eat('>')
            return ('agg', r)
        raise ParseError('value %r for %r' % ((k, v), ty))

    def num(self, v, ty):
        if ty[0] == 'f':
            if v.startswith('0x'):
                if v[2] in 'KLMHR':
                    return ('fp', int(v[3:], 16))
                b = int(v, 16)
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
            else:
                d = float(v)
                b = struct.unpack('<Q', struct.pack('<d', d))[0]
            if ty[1] == 64:
                return ('fp', b)
            if ty[1] == 32:
                if d != d:
                    # keep payload: double NaN -> float NaN
                    return ('fp', ((b >> 63) << 31) | 0x7f800000 | ((b >> 29) & 0x7fffff))
                return ('fp', struct.unpack('<I', struct.pack('<f', d))[0])
            raise ParseError('fp const')
        return ('int', int(v, 0))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')

    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line


class Fn:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.raw = []
        self._blocks = None
        self.mod = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        buf = None
        for line in self.raw:
            s = line.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                # entry block label is the next unnamed number after params
                cur = '%entry!'
                blocks[cur] = []
                order.append(cur)
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    s = buf
                    buf = None
                else:
                    continue
            elif s.startswith('switch') and not s.rstrip().endswith(']'):
                buf = s
                continue
            blocks[cur].append(parse_ins(s, self.mod))
        self._blocks = blocks
        self.order = order
        # implicit entry label name used in phis
        if order and order[0] == '%entry!':
            n = len(self.params)
            self.entry_alias = '%' + str(n)
            # phi predecessors refer to it by number; normalise
            blocks2 = {}
            for k, v in blocks.items():
                blocks2[self.entry_alias if k == '%entry!' else k] = v
            self._blocks = blocks2
            self.order = [self.entry_alias if k == '%entry!' else k for k in order]
        self._cfg()

    def _cfg(self):
        succ = {}
        for b, ins in self._blocks.items():
            t = ins[-1]
            if t.op == 'br':
                succ[b] = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
            else:
                succ[b] = []
        self.succ = succ
        # blocks that can reach a ret
        rets = [b for b, ins in self._blocks.items() if ins[-1].op == 'ret']
        pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        live = set(rets)
        st = list(rets)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        self.live = live
        # immediate post-dominators over live blocks, virtual exit '$exit'
        nodes = list(live)
        EXIT = '$exit'
        s2 = {b: ([x for x in succ[b] if x in live] or []) + ([EXIT] if self._blocks[b][-1].op == 'ret' else []) for b in nodes}
        # reverse postorder on reversed graph
        p2 = {b: [] for b in nodes}
        p2[EXIT] = []
        for b in nodes:
            for s in s2[b]:
                p2[s].append(b)
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(p2[EXIT]))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(p2[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        idx = {n: i for i, n in enumerate(order)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for n in reversed(order):
                if n == EXIT:
                    continue
                new = None
                for s in s2[n]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while idx[x] < idx[y]:
                                    x = ip[x]
                                while idx[y] < idx[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(n) != new:
                    ip[n] = new
                    ch = True
        self.ipdom = ip


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


def parse_ins(s, mod):
    line = s
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1) == ('p', '='):
        dst = p.next()[1]
        p.next()
    while p.peek()[1] in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()[1]
    if op in BINOPS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.eat(',')
        b = p.value(t)
        return Ins(op, dst, t, (a, b), line)
    if op == 'fneg' or op == 'freeze':
        p.skip_attrs()
        t = p.type()
        return Ins(op, dst, t, (p.value(t),), line)
    if op in CASTS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.eat('to')
        t2 = p.type()
        return Ins(op, dst, t2, (t, a), line)
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.eat(',')
        b = p.value(t)
        return Ins(op, dst, t, (pred, a, b), line)
    if op == 'select':
        p.skip_attrs()
        ct = p.type()
        c = p.value(ct)
        p.eat(',')
        t = p.type()
        a = p.value(t)
        p.eat(',')
        p.type()
        b = p.value(t)
        return Ins(op, dst, t, (ct, c, a, b), line)
    if op == 'load':
        p.skip_attrs()
        t = p.type()
        p.eat(',')
        p.type()
        a = p.value(PTR)
        return Ins(op, dst, t, (a,), line)
    if op == 'store':
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.type()
        a = p.value(PTR)
        return Ins(op, dst, t, (v, a), line)
    if op == 'alloca':
        t = p.type()
        n = ('int', 1)
        al = 16
        while p.opt(','):
            if p.isw('align'):
                p.next()
                al = int(p.next()[1])
            else:
                nt = p.type()
                n = p.value(nt)
        return Ins(op, dst, t, (n, al), line)
    if op == 'getelementptr':
        p.skip_attrs()
        bt = p.type()
        ops = []
        while p.opt(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            ops.append((t, p.value(t)))
        return Ins(op, dst, bt, ops, line)
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.eat('[')
            v = p.value(t)
            p.eat(',')
            b = p.next()[1]
            p.eat(']')
            inc.append((v, b))
            if not p.opt(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Ins(op, dst, t, inc, line)
    if op == 'br':
        if p.isw('label'):
            p.next()
            return Ins(op, None, None, (p.next()[1],), line)
        p.type()
        c = p.value(I1)
        p.eat(',')
        p.eat('label')
        a = p.next()[1]
        p.eat(',')
        p.eat('label')
        b = p.next()[1]
        return Ins(op, None, None, (c, a, b), line)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.eat('label')
        d = p.next()[1]
        p.eat('[')
        cs = []
        while not p.isp(']'):
            ct = p.type()
            cv = p.value(ct)
            p.eat(',')
            p.eat('label')
            cs.append((cv, p.next()[1]))
        return Ins(op, None, t, (v, d, cs), line)
    if op == 'ret':
        t = p.type()
        return Ins(op, None, t, () if t == ('void',) else (p.value(t),), line)
    if op == 'unreachable':
        return Ins(op, None, None, (), line)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.eat(',')
        it = p.type()
        return Ins(op, dst, t, (v, it, p.value(it)), line)
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.eat(',')
        et = p.type()
        e = p.value(et)
        p.eat(',')
        it = p.type()
        return Ins(op, dst, t, (v, et, e, it, p.value(it)), line)
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.eat(',')
        p.type()
        b = p.value(t)
        p.eat(',')
        mt = p.type()
        return Ins(op, dst, t, (a, b, mt, p.value(mt)), line)
    if op in ('extractvalue',):
        t = p.type()
        v = p.value(t)
        ix = []
        while p.opt(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return Ins(op, dst, t, (v, ix), line)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.eat(',')
        et = p.type()
        e = p.value(et)
        ix = []
        while p.opt(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return Ins(op, dst, t, (v, et, e, ix), line)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        p.skip_attrs()
        if p.isw('asm'):
            p.next()
            while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            tmpl = p.next()[1]
            p.eat(',')
            cons = p.next()[1]
            callee = ('asm', tmpl, cons)
        else:
            callee = p.value(PTR)
        p.eat('(')
        args = []
        while not p.isp(')'):
            at = p.type()
            p.skip_attrs()
            if at == ('metadata',):
                while not (p.isp(',') or p.isp(')')):
                    p.next()
                args.append((at, None))
            else:
                args.append((at, p.value(at)))
            p.opt(',')
        p.eat(')')
        return Ins('call', dst, t, (callee, args), line)
    if op == 'fence':
        return Ins('nop', None, None, (), line)
    raise ParseError('instruction %r' % s)


class Module:
    def __init__(self):
        self.fns = {}
        self.decls = set()
        self.globals = {}
        self.types = {}
        self._lay = {}

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._layout(t)
            self._lay[t] = r
        return r

    def _layout(self, t):
        """(allocsize, align)"""
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return (s, min(s, 16))
        if k == 'f':
            if t[1] == 80:
                return (16, 16)
            return (t[1] // 8, t[1] // 8)
        if k == 'ptr':
            return (8, 8)
        if k == 'vec':
            et = self.resolve(t[2])
            bitsz = (et[1] if et[0] in 'if' else 64) * t[1]
            n = (bitsz + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return (s, s)
        if k == 'arr':
            s, a = self.layout(t[2])
            return (s * t[1], a)
        if k == 'st':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise ParseError('layout %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.layout(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError(i)


def parse_module(text):
    m = Module()
    cur = None
    aliases = {}
    for line in text.split('\n'):
        if cur is not None:
            if line.startswith('}'):
                cur = None
            else:
                cur.raw.append(line)
            continue
        if not line or line[0] in ';!' or line.startswith(('target', 'source_filename', 'attributes', '$', 'module asm')):
            continue
        if line.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
            name = '@' + mm.group(1)
            # params
            p = P(tokenize(line[mm.end():].rstrip('{ ').rstrip()), m)
            params = []
            n = 0
            while not p.isp(')'):
                if p.peek()[0] == 'ell':
                    p.next()
                    continue
                t = p.type()
                p.skip_attrs()
                if p.peek()[0] == 'loc':
                    pn = p.next()[1]
                else:
                    pn = '%%%d' % n
                n += 1
                params.append((t, pn))
                p.opt(',')
            head = line[len('define'):mm.start()]
            hp = P(tokenize(head), m)
            hp.skip_attrs()
            try:
                rt = hp.type()
            except ParseError:
                rt = None
            f = Fn(name, rt, params)
            f.mod = m
            m.fns[name] = f
            cur = f
            continue
        if line.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
            m.decls.add('@' + mm.group(1))
            continue
        if line[0] == '%':
            mm = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', line)
            p = P(tokenize(mm.group(2)), m)
            m.types[mm.group(1)] = p.type()
            continue
        if line[0] == '@':
            mm = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', line)
            m.globals[mm.group(1)] = [mm.group(2), None]
            al = re.search(r'\balias\b.*, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))$', mm.group(2))
            if al:
                aliases[mm.group(1)] = al.group(1)
            continue
        raise ParseError('top: ' + line[:100])
    for a, b in aliases.items():
        b = aliases.get(b, b)
        if b in m.fns and a not in m.fns:
            m.fns[a] = m.fns[b]
    return m


def global_init(m, name):
    g = m.globals[name]
    if g[1] is None:
        body = g[0]
        p = P(tokenize(body), m)
        ext = False
        const = False
        while True:
            k, v = p.peek()
            if v == 'external':
                ext = True
            if v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v == 'alias':
                raise ParseError('alias ' + name)
            p.next()
            if k == 'eof':
                raise ParseError('global ' + body[:80])
        t = p.type()
        init = None if ext else p.value(t)
        g[1] = (t, init, const)
    return g[1]
