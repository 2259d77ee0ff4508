"""Harness descriptions: C++ functions over whole SIMD objects in memory plus a specification over their lanes."""
from . import term as t
from .term import const

TY = {
    'i8': ('std::int8_t', 1, 's'), 'u8': ('std::uint8_t', 1, 'u'),
    'i16': ('std::int16_t', 2, 's'), 'u16': ('std::uint16_t', 2, 'u'),
    'i32': ('std::int32_t', 4, 's'), 'u32': ('std::uint32_t', 4, 'u'),
    'i64': ('std::int64_t', 8, 's'), 'u64': ('std::uint64_t', 8, 'u'),
    'f32': ('float', 4, 'f'), 'f64': ('double', 8, 'f'),
}
FLOATS = ('f32', 'f64')
SINTS = ('i8', 'i16', 'i32', 'i64')
UINTS = ('u8', 'u16', 'u32', 'u64')
INTS = tuple(x for p in zip(SINTS, UINTS) for x in p)
ALL = FLOATS + INTS
ISAS = {
    'sse2': ['-msse2'],
    'sse4.2': ['-msse4.2'],
    'avx': ['-mavx'],
    'avx2': ['-mavx2', '-mfma'],
}
HAS_AVX = {'sse2': False, 'sse4.2': False, 'avx': True, 'avx2': True}


def size(T):
    return TY[T][1]


def cpp(T):
    return TY[T][0]


def isf(T):
    return TY[T][2] == 'f'


def issigned(T):
    return TY[T][2] == 's'


class Abi:
    """aligned_vector<N,A> (A=-1: packed_buffer) or scalar"""

    def __init__(self, N, A=0):
        self.N, self.A = N, A

    def cpp(self):
        if self.A == 'scalar':
            return 'dpm::simd_abi::scalar'
        a = 'SIZE_MAX' if self.A == -1 else str(self.A)
        return 'dpm::simd_abi::ext::aligned_vector<%d, %s>' % (self.N, a)

    def tag(self):
        if self.A == 'scalar':
            return 'sc'
        return '%d%s' % (self.N, {-1: 'p', 0: 'f'}.get(self.A, 'a%d' % self.A if self.A not in (-1, 0) else ''))

    def x86(self, T, isa):
        """native register width in bytes used for this ABI, 0 for the generic implementation"""
        if self.A in ('scalar', -1):
            return 0
        N, A, s = self.N, self.A, size(T)
        if N <= 1:
            return 0
        if HAS_AVX[isa]:
            if A == 0:
                return 32 if N > 16 // s else 16
            return 32 if A >= 32 else 16 if A >= 16 else 0
        return 16 if A == 0 or A >= 16 else 0


class Arg:
    """one pointer argument. kind: V simd, M mask, A plain array; io: i, o, io"""

    def __init__(self, name, kind, T, abi=None, n=None, io='i', align=None, boolean=False):
        self.name, self.kind, self.T, self.abi, self.n, self.io = name, kind, T, abi, n, io
        self.align = align
        self.boolean = boolean      # array of C++ bool (0/1 bytes)

    def ctype(self):
        if self.kind == 'V':
            return 'dpm::simd<%s, %s>' % (cpp(self.T), self.abi.cpp())
        if self.kind == 'M':
            return 'dpm::simd_mask<%s, %s>' % (cpp(self.T), self.abi.cpp())
        return 'bool' if self.boolean else cpp(self.T)

    def N(self):
        return self.n if self.kind == 'A' else self.abi.N


def V(name, T, abi, io='i'):
    return Arg(name, 'V', T, abi, io=io)


def M(name, T, abi, io='i'):
    return Arg(name, 'M', T, abi, io=io)


def A(name, T, n, io='i', **kw):
    return Arg(name, 'A', T, n=n, io=io, **kw)


def B(name, n=1, io='o'):
    return Arg(name, 'A', 'u8', n=n, io=io, boolean=True)


class H:
    """A harness.

    body: C++ statements using argument names as references (arrays: pointers)
    spec(c) -> iterable of (label, bool term) that must hold
    pre(c) -> iterable of bool terms assumed
    """

    def __init__(self, id, isa, args, body, spec, pre=None, deps=(), what=None, timeout=None, fp=True, undef_ok=False, bank=None,
                 fp_timeout=None, stubs=None, mem=True, known=()):
        self.id, self.isa, self.args, self.body, self.spec, self.pre = id, isa, args, body, spec, pre
        self.deps = tuple(deps)
        self.what = what or id
        self.timeout = timeout
        self.fp = fp
        self.fp_timeout = fp_timeout
        self.bank = bank
        self.stubs = stubs
        self.mem = mem
        self.known = known      # [(finding id, predicate(c) -> bool term)]

    def sym(self):
        return 'h_' + ''.join(ch if ch.isalnum() else '_' for ch in self.id)

    def source(self):
        ps, refs = [], []
        for a in self.args:
            c = '' if 'o' in a.io else 'const '
            if a.kind == 'A' and a.n != 1:
                ps.append('%s%s *__restrict %s' % (c, a.ctype(), a.name))
            else:
                ps.append('%s%s *__restrict p_%s' % (c, a.ctype(), a.name))
                refs.append('auto &%s = *p_%s;' % (a.name, a.name))
        s = getattr(self, 'decl', '') + 'extern "C" void %s(%s)\n{\n\tusing namespace dpm;\n\t%s\n\t%s\n}\n' % (self.sym(), ', '.join(ps), ' '.join(refs), self.body)
        for a in self.args:
            if a.kind != 'A':
                s += 'extern "C" const unsigned long %s__sz_%s = sizeof(%s);\n' % (self.sym(), a.name, a.ctype())
        return s


class Ctx:
    """lane terms seen by specifications. init[name][i], fin[name][i]"""

    def __init__(self, h):
        self.h = h
        self.arg = {a.name: a for a in h.args}
        self.init = {}
        self.fin = {}
        self.sizes = {}
        self.isa = h.isa

    def lanes(self, name):
        """input lanes (first N)"""
        return self.init[name][:self.arg[name].N()]

    def out(self, name):
        return self.fin[name][:self.arg[name].N()]

    def bits(self, name):
        """mask input as list of bools"""
        return self.ibits[name][:self.arg[name].N()]

    def obits(self, name):
        """mask output lanes as (bool, wellformed)"""
        a = self.arg[name]
        r = []
        for x in self.out(name):
            if a.kind == 'M' and layout(a, self.isa, self.sizes[name])[0] > 0 and self.x86(a):
                on = t.ones(x.w)
            else:
                on = const(1, x.w)
            r.append((t.ne(x, const(0, x.w)), t.or_(t.eq(x, const(0, x.w)), t.eq(x, on))))
        return r

    def x86(self, a):
        return a.abi.x86(a.T, self.isa) > 0


def layout(a, isa, nbytes):
    """(lane bytes, lane count incl. padding)"""
    if a.kind == 'M' and not a.abi.x86(a.T, isa):
        return 1, nbytes
    s = 1 if a.boolean else size(a.T)
    return s, nbytes // s


def make_inputs(h, sizes, mkvar=None):
    """returns ctx with init lanes as variables"""
    c = Ctx(h)
    c.sizes = sizes
    c.ibits = {}
    for a in h.args:
        if 'i' not in a.io:
            continue
        s, n = layout(a, h.isa, sizes[a.name])
        L = []
        bits = []
        for i in range(n):
            if a.kind == 'M':
                b = t.var('%s[%d]' % (a.name, i), 1)
                bits.append(b)
                L.append(t.sext(b, 8 * s) if c.x86(a) else t.zext(b, 8))
            elif a.boolean:
                b = t.var('%s[%d]' % (a.name, i), 1)
                bits.append(b)
                L.append(t.zext(b, 8))
            else:
                L.append(t.var('%s[%d]' % (a.name, i), 8 * s))
        c.init[a.name] = L
        c.ibits[a.name] = bits
    return c
