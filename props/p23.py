"""P23 feature detection: what ext::cpuid reports for every possible processor and operating-system state"""
import re
import subprocess
from .common import *
from engine import symex

ID = 'P23'
BOUNDS = 'every value of the CPUID registers of leaves 0, 1 and 7 (sub-leaf 0 and another one), of XCR0, and of a register returned for an unsupported leaf'
OUTSIDE = 'the SSE flags when the operating system does not enable XSAVE (they are then read from /proc/cpuinfo; opening it is taken to fail); MSVC, Apple, BSD and Windows branches'
DEP = 'dpm/detail/x86/cpuid.cpp'
# inputs: the machine
MAX, B0, C0, D0, A1, B1, C1, D1, B7, C7, D7, A7, SUB, JUNK, XA, XD = range(16)

HEAD = '''#include <dpm/detail/x86/cpuid.hpp>
#include <new>
extern "C" void vp_set(const std::uint32_t *);
static __attribute__((noinline)) void vp_run() { ::new (const_cast<dpm::ext::cpuid *>(&dpm::ext::cpuid::cpu_info)) dpm::ext::cpuid(); }
'''

STUB = '''
.intel_syntax noprefix
.text
.globl vp_set
.hidden vp_set
vp_set:
 lea rdx, vp_cpu[rip]
 movdqu xmm0, [rdi]
 movdqu [rdx], xmm0
 movdqu xmm0, [rdi+16]
 movdqu [rdx+16], xmm0
 movdqu xmm0, [rdi+32]
 movdqu [rdx+32], xmm0
 movdqu xmm0, [rdi+48]
 movdqu [rdx+48], xmm0
 ret
.globl vp_cpuid
.hidden vp_cpuid
vp_cpuid:
 lea rbx, vp_cpu[rip]
 cmp eax, [rbx]
 ja 9f
 test eax, eax
 je 1f
 cmp eax, 1
 je 2f
 cmp eax, 7
 je 3f
9: mov eax, [rbx+52]
 mov ecx, eax
 mov edx, eax
 mov ebx, eax
 ret
1: mov eax, [rbx]
 mov ecx, [rbx+8]
 mov edx, [rbx+12]
 mov ebx, [rbx+4]
 ret
2: mov eax, [rbx+16]
 mov ecx, [rbx+24]
 mov edx, [rbx+28]
 mov ebx, [rbx+20]
 ret
3: test ecx, ecx
 je 4f
 mov eax, [rbx+48]
 mov ecx, eax
 mov edx, eax
 mov ebx, eax
 ret
4: mov eax, [rbx+44]
 mov ecx, [rbx+36]
 mov edx, [rbx+40]
 mov ebx, [rbx+32]
 ret
.globl vp_xgetbv
.hidden vp_xgetbv
vp_xgetbv:
 test ecx, ecx
 jne 8f
 lea rdx, vp_cpu[rip]
 cmp dword ptr [rdx], 1
 jb 8f
 test dword ptr [rdx+24], 0x8000000
 je 8f
 mov eax, [rdx+56]
 mov edx, [rdx+60]
 ret
8: ud2
.globl vp_open
.hidden vp_open
vp_open:
 mov eax, -1
 ret
.bss
.align 16
vp_cpu: .zero 64
.section .note.GNU-stack,"",@progbits
'''


def build(cxx, flags, srcs, so):
    """native build in which the privileged instructions and the file access are replaced by reads of the modelled machine"""
    from engine.runner import CompileError, sh
    objs = []
    for i, src in enumerate(srcs):
        s = '%s.%d.s' % (so, i)
        rc, o = sh([cxx] + flags + ['-mno-red-zone', '-S', src, '-o', s])
        if rc:
            raise CompileError('%s: %s' % (cxx, o[:2000]))
        with open(s) as f:
            a = f.read()
        a = re.sub(r'(?m)^(\s*)cpuid\s*$', r'\1call vp_cpuid', a)
        a = re.sub(r'(?mi)^(\s*)(xgetbv|\.byte\s+0x0f,\s*0x01,\s*0xd0)\s*$', r'\1call vp_xgetbv', a)
        a = re.sub(r'(call|jmp)(q?)(\s+\*?)open(64)?(@\S+)?', r'\1 vp_open ', a)
        with open(s, 'w') as f:
            f.write(a)
        objs.append(s)
    with open(so + '.stub.s', 'w') as f:
        f.write(STUB)
    rc, o = sh([cxx, '-shared', '-fPIC'] + objs + [so + '.stub.s', '-o', so])
    if rc:
        raise CompileError('%s: %s' % (cxx, o[:2000]))


def asm(c, ex, st, ins):
    """the instructions the detection is made of, on the modelled machine"""
    tmpl, cons, args = ins.a[0][1], ins.a[0][2], ins.a[1]
    tmpl = re.sub(r'\\([0-9A-Fa-f]{2})', lambda z: chr(int(z.group(1), 16)), tmpl).strip('"')
    m = c.lanes('cpu')
    outs, ops, k, j = [], [], 0, 0
    for x in cons.strip('"').split(','):
        if x.startswith('~'):
            continue
        if x.startswith('=') or x.startswith('"='):
            outs.append(x.strip('"').lstrip('=&'))
        else:
            ops.append(x.strip('"'))
    regs = {}
    for x, (ty, v) in zip(ops, args):
        v = ex.val(st, v, ex.mod.resolve(ty))
        r = outs[int(x)] if x.isdigit() else x
        regs[r] = t.trunc(v, 32) if v.w > 32 else v

    def reg(r):
        return regs.get(r) if regs.get(r) is not None else ex.undef(32, 'reg')
    lines = [y.strip() for y in re.split(r'\n|;', tmpl) if y.strip()]
    lines = [re.sub(r'\s+', ' ', y).replace('%%', '%').lower() for y in lines]
    osx = t.and_(t.uge(m[MAX], const(1, 32)), t.eq(t.extract(m[C1], 27, 27), const(1, 1)))
    if any('cpuid' == y for y in lines):
        leaf, sub = reg('{ax}'), reg('{cx}')

        def pick(l0, l1, l7):
            r = t.ite(t.eq(leaf, const(0, 32)), l0, t.ite(t.eq(leaf, const(1, 32)), l1, t.ite(t.eq(leaf, const(7, 32)),
                      t.ite(t.eq(sub, const(0, 32)), l7, m[SUB]), m[JUNK])))
            return t.ite(t.ugt(leaf, m[MAX]), m[JUNK], r)
        res = {'{ax}': pick(m[MAX], m[A1], m[A7]), '{bx}': pick(m[B0], m[B1], m[B7]), '{cx}': pick(m[C0], m[C1], m[C7]), '{dx}': pick(m[D0], m[D1], m[D7])}
        for i, o in enumerate(outs):
            if o == 'r':
                # %rbx is exchanged with this operand around the instruction
                if not (any(re.match(r'(xchg|mov)[lq]? ', y) and re.search(r'\$\{?%d' % i, y) and 'bx' in y for y in lines)):
                    raise symex.Unsupported('inline asm ' + tmpl)
                res[o] = res['{bx}']
            elif o not in res:
                raise symex.Unsupported('inline asm ' + tmpl)
    elif len(lines) == 1 and (lines[0] == 'xgetbv' or re.match(r'\.byte 0x0f, ?0x01, ?0xd0$', lines[0])):
        ex.obls.append(symex.Obl('trap', t.and_(st.pc, t.not_(t.and_(osx, t.eq(reg('{cx}'), const(0, 32))))), 'XGETBV without OS support or of an unknown register'))
        res = {'{ax}': m[XA], '{dx}': m[XD]}
    else:
        raise symex.Unsupported('inline asm %r' % (lines,))
    if len(outs) == 1:
        st.env[ins.dst] = res[outs[0]]
    elif ins.dst:
        st.env[ins.dst] = [res[o] for o in outs]
    return st


def bit(x, i):
    return t.eq(t.extract(x, i, i), const(1, 1))


def expect(m):
    """what the machine supports, per query"""
    l1, l7 = t.uge(m[MAX], const(1, 32)), t.uge(m[MAX], const(7, 32))
    osx = t.and_(l1, bit(m[C1], 27))
    xs = lambda k: t.and_(osx, t.eq(t.and_(m[XA], const(k, 32)), const(k, 32)))
    sse, avx, avx512 = xs(2), xs(6), xs(0xe6)
    r = {}

    def vendor(s):
        w = [int.from_bytes(s[i:i + 4].encode(), 'little') for i in (0, 4, 8)]
        return t.conj([t.eq(m[k], const(v, 32)) for k, v in zip((B0, D0, C0), w)])
    r['is_intel'], r['is_amd'] = vendor('GenuineIntel'), vendor('AuthenticAMD')
    for n, k in (('msr', 5), ('cx8', 8), ('sep', 11), ('cmov', 15), ('clfsh', 19)):
        r['has_' + n] = t.and_(l1, bit(m[D1], k))
    r['has_xsave'] = osx
    r['has_cmpxchg16b'] = t.and_(l1, bit(m[C1], 13))
    s = {}
    for n, w, k in (('sse', D1, 25), ('sse2', D1, 26), ('sse3', C1, 0), ('ssse3', C1, 9), ('sse4_1', C1, 19), ('sse4_2', C1, 20)):
        s['has_' + n] = t.and_(sse, bit(m[w], k))
    for n, k in (('avx', 28), ('fma', 12), ('f16c', 29)):
        r['has_' + n] = t.and_(avx, bit(m[C1], k))
    r['has_avx2'] = t.and_(t.and_(l7, avx), bit(m[B7], 5))
    for n, k in (('f', 16), ('cd', 28), ('bw', 30), ('dq', 17), ('vl', 31)):
        r['has_avx512' + n] = t.and_(t.and_(l7, avx512), bit(m[B7], k))
    return r, s, osx


FNS = ['is_intel', 'is_amd'] + ['has_' + x for x in ('msr cx8 sep cmov clfsh xsave f16c cmpxchg16b sse sse2 sse3 ssse3 sse4_1 sse4_2 avx avx2 fma avx512f avx512cd avx512bw '
                                                     'avx512dq avx512vl').split()]


def gen(tier):
    for isa in isas(tier):
        def sp(c):
            r, s, osx = expect(c.lanes('cpu'))
            for f, o in zip(FNS, c.out('o')):
                got = t.ne(o, const(0, 8))
                if f in r:
                    yield f, t.eq(got, r[f])
                else:
                    yield f, t.implies(osx, t.eq(got, s[f]))
        body = 'vp_set(cpu); vp_run(); ' + ' '.join('o[%d] = dpm::ext::cpuid::%s();' % (i, f) for i, f in enumerate(FNS))
        h = H('P23.cpuid.all.%s' % isa, isa, [A('cpu', 'u32', 16), A('o', 'u8', len(FNS), 'o')], body, sp, deps=[DEP], timeout=60)
        h.asm, h.build, h.cflags = asm, build, ['-fno-access-control']
        h.stubs = {'@vp_set': lambda ex, st, v, ins: const(0, 8), '@open': lambda ex, st, v, ins: t.ones(32), '@open64': lambda ex, st, v, ins: t.ones(32)}
        yield h
