"""P26 constant evaluation: the branches taken by the compiler's evaluator give the same results

Every `std::is_constant_evaluated()` of the headers is made true, so that the branches the compiler's evaluator takes become
ordinary code of the harnesses of P01, P07 and P10."""
import glob
import os
import re
from . import p01, p07, p10
from engine import runner

ID = 'P26'
BOUNDS = 'every value of every element, symbolic index below size(); the instantiated widths; SSE2, SSE4.2, AVX, AVX2+FMA'
OUTSIDE = 'operations the compilers do not accept in constant expressions (whatever assigns to an element of a native vector)'
OPTS = {}
CHUNK = 60
FAM = [(p01, r'(mask_)?(broadcast|generate|read|convert_to_\d+p)'), (p07, r'(all|any|none|some)_of|reduce_.*'), (p10, r'reduce.*')]


def standard():
    r = {'<type_traits>', '<bit>', '<algorithm>', '<array>', '<cmath>', '<functional>', '<numeric>', '<memory>', '<utility>', '<tuple>', '<span>', '<limits>', '<concepts>', '<cfenv>', '<string>'}
    for f in glob.glob(runner.REPO + '/dpm/**/*.hpp', recursive=True):
        with open(f) as g:
            r.update(x for x in re.findall(r'#\s*include\s*(<[a-z_]+>)', g.read()))
    return sorted(r)


HEAD = (runner.FIRST + '\n' + ''.join('#if __has_include(%s)\n#include %s\n#endif\n' % (x, x) for x in standard()) + '#include <immintrin.h>\n'
        'namespace std { constexpr bool dpm_constant_evaluated() noexcept { return true; } }\n#define is_constant_evaluated dpm_constant_evaluated\n')


def gen(tier):
    for m, fam in FAM:
        for h in m.gen(tier):
            q = h.id.split('.')
            if not re.fullmatch(fam, q[1]) or len(q) < 5 or not re.fullmatch(r'\d+(f|a\d+)', q[3]):
                continue
            h.id = 'P26.' + h.id[4:]
            yield h
