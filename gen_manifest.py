#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: gen_manifest.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
D = 'dpm/detail/'
X, G = D + 'x86/', D + 'generic/'
SCOPE = ('all values of every lane, for float, double and the 8- to 64-bit signed and unsigned integers, in the x86 vectors (one partial, one full and several '
         'registers) and the generic ones, built for SSE2, SSE4.2, AVX and AVX2+FMA')
FSCOPE = ('all lane values of float and double vectors, x86 (one partial, one full and several registers) and generic, built for SSE2, SSE4.2, AVX and AVX2+FMA')
NOTEST = 'The test suite exercises %s; %s'
PROPS = []


def P(id, title, statement, scope, tests, files, mech, level_note=None, extra=None, over=('inputs', 'configurations')):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': scope}, why_tests_cant=tests,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, note=level_note))


P('P01', 'Element access, broadcast, generation and ABI conversion keep every element',
  'Broadcasting a scalar gives that value in every element, the generator constructor puts the value generated for index i in element i, and reading or '
  'writing v[i] through the subscript operator reads or changes element i and no other; the same holds for masks with bool elements. Copying a vector or mask, '
  'or converting it to one with the same elements count but another ABI (x86 alignments, generic packed), keeps every element.',
  SCOPE + '; every index below size()',
  'No existing test calls these operations on integers or reads results of generator constructors; a wrong lane order in one ISA/width pair, or a clobbered neighbour for one index, is invisible to the sampled math tests.',
  [X + 'type.hpp', X + 'utility.hpp', X + 'cvt.hpp', G + 'type.hpp', 'dpm/type.hpp'],
  [('broadcast / generator constructors and element references of simd and simd_mask', X + 'type.hpp'), ('set / fill of native registers', X + 'utility.hpp'), ('generic data array', G + 'type.hpp')])
P('P02', 'copy_from and copy_to touch exactly the elements and memory they should',
  'v.copy_from(p) loads element i from p[i] and v.copy_to(p) stores element i to p[i], converting like static_cast when the element types differ; the masked forms load or store '
  'exactly the elements whose mask element is set and leave the others unchanged. No byte outside the range p[0..size()) is read or written (for masked forms without conversion: none beyond the last selected '
  'element), and the same holds for masks copied from and to arrays of bool.',
  SCOPE + '; element_aligned and vector_aligned; conversions between the instantiated type pairs for values whose conversion is defined',
  'Tests only copy whole arrays of float/double that are larger than the vector, so reads and writes past the end and masked partial accesses never show.',
  [X + 'type.hpp', X + 'utility.hpp', X + 'cvt.hpp', G + 'type.hpp'],
  [('copy_from / copy_to of x86 vectors and masks', X + 'type.hpp'), ('maskload / maskstore', X + 'utility.hpp'), ('cast_copy_from / cast_copy_to', X + 'cvt.hpp'), ('generic copies', G + 'type.hpp')])
P('P03', 'Vector arithmetic is the scalar arithmetic of every lane',
  'Unary + and -, ++ and -- (prefix and postfix), binary + - * / %, the forms with a scalar operand and the compound assignments give in every lane the result of the scalar operation on that lane '
  '(two\'s complement modulo 2^n for integers, correctly rounded IEEE-754 for floating point).',
  SCOPE + '; integer division for nonzero divisors and representable quotients, on vectors of at most 5 elements in the quick tier',
  'No existing test covers integer arithmetic; emulated 64-bit and 8-bit multiplications must be right for all operand pairs.',
  [X + 'type.hpp', X + 'addsub.hpp', X + 'muldiv.hpp', G + 'type.hpp'],
  [('arithmetic operators of simd', X + 'type.hpp'), ('emulated integer multiplication and division', X + 'muldiv.hpp'), ('generic operators', G + 'type.hpp')])
P('P04', 'Bitwise operators and shifts act lane by lane with the right signedness',
  'On integer vectors & | ^ ~ and ! and their scalar and assignment forms act on every lane separately. a << b and a >> b, with vector or scalar counts below the bit width, and the constant shifts ext::lsl, lsr, asl, asr give '
  'the scalar shift of every lane, where >> and asr keep the sign of signed elements and lsr shifts in zeros.',
  SCOPE + ' (integer types); all counts below the bit width for run-time counts, representative compile-time counts in the quick tier (all of them in the thorough one)',
  'No existing test covers shifts; the SSE2/AVX emulations of 8-, 32- and 64-bit shifts split lanes and counts into parts whose bit-exact recombination only a check over all values settles.',
  [X + 'bitwise.hpp', X + 'type.hpp', G + 'type.hpp', G + 'math.hpp'],
  [('shift emulations', X + 'bitwise.hpp'), ('bitwise operators', X + 'type.hpp'), ('generic operators and shifts', G + 'type.hpp')])
P('P05', 'Comparisons set exactly the lanes for which the scalar comparison holds',
  'For vectors a and b, == != < <= > >= return a mask whose element i equals the scalar comparison of a[i] and b[i] (IEEE semantics with NaN for floating point, signed or unsigned order according to the element type).',
  SCOPE,
  'Tests compare only a few float/double values; unsigned and 64-bit comparisons are emulated by sign flips and 32-bit halves, and must hold for all pairs.',
  [X + 'cmp.hpp', X + 'type.hpp', G + 'type.hpp'], [('native comparisons', X + 'cmp.hpp'), ('generic comparisons', G + 'type.hpp')])
P('P06', 'Mask operators are the boolean operators of every element',
  '& | ^ && || == != ! ~ and the assignments &= |= ^= on masks give in each element the boolean operation on the corresponding elements of the operands, and nothing else.',
  SCOPE, 'No existing test covers mask operators other than through math functions.',
  [X + 'type.hpp', X + 'bitwise.hpp', G + 'type.hpp'], [('operators of simd_mask', X + 'type.hpp'), ('generic mask operators', G + 'type.hpp')])
P('P07', 'Mask reductions count exactly the elements of the mask',
  'all_of, any_of, none_of and some_of hold exactly when all, any, none, or some but not all elements of the mask are set (for a bool operand: of that single value). reduce_count is the number of set elements, and reduce_min_index and reduce_max_index are the '
  'first and last index of a set element when there is one.',
  SCOPE + '; masks whose native representation has arbitrary bits in unused trailing lanes',
  'Unused trailing lanes of partial registers hold arbitrary data, which the tests never provoke; every subset of set elements has to give the right answer.',
  [X + 'type.hpp', X + 'utility.hpp', G + 'type.hpp', 'dpm/type.hpp'],
  [('reductions of x86 masks', X + 'type.hpp'), ('movemask helpers', X + 'utility.hpp'), ('generic reductions', G + 'type.hpp')])
P('P08', 'blend takes the selected elements from its second argument and no others',
  'blend(m, a, b) returns in element i the value a[i] if m[i] is set and b[i] otherwise, for vectors and for masks.', SCOPE,
  'No existing test calls blend (the test for it does not even compile); each ISA has its own emulation.',
  [X + 'type.hpp', X + 'utility.hpp', G + 'type.hpp'], [('blend', X + 'type.hpp'), ('blendv emulation', X + 'utility.hpp'), ('generic blend', G + 'type.hpp')])
P('P09', 'Constant shuffles pick the listed elements in order',
  'ext::shuffle<i0, i1, ...>(v) returns a vector or mask with one element per listed index, in which element k is element i_k of v.',
  SCOPE + '; a fixed set of index lists per width (identity, reversal, rotation, swaps, broadcasts, half and quarter patterns, random ones, narrower and wider results), all element values',
  'No existing test calls shuffle; every ISA selects among dozens of instruction sequences according to the index pattern.',
  [X + 'transform.hpp', X + 'type.hpp', G + 'type.hpp'], [('shuffle emulations', X + 'transform.hpp'), ('generic shuffle', G + 'type.hpp')])
P('P10', 'Horizontal reductions use every lane exactly once',
  'reduce, hadd, hmul, hand, hor and hxor combine all size() elements of a vector, each exactly once and nothing else, whatever the operation functor, and reduce_min and reduce_max return the smallest and largest element. '
  'For integers the result equals the fold modulo 2^n.',
  SCOPE + '; floating-point sums of lanes holding integers small enough for every order to be exact, products with at most one factor other than 1, reduce_min/max without NaN',
  'No existing test calls reductions; elements dropped or padding lanes included depend on width, ISA and element type.',
  [X + 'type.hpp', X + 'utility.hpp', X + 'addsub.hpp', G + 'type.hpp', X + 'minmax.hpp'], [('reductions of x86 vectors', X + 'type.hpp'), ('native reductions', X + 'utility.hpp'), ('generic reductions', G + 'type.hpp')])
P('P11', 'min, max, minmax, clamp, fmin, fmax, fdim follow the scalar definition per lane',
  'min, max, minmax and clamp return in each lane the smaller, the larger, both, or the value limited to [lo, hi], for vector and scalar operands and for signed and unsigned order (operands not NaN, zeros compared by value). fmin and fmax return the other operand when one is NaN, and '
  'fdim returns the positive difference, +0 when the first operand is not larger, and NaN for a NaN operand.',
  SCOPE + '; fdim excluding infinities of equal sign; float and double operands mixed',
  'No existing test calls these; unsigned and 64-bit versions are emulated and NaN selects depend on operand order.',
  [X + 'minmax.hpp', X + 'type.hpp', X + 'math.hpp', G + 'type.hpp', G + 'math.hpp'], [('native minimum and maximum', X + 'minmax.hpp'), ('fmin, fmax, fdim', X + 'math.hpp'), ('generic versions', G + 'math.hpp')])
P('P12', 'Casts convert every element like static_cast and keep masks',
  'simd_cast, static_simd_cast, the converting constructors and to_fixed_size, to_native and to_compatible give in every element the static_cast of that element to the target type (rounded once to nearest for conversions to floating point, truncated towards zero for conversions to integers). '
  'Masks converted between element types or ABIs keep every element.',
  SCOPE + '; all pairs of element types, values for which the scalar conversion is defined',
  'No existing test calls casts; conversions between 64-bit integers and floating point are emulated on all but AVX-512 and must be correctly rounded for all 2^64 values.',
  [X + 'cvt.hpp', X + 'type.hpp', G + 'type.hpp', 'dpm/type.hpp'], [('native conversions', X + 'cvt.hpp'), ('casting constructors', X + 'type.hpp')])
P('P13', 'Rounding functions are exact for every value',
  'ceil, floor, trunc, round, rint and nearbyint return in each lane the integral value of the scalar function (including signed zeros, infinities and NaN) in the default rounding mode. lround, llround, lrint, llrint and the extensions '
  'iround, irint, itrunc, ltrunc and lltrunc return that value as an integer when it is representable.',
  FSCOPE + '; default rounding mode; integer results for representable values',
  'No existing test calls rounding functions; ties, values next to 0.5 and beyond 2^23, 2^31 or 2^52 are where the SSE2 emulations and conversions go wrong.',
  [X + 'round.hpp', X + 'math.hpp', G + 'math.hpp'], [('native rounding', X + 'round.hpp'), ('generic rounding', G + 'math.hpp')])

P('P14', 'Floating-point classification and quiet comparisons',
  'isnan, isinf, isfinite, isnormal, signbit and fpclassify give in each lane the scalar classification of that value, and isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered the scalar quiet comparison '
  '(false, or true for isunordered, when an operand is NaN). Operands of integer type or of different floating-point types are promoted to double first.',
  FSCOPE,
  'No existing test calls these functions; NaN, subnormal, infinite and equal operands distinguish the predicates from each other.',
  [X + 'class.hpp', G + 'math.hpp'], [('native classification', X + 'class.hpp'), ('generic classification', G + 'math.hpp')])
P('P15', 'Exponent manipulation is exact for every value and exponent',
  'frexp, modf, ldexp, scalbn, scalbln, ilogb and logb give in each lane the result of the C function for every value (subnormal, zero, infinite, NaN) and every int or long exponent, '
  'rounding once to nearest when a scaled result is subnormal and overflowing to infinity. ilogb yields FP_ILOGB0, FP_ILOGBNAN and INT_MAX for zero, NaN and infinity, logb yields -infinity for zero.',
  FSCOPE + '; exponents as vectors and as scalars; default rounding mode; the exponent stored by frexp for finite values',
  'No existing test calls these functions; they differ from a right implementation only for subnormal numbers, huge exponents or particular widths.',
  [X + 'frexp.cpp', X + 'scalbn.cpp', X + 'modf.cpp', X + 'logb.cpp', X + 'fmanip.hpp', G + 'math.hpp'], [('frexp, scalbn, modf, logb', X + 'fmanip.hpp'), ('generic forms', G + 'math.hpp')])
P('P16', 'abs, fabs, copysign and nextafter are exact',
  'abs and fabs clear the sign and copysign copies the sign bit in every lane, for every value including zeros and NaN; abs of signed integers is their absolute value (except for the most negative one). '
  'nextafter gives the neighbouring representable value of each lane in the direction of the second operand, the second operand when both are equal and NaN when either is NaN.',
  FSCOPE + '; abs for all signed integer types',
  'No existing test calls these functions; zeros, subnormal numbers, infinities and NaN are the values that matter.',
  [X + 'mbase.hpp', X + 'fmanip.hpp', X + 'nextafter.cpp', G + 'math.hpp'], [('abs', X + 'mbase.hpp'), ('copysign', X + 'fmanip.hpp'), ('nextafter', X + 'nextafter.cpp')])

P('P17', 'Multiply-add, square root, reciprocals and lerp compute their formula',
  'fmadd, fmsub, fnmadd, fnmsub and fma give a*b+c, a*b-c, -(a*b)+c and -(a*b)-c in every lane for all values, either rounded once or with the product and the sum each rounded; sqrt is the correctly rounded root, and rcp and rsqrt of double or packed-buffer vectors are 1/x and 1/sqrt(x). '
  'lerp of packed-buffer vectors agrees with std::lerp lane by lane, and lerp of native vectors is a+f*(b-a) whenever the operands are small integers, with a vector or a scalar factor.',
  FSCOPE + '; fma family also with operands of mixed types; lerp of native vectors for integers |a|,|b| <= 2047 and |f| <= 127',
  'No existing test calls these functions; the sign of zero results, infinities, NaN and cancellation matter, and the two rounding modes of the formula cannot be told apart by a few samples.',
  [X + 'mbase.hpp', G + 'math.hpp'], [('fmadd', X + 'mbase.hpp'), ('fnmsub', X + 'mbase.hpp'), ('lerp', X + 'mbase.hpp')])

P('P18', 'Functions left to the C library are applied lane by lane',
  'sinh, cosh, tanh, asinh, acosh, atanh, exp, exp2, expm1, cbrt, erf, erfc, tgamma, lgamma, pow, atan2, fmod, remainder and remquo give in each lane what the C library function of that name and element type gives for that lane of the operands; on packed-buffer vectors the same holds for the trigonometric functions, logarithms and hypot. '
  'A scalar second operand is used for every lane, operands of integer or mixed types are converted to double first, and remquo stores each quotient in the matching lane.',
  FSCOPE + '; integer and mixed operands for 3 and 4 lanes',
  'No existing test calls these functions; swapped operands, wrong lanes or a wrong overload show only on particular combinations of types and operands.',
  [G + 'math.hpp'], [('exp', G + 'math.hpp'), ('pow', G + 'math.hpp'), ('remquo', G + 'math.hpp')])

NDEPS = [X + '%s.cpp' % f for f in ('sincos', 'tan', 'asincos', 'atan', 'log', 'log2', 'log10', 'log1p', 'hypot')]
NMECH = [('native vector implementations', X + 'sincos.cpp'), ('polynomial evaluation', X + 'polevl.hpp'), ('dispatch of simd operands to native functions', X + 'math.hpp')]
P('P19', 'Special values of the native elementary functions',
  'sin, cos, tan, sincos, asin, acos, log, log2, log10, log1p and hypot of native x86 vectors give NaN for NaN operands (except hypot with an infinity) and outside their domain (infinite arguments of sin, cos, tan; |x| > 1 for asin, acos; x < 0 for the logarithms, x < -1 for log1p), '
  'and atan of NaN is NaN. sin, tan, asin, atan and log1p keep a signed zero, cos(+-0) = 1, acos(1) = +0, atan(+-inf) = +-pi/2 or a neighbour of it, the logarithms of 1 are +0, of +-0 -inf and of +inf +inf, log1p(-1) = -inf and log1p(+inf) = +inf. '
  'hypot with an infinite operand is +inf even if the other is a quiet NaN, and hypot(+-0, +-0) = +0.',
  'all lane values of the classes named, other lanes arbitrary, float and double x86 vectors (one and several registers), built for SSE2, SSE4.2, AVX and AVX2+FMA',
  'The existing tests sample a few arguments of some of the functions in equal lanes; special values hidden behind any-lane branches and blends depend on what the other lanes hold.',
  NDEPS, NMECH)
P('P20', 'Native elementary functions compute each lane from that lane alone',
  'An element of sin, cos, tan, sincos, asin, acos, atan, log, log2, log10, log1p and hypot of a native x86 vector depends only on the operand elements of the same index: whatever the other elements are, including special values that divert the evaluation to a slow path. '
  'The element is the same for every vector width: partial and full 128-bit registers, 256-bit registers and vectors of several registers.',
  'all values of every lane, float and double x86 vectors, one partial, one full and several registers, built for SSE2, SSE4.2, AVX and AVX2+FMA',
  'The existing tests put arguments of the same kind in neighbouring lanes and use few widths; leaking a lane requires a particular mix of arguments, such as one huge and one small lane.',
  NDEPS, NMECH)
P('P21', 'Symmetries of the native elementary functions',
  'sin, tan, asin and atan of native x86 vectors are odd and cos is even, exactly and in every lane; sincos gives the same elements as sin and cos. hypot does not depend on the sign of its operands, nor (unless one is NaN) on their order.',
  'all values of every lane, float and double x86 vectors (one and several registers), built for SSE2, SSE4.2, AVX and AVX2+FMA',
  'The existing tests compare sampled results with the C library within a tolerance; a sign lost for one octant or regime needs an argument in it.',
  NDEPS, NMECH)

P('P22', 'Accuracy of the native trigonometric functions and logarithms',
  'sin, cos, asin, acos and atan of native vectors differ from the mathematical function f in every lane by at most 4 eps max(|f(x)|, min(1, |x|)), where eps is the distance from 1 to the next number of the element type, and log, log2 and log10 by at most 6 eps max(|f(x)|, min(1, x)). '
  'For tan the bound is 4 eps (1 + tan(x)^2) min(1, |x|).',
  'native vectors of float and double that fill one register, built for SSE2, SSE4.2, AVX and AVX2+FMA; sin and cos for 2^-20 <= |x| <= 32, tan for 2^-20 <= |x| <= 8 at least 1/32 away from its poles, asin and acos for 2^-20 <= |x| <= 1 - 2^-20, atan for 2^-20 <= |x| <= 2^20; '
  'logarithms of float for [1/16, 16) and the binades starting at 2^-140, 2^-130, 2^-127, 2^-100 and 2^100, of double for [1/4, 8) and the binades starting at 2^-1060, 2^-1023, 2^-1000 and 2^1000 (subnormal numbers included); default rounding mode',
  'The existing tests sample a few arguments; a wrong coefficient, table entry or reduction constant changes the result in the last digits only, or only in one quadrant, interval of the table or range of exponents.',
  [X + f for f in ('sincos.cpp', 'trig.hpp', 'tan.cpp', 'asincos.cpp', 'atan.cpp', 'log.cpp', 'log2.cpp', 'log10.cpp', 'exp.hpp')] + ['dpm/detail/fconst.cpp'],
  [('eval_sincos', X + 'trig.hpp'), ('eval_log', X + 'exp.hpp'), ('tables', 'dpm/detail/fconst.cpp')])

P('P23', 'ext::cpuid never reports an instruction set that cannot be used',
  'ext::cpuid reports an instruction set extension exactly when the processor announces it in a supported CPUID leaf (sub-leaf 0) and, for the SSE, AVX (with F16C and FMA) and AVX-512 families, the operating system enables all of their register state in XCR0; '
  'when the operating system does not enable XSAVE (OSXSAVE clear), no extension of the AVX families is reported and XGETBV is not executed. '
  'is_intel and is_amd are true exactly for the vendor strings GenuineIntel and AuthenticAMD.',
  'all values of the CPUID registers of leaves 0, 1 and 7, of the registers of other leaves and sub-leaves, and of XCR0; the SSE family only with OSXSAVE set (otherwise it is read from /proc/cpuinfo)',
  'Tests see the one machine they run on, where every leaf is supported, ECX happens to be zero and the operating system enables everything.',
  [X + 'cpuid.cpp', X + 'cpuid.hpp', 'dpm/utility.hpp'],
  [('detection', X + 'cpuid.cpp'), ('queries', X + 'cpuid.hpp')])

P('P24', 'Turning the error and NaN options off keeps every valid result',
  'Compiled with DPM_PROPAGATE_NAN alone or with neither DPM_HANDLE_ERRORS nor DPM_PROPAGATE_NAN, sin, cos, tan, sincos, asin, acos, atan, log, log2, log10, log1p and hypot of native vectors return in every lane with a valid finite operand the value they return with both options, whatever the other lanes hold; '
  'nextafter, modf, frexp, ilogb, logb and scalbn return the exact result. '
  'With DPM_PROPAGATE_NAN alone these functions still return NaN for NaN (nextafter, modf, frexp, logb, scalbn and the elementary functions), and ilogb FP_ILOGBNAN.',
  'native vectors of float and double; finite operands in the domain of the function (positive for the logarithms, above -1 for log1p, [-1, 1] for asin and acos, not zero for logb and ilogb), a result of scalbn that neither overflows nor underflows to zero; -DDPM_INLINE_EXTENSIONS on',
  'The tests are built once, with both options on; what depends on them is in conditional blocks the tests never compile the other way.',
  [X + f for f in ('log1p.cpp', 'sincos.cpp', 'tan.cpp', 'asincos.cpp', 'atan.cpp', 'exp.hpp', 'hypot.cpp', 'nextafter.cpp', 'modf.cpp', 'frexp.cpp', 'logb.cpp', 'scalbn.cpp', 'except.hpp')],
  [('log1p_excepts', X + 'log1p.cpp'), ('log_excepts', X + 'exp.hpp'), ('impl_hypot', X + 'hypot.cpp')])

P('P25', 'Accuracy of hypot',
  'hypot of native vectors differs in every lane from sqrt(x*x + y*y) by at most 2 eps sqrt(x*x + y*y) plus half the smallest subnormal number, where eps is the distance from 1 to the next number of the element type, for all finite operands, zero and subnormal numbers included, whose result is below the largest number; intermediate results neither overflow nor underflow.',
  'native vectors of float and double that fill one register, built for SSE2, SSE4.2, AVX and AVX2+FMA; |x| and |y| below 2^127 (2^1023 for double), whole binades of operands around every threshold of the scaling; default rounding mode',
  'The existing tests sample a few pairs; a wrong threshold or scale factor shows only for operands of extreme or very different magnitude, a lost error term only in the last digits.',
  [X + 'hypot.cpp', X + 'pow.hpp'],
  [('impl_hypot', X + 'hypot.cpp')])

P('P26', 'Evaluation at compile time gives the results of run time',
  'Construction of native vectors and masks by broadcast and generator, reads of their elements, conversions from native vectors to packed buffers, the mask reductions (all_of, any_of, none_of, some_of, reduce_count, reduce_min_index, reduce_max_index) and reduce, reduce_min and reduce_max of native vectors, which are constexpr, give in constant expressions the same results as at run time: every lane, every index below size(), the last and the first true lane.',
  'native vectors and masks of every arithmetic type and the widths of P01, P07 and P10 (several registers and partly filled ones included); operations the compilers accept in constant expressions; the operands of P07 and P10 (a true lane for reduce_min_index and reduce_max_index, no NaN for reduce_min and reduce_max)',
  'No test evaluates anything at compile time, and code that runs never takes these branches.',
  [X + 'type.hpp', 'dpm/detail/generic/type.hpp'],
  [('x86_mask::operator[]', X + 'type.hpp'), ('reduce_max_index', X + 'type.hpp')])

TECH = {'P25': 'bounded symbolic execution of the LLVM IR of the native functions; Z3 decides the branches on each box of operands with bit-vector queries, the remaining expression is read over the reals with every rounding '
        'error as a named variable, and Z3 shows over the reals that the result stays within the tolerance of hypot; failing boxes are confirmed on compiled code',
        'P22': 'bounded symbolic execution of the LLVM IR of the native functions; Z3 shows with bit-vector queries that branches, table indices and quadrants are constant on each interval of operands, and with polynomial '
        'inequalities over the reals that the remaining expression plus a bound of its rounding error stays within the tolerance of the mathematical function; failing intervals are confirmed on compiled code'}
CLAIMED = [p['id'] for p in PROPS]
TECHNIQUE = ('bounded symbolic execution of the LLVM IR of the instantiated headers and sources, every lane a symbolic bit-vector; equivalence to the scalar definition decided by Z3 and cvc5 over all values; '
             'counterexamples replayed on compiled code')
NOTE = 'bounded model checking in the sense of SMT: exhaustive over all lane values of the instantiated widths and types, see BOUNDS in the evidence'
NOT_APPLICABLE = []


def main():
    na = {x['property'] for x in NOT_APPLICABLE}
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k != 'note'}
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            n = q['statement'].count('. ') + 1
            assert n <= 3, (q['id'], n)
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                           technique=TECH.get(p['id'], TECHNIQUE), level='model_checking', level_note=p['note'] or NOTE))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NOT_APPLICABLE)
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)


main()
