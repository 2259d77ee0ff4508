"""Concrete IEEE-754 evaluation of FP operations on bit patterns."""
import math, struct, ctypes
from fractions import Fraction
import numpy as np
np.seterr(all="ignore")

np.seterr(all="ignore")

np.seterr(all='ignore')
import warnings; warnings.filterwarnings('ignore', category=RuntimeWarning)
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}
_libm = ctypes.CDLL('libm.so.6')


def tof(b, w):
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]


def npf(b, w):
    return np.uint64(b).view(np.float64) if w == 64 else np.uint32(b).view(np.float32)


def bits(x, w):
    if w == 64:
        return int(np.float64(x).view(np.uint64))
    return int(np.float32(x).view(np.uint32))


def nan(w):
    e, m = FMT[w]
    return (((1 << e) - 1) << m) | (1 << (m - 1))


def isnan(b, w):
    e, m = FMT[w]
    return (b & ((1 << (w - 1)) - 1)) > (((1 << e) - 1) << m)


def isinf(b, w):
    e, m = FMT[w]
    return (b & ((1 << (w - 1)) - 1)) == (((1 << e) - 1) << m)


def frac(b, w):
    e, m = FMT[w]
    E = (b >> m) & ((1 << e) - 1)
    M = b & ((1 << m) - 1)
    bias = (1 << (e - 1)) - 1
    if E:
        v = Fraction((1 << m) | M) * Fraction(2) ** (E - bias - m)
    else:
        v = Fraction(M) * Fraction(2) ** (1 - bias - m)
    return -v if b >> (w - 1) else v


def from_frac(v, w, negzero=False):
    e, m = FMT[w]
    bias = (1 << (e - 1)) - 1
    if v == 0:
        return (1 << (w - 1)) if negzero else 0
    s = 1 if v < 0 else 0
    v = abs(v)
    # exponent
    n, d = v.numerator, v.denominator
    x = n.bit_length() - d.bit_length()
    if v < Fraction(2) ** x:
        x -= 1
    x = max(x, 1 - bias)
    q = v / Fraction(2) ** (x - m)
    f = q.numerator // q.denominator
    r = q - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1):
        f += 1
    if f >= (1 << (m + 1)):
        f >>= 1
        x += 1
    if x > bias:
        return (s << (w - 1)) | (((1 << e) - 1) << m)
    if f < (1 << m):
        return (s << (w - 1)) | f
    return (s << (w - 1)) | ((x + bias) << m) | (f & ((1 << m) - 1))


def from_int(v, w):
    return from_frac(Fraction(v), w)


def _fn(name, w, n):
    f = getattr(_libm, name + ('f' if w == 32 else ''))
    t = ctypes.c_float if w == 32 else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * n
    return f


np.seterr(all='ignore')
import warnings; warnings.filterwarnings('ignore', category=RuntimeWarning)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ev(name, w, p, a, aw):
    if name in ('add', 'sub', 'mul', 'div'):
        x, y = npf(a[0], w), npf(a[1], w)
        r = x + y if name == 'add' else x - y if name == 'sub' else x * y if name == 'mul' else x / y
        return bits(r, w)
    if name == 'sqrt':
        return bits(np.sqrt(npf(a[0], w)), w)
    if name == 'fma':
        if any(isnan(x, w) for x in a):
            return nan(w)
        if any(isinf(x, w) for x in a):
            return bits(npf(a[0], w) * npf(a[1], w) + npf(a[2], w), w) if isinf(a[0], w) or isinf(a[1], w) else a[2]
        pr = frac(a[0], w) * frac(a[1], w)
        s = pr + frac(a[2], w)
        if s == 0:
            ps = (a[0] ^ a[1]) >> (w - 1)
            cs = a[2] >> (w - 1)
            nz = bool(ps and cs) if (pr == 0) else False
            return from_frac(s, w, nz)
        return from_frac(s, w)
    if name == 'sitofp':
        return from_int(sgn(a[0], aw[0]), w)
    if name == 'uitofp':
        return from_int(a[0], w)
    if name == 'fpext' or name == 'fptrunc':
        return bits(npf(a[0], aw[0]), w) if not isnan(a[0], aw[0]) else nan(w) | ((a[0] >> (aw[0] - 1)) << (w - 1))
    if name in ('fptosi', 'fptoui'):
        if isnan(a[0], aw[0]) or isinf(a[0], aw[0]):
            return 1 << (w - 1)
        return int(frac(a[0], aw[0])) if True else 0
    if name.startswith('round_'):
        mode = name[6:]
        b = a[0]
        if isnan(b, w) or isinf(b, w):
            return b
        v = frac(b, w)
        s = b >> (w - 1)
        if mode == 'trunc':
            r = int(v)
        elif mode == 'floor':
            r = math.floor(v)
        elif mode == 'ceil':
            r = math.ceil(v)
        elif mode == 'rint':
            r = round(v)
        else:
            r = math.floor(abs(v) + Fraction(1, 2))
            r = -r if s else r
        return from_frac(Fraction(r), w, bool(s))
    if name in ("ldexp", "scalbln"):
        if isnan(a[0], w) or isinf(a[0], w):
            return a[0]
        k = max(-5000, min(5000, sgn(a[1], aw[1])))
        return from_frac(frac(a[0], w) * Fraction(2) ** k, w, bool(a[0] >> (w - 1)))
    if name == "frem":
        return bits(_fn('fmod', w, 2)(float(npf(a[0], w)), float(npf(a[1], w))), w)
    if name.startswith('libm:'):
        fn = name[5:]
        if fn == 'remquo':
            f = getattr(_libm, 'remquo' + ('f' if aw[0] == 32 else ''))
            ct = ctypes.c_float if aw[0] == 32 else ctypes.c_double
            f.restype, f.argtypes = ct, [ct, ct, ctypes.POINTER(ctypes.c_int)]
            q = ctypes.c_int(0)
            f(*[float(npf(x, aw[0])) for x in a], ctypes.byref(q))
            return q.value & 0xffffffff
        if p == 'int':      # float->int functions
            raise NotImplementedError(name)
        return bits(_fn(fn, w, len(a))(*[float(npf(x, w)) for x in a]), w)
    raise NotImplementedError(name)
