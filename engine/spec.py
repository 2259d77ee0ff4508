"""Reference semantics (bit-vector terms) shared by specifications and the libm model."""
from . import term as t
from .term import const, TRUE, FALSE


def nextafter(x, y):
    w = x.w
    one = const(1, w)
    sign_y = t.and_(y, const(1 << (w - 1), w))
    fromzero = t.or_(sign_y, one)
    up = t.add(x, one)
    dn = t.sub(x, one)
    # moving away from zero increments the pattern
    away = t.ite(t.fsign(x), t.flt(y, x), t.flt(x, y))
    r = t.ite(t.iszero(x), fromzero, t.ite(away, up, dn))
    nan = t.or_(t.isnan(x), t.isnan(y))
    qn = const(t.fpc.nan(w), w)
    return t.ite(nan, qn, t.ite(t.feq(x, y), y, r))


def norm_exp(x, W):
    """unbiased exponent (floor(log2|x|)) of finite non-zero x as W-bit signed integer"""
    w = x.w
    e, m = t.FMT[w]
    bias = (1 << (e - 1)) - 1
    E = t.zext(t.fexpbits(x), W)
    nrm = t.sub(E, const(bias, W))
    mant = t.extract(x, m - 1, 0)
    r = const(1 - bias - m, W)
    for i in range(1, m):
        r = t.ite(t.extract(mant, i, i), const(1 - bias - m + i, W), r)
    return t.ite(t.eq(t.fexpbits(x), const(0, e)), r, nrm)


def norm_mant(x):
    """normalised mantissa bits (without the implicit one) of finite non-zero x, m bits"""
    w = x.w
    e, m = t.FMT[w]
    mant = t.extract(x, m - 1, 0)
    r = mant
    for i in range(m):
        # highest set bit is i -> shift left by m-i
        sh = t.concat(t.extract(mant, i - 1, 0), const(0, m - i)) if i else const(0, m)
        cond = t.extract(mant, i, i)
        r = t.ite(cond, sh, r) if i else sh
    return t.ite(t.eq(t.fexpbits(x), const(0, e)), r, mant)


def ilogb(x, W=32):
    """C ilogb with glibc values: FP_ILOGB0 = INT_MIN, FP_ILOGBNAN = INT_MIN, inf = INT_MAX"""
    imin, imax = const(1 << (W - 1), W), const((1 << (W - 1)) - 1, W)
    return t.ite(t.isnan(x), imin, t.ite(t.isinf(x), imax, t.ite(t.iszero(x), imin, norm_exp(x, W))))


def logb(x):
    w = x.w
    e, m = t.FMT[w]
    ex = norm_exp(x, w)
    r = t.fop('sitofp', (ex,), w)
    return t.ite(t.isnan(x), x, t.ite(t.isinf(x), t.finf(w), t.ite(t.iszero(x), t.fneg(t.finf(w)), r)))


def frexp(x, W):
    w = x.w
    e, m = t.FMT[w]
    bias = (1 << (e - 1)) - 1
    special = t.or_(t.iszero(x), t.not_(t.isfinite(x)))
    y = t.concat(t.extract(x, w - 1, w - 1), const(bias - 1, e), norm_mant(x))
    ex = t.add(norm_exp(x, W), const(1, W))
    return t.ite(special, x, y), t.ite(special, const(0, W), ex)


def modf(x):
    """(frac, int) with the sign of x; frac computed exactly"""
    w = x.w
    ip = t.fround(x, 'trunc')
    fr = t.fop('sub', (x, ip), w)
    sgn = t.and_(x, const(1 << (w - 1), w))
    fr = t.ite(t.isinf(x), sgn, t.ite(t.isnan(x), x, t.ite(t.feq(x, ip), sgn, fr)))
    return fr, ip


def scalbn(x, k):
    """x * 2^k rounded once to nearest even; k: signed integer term"""
    w = x.w
    e, m = t.FMT[w]
    bias = (1 << (e - 1)) - 1
    W = max(k.w, 32) + 2
    ex = t.add(norm_exp(x, W), t.sext(k, W))
    sig = t.concat(const(1, 1), norm_mant(x))                       # m+1 bits
    sign = t.and_(x, const(1 << (w - 1), w))
    nrm = t.zext(t.concat(t.extract(t.add(ex, const(bias, W)), e - 1, 0), norm_mant(x)), w)
    # subnormal result: shift right by 1-bias-ex (>= 1), keep guard and sticky bits
    sh = t.sub(const(1 - bias, W), ex)
    big = t.slt(const(m + 2, W), sh)
    L = 2 * (m + 2) + 1
    s = t.ite(big, const(m + 3, W), sh)
    s = t.trunc(s, L) if W >= L else t.zext(s, L)
    v = t.lshr(t.concat(sig, const(0, L - (m + 1))), s)
    hi = t.extract(v, L - 1, L - (m + 1))
    lo = t.extract(v, L - (m + 2), 0)
    half = const(1 << (L - m - 2), L - m - 1)
    up = t.or_(t.ult(half, lo), t.and_(t.eq(lo, half), t.extract(hi, 0, 0)))
    sub = t.zext(t.add(hi, t.zext(up, m + 1)), w)
    r = t.ite(t.slt(const(bias, W), ex), t.finf(w), t.ite(t.slt(ex, const(1 - bias, W)), sub, nrm))
    special = t.or_(t.iszero(x), t.not_(t.isfinite(x)))
    return t.ite(special, x, t.or_(r, sign))
