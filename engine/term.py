"""Hash-consed bit-vector term DAG with constant folding.

Width 1 terms are booleans (sort Bool in SMT); all other widths are bit-vectors.
Floating point values are IEEE bit patterns; FP arithmetic appears as `fop`
nodes (op 'f:<name>') that back ends interpret either as uninterpreted
functions or through the SMT FloatingPoint theory.
"""
import itertools
from . import fpc


class T:
    __slots__ = ('op', 'args', 'w', 'p', 'id')

    def __repr__(self):
        return show(self)


_table = {}
_ids = itertools.count(1)


TRUNC_OF = {}     # id of fround(x, 'trunc') -> x


def reset():
    _table.clear()
    _consts.clear()
    TRUNC_OF.clear()
    _cj.clear()


def _mk(op, args, w, p=None):
    k = (op, w, p) + tuple(a.id for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.w = w
        t.p = p
        t.id = next(_ids)
        _table[k] = t
    return t


_consts = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _consts.get(k)
    if t is None:
        t = _mk('const', (), w, v)
        _consts[k] = t
    return t


def TRUE():
    return const(1, 1)


def FALSE():
    return const(0, 1)


def boolc(b):
    return const(1 if b else 0, 1)


def var(name, w):
    return _mk('var', (), w, name)


_fresh = itertools.count()


def fresh(prefix, w):
    return var('%s!%d' % (prefix, next(_fresh)), w)


def isc(t):
    return t.op == 'const'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def show(t, d=6):
    if t.op == 'const':
        return '%#x:%d' % (t.p, t.w)
    if t.op == 'var':
        return '%s:%d' % (t.p, t.w)
    if d == 0:
        return '..'
    return '(%s%s %s)' % (t.op, '' if t.p is None else repr(t.p), ' '.join(show(a, d - 1) for a in t.args))


class Lut:
    """constant table: values by offset; other offsets read the last entry"""
    __slots__ = ('d', 'last', 'tag')

    def __init__(self, items):
        import hashlib
        self.d = dict(items)
        self.last = items[-1][1]
        self.tag = 'lut' + hashlib.blake2b(repr(items).encode(), digest_size=10).hexdigest()

    def __eq__(self, o):
        return isinstance(o, Lut) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return self.tag


def lut(tab, off, w):
    if off.op == 'const':
        return const(tab.d.get(off.p, tab.last), w)
    if len(set(tab.d.values())) == 1:
        return const(tab.last, w)
    return _mk('lut', (off,), w, tab)


# ---------------------------------------------------------------- evaluation
def _ev(op, w, p, a, aw):
    m = (1 << w) - 1
    if op == 'add':
        return (a[0] + a[1]) & m
    if op == 'sub':
        return (a[0] - a[1]) & m
    if op == 'mul':
        return (a[0] * a[1]) & m
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'not':
        return a[0] ^ m
    if op == 'shl':
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr':
        return (sgn(a[0], w) >> min(a[1], w)) & m
    if op == 'udiv':
        return a[0] // a[1] if a[1] else m
    if op == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if op in ('sdiv', 'srem'):
        x, y = sgn(a[0], w), sgn(a[1], w)
        if y == 0:
            return (((1 if x < 0 else m)) if op == 'sdiv' else a[0]) & m
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & m
    if op == 'concat':
        r = 0
        for v, ww in zip(a, aw):
            r = (r << ww) | v
        return r
    if op == 'extract':
        return (a[0] >> p) & m
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return sgn(a[0], aw[0]) & m
    if op == 'eq':
        return 1 if a[0] == a[1] else 0
    if op == 'ult':
        return 1 if a[0] < a[1] else 0
    if op == 'slt':
        return 1 if sgn(a[0], aw[0]) < sgn(a[1], aw[1]) else 0
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op.startswith('f:'):
        return fpc.ev(op[2:], w, p, a, aw) & m
    if op == 'lut':
        return p.d.get(a[0], p.last)
    if op == 'f2i':
        e, k = FMT[aw[0]]
        E = (a[0] >> k) & ((1 << e) - 1)
        sh = E - ((1 << (e - 1)) - 1)
        if sh < 0:
            return 0
        v = ((((1 << k) | (a[0] & ((1 << k) - 1))) << sh) & ((1 << (w + k + 1)) - 1)) >> k
        return (-v if a[0] >> (e + k) else v) & m
    raise NotImplementedError(op)


def evaluate(roots, env, default=0, memo=None):
    """Concrete evaluation of terms; env: var name -> int."""
    if memo is None:
        memo = {}
    for r in roots:
        st = [r]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            if t.op == 'const':
                memo[t.id] = t.p
                st.pop()
                continue
            if t.op == 'var':
                v = env.get(t.p, default)
                memo[t.id] = v & ((1 << t.w) - 1)
                st.pop()
                continue
            if t.op == 'ite':
                c = t.args[0]
                if c.id not in memo:
                    st.append(c)
                    continue
                b = t.args[1] if memo[c.id] else t.args[2]
                if b.id not in memo:
                    st.append(b)
                    continue
                memo[t.id] = memo[b.id]
                st.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[t.id] = _ev(t.op, t.w, t.p, [memo[a.id] for a in t.args], [a.w for a in t.args])
            st.pop()
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- constructors
def _fold(op, args, w, p=None):
    return const(_ev(op, w, p, [a.p for a in args], [a.w for a in args]), w)


def ones(w):
    return const(-1, w)


def _boolmask(t):
    """If t is all-ones/all-zeros driven by a bool, return that bool."""
    if t.op == 'sext' and t.args[0].w == 1:
        return t.args[0]
    if t.op == 'const' and t.w > 1:
        if t.p == 0:
            return FALSE()
        if t.p == (1 << t.w) - 1:
            return TRUE()
    return None


def not_(a):
    if a.op == 'const':
        return const(~a.p, a.w)
    if a.op == 'not':
        return a.args[0]
    if a.op == 'sext' and a.args[0].w == 1:
        return sext(not_(a.args[0]), a.w)
    if a.op == 'concat':
        return concat(*[not_(x) for x in a.args])
    return _mk('not', (a,), a.w)


def _concat_split(op, a, b):
    """Bitwise op distributes over aligned concats."""
    ca, cb = a.op == 'concat', b.op == 'concat'
    if not (ca or cb):
        return None
    if ca and cb:
        if [x.w for x in a.args] == [x.w for x in b.args]:
            return concat(*[op(x, y) for x, y in zip(a.args, b.args)])
        # common cut points
    cuts = set()
    for t in (a, b):
        if t.op == 'concat':
            o = t.w
            for x in t.args:
                o -= x.w
                cuts.add(o)
    cuts = sorted(cuts | {0})
    cuts.append(a.w)
    parts = []
    for lo, hi in zip(cuts, cuts[1:]):
        parts.append(op(extract(a, hi - 1, lo), extract(b, hi - 1, lo)))
    return concat(*reversed(parts))


def and_(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.p & b.p, a.w)
    if a is b:
        return a
    if a.op == 'const':
        a, b = b, a
    m = (1 << a.w) - 1
    if b.op == 'const':
        if b.p == 0:
            return b
        if b.p == m:
            return a
        if a.op in ('xor', 'and', 'or') and a.args[1].op == 'const':
            k = a.args[1].p
            if a.op == 'and':
                return and_(a.args[0], const(k & b.p, a.w))
            if not k & b.p:
                # the bits that change are masked out
                return and_(a.args[0], b)
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
        return const(0, a.w)
    if a.w > 1:
        x, y = _boolmask(a), _boolmask(b)
        if x is not None and y is not None:
            return sext(and_(x, y), a.w)
        r = _concat_split(and_, a, b)
        if r is not None:
            return r
        if x is not None and not (b.op == 'const' and a.op == 'sext' and False):
            return ite(x, b, const(0, a.w))
        if y is not None:
            return ite(y, a, const(0, a.w))
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), a.w)


def or_(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.p | b.p, a.w)
    if a is b:
        return a
    if a.op == 'const':
        a, b = b, a
    m = (1 << a.w) - 1
    if b.op == 'const':
        if b.p == 0:
            return a
        if b.p == m:
            return b
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
        return ones(a.w)
    if a.w > 1:
        x, y = _boolmask(a), _boolmask(b)
        if x is not None and y is not None:
            return sext(or_(x, y), a.w)
        r = _concat_split(or_, a, b)
        if r is not None:
            return r
        # ite(c,x,0) | ite(!c,y,0)
        if a.op == 'ite' and b.op == 'ite':
            ca, cb = a.args[0], b.args[0]
            z = const(0, a.w)
            if ca is cb:
                return ite(ca, or_(a.args[1], b.args[1]), or_(a.args[2], b.args[2]))
            if not_(ca) is cb:
                return ite(ca, or_(a.args[1], b.args[2]), or_(a.args[2], b.args[1]))
        if x is not None:
            return ite(x, ones(a.w), b)
        if y is not None:
            return ite(y, ones(a.w), a)
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('or', (a, b), a.w)


def xor_(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.p ^ b.p, a.w)
    if a is b:
        return const(0, a.w)
    if a.op == 'const':
        a, b = b, a
    m = (1 << a.w) - 1
    if b.op == 'const':
        if b.p == 0:
            return a
        if b.p == m:
            return not_(a)
        if a.op == 'xor':
            for k, y in (a.args, a.args[::-1]):
                if k.op == 'const':
                    return xor_(y, const(k.p ^ b.p, a.w))
    if a.w > 1:
        x, y = _boolmask(a), _boolmask(b)
        if x is not None and y is not None:
            return sext(xor_(x, y), a.w)
        r = _concat_split(xor_, a, b)
        if r is not None:
            return r
    if a.op == 'not' and b.op == 'not':
        return xor_(a.args[0], b.args[0])
    if a.op == 'not':
        return not_(xor_(a.args[0], b))
    if b.op == 'not':
        return not_(xor_(a, b.args[0]))
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('xor', (a, b), a.w)


def _bin(op, a, b, comm=False):
    if a.op == 'const' and b.op == 'const':
        return _fold(op, (a, b), a.w)
    if comm and (a.op == 'const' or (b.op != 'const' and a.id > b.id)):
        a, b = b, a
    return _mk(op, (a, b), a.w)


def add(a, b):
    if a.op == 'const' and a.p == 0:
        return b
    if b.op == 'const' and b.p == 0:
        return a
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const' and a.op == 'add' and a.args[1].op == 'const':
        return add(a.args[0], const(a.args[1].p + b.p, a.w))
    return _bin('add', a, b, True)


def sub(a, b):
    if b.op == 'const':
        return add(a, const(-b.p, b.w))
    if a is b:
        return const(0, a.w)
    return _bin('sub', a, b)


def neg(a):
    return sub(const(0, a.w), a)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.p == 0:
                return x
            if x.p == 1:
                return y
    return _bin('mul', a, b, True)


def _uparts(a):
    """(narrow term, width) such that a == zext(narrow)"""
    if a.op == 'zext':
        return a.args[0]
    if a.op == 'concat' and a.args[0].op == 'const' and a.args[0].p == 0 and len(a.args) == 2:
        return a.args[1]
    return None


def _udr(op, a, b):
    """unsigned division of zero-extended operands happens at the narrow width (division by zero is never relied on)"""
    x, y = _uparts(a), _uparts(b)
    if x is not None and b.op == 'const' and b.p < (1 << x.w) and b.p:
        y = const(b.p, x.w)
    if y is not None and a.op == 'const' and a.p < (1 << y.w):
        x = const(a.p, y.w)
    if x is not None and y is not None:
        w = max(x.w, y.w)
        return zext(_bin(op, zext(x, w), zext(y, w)), a.w)
    return _bin(op, a, b)


def _nonneg(a):
    return _uparts(a) is not None or (a.op == 'const' and a.p < (1 << (a.w - 1)))


def udiv(a, b):
    return _udr('udiv', a, b)


def sdiv(a, b):
    if _nonneg(a) and _nonneg(b):
        return udiv(a, b)
    return _bin('sdiv', a, b)


def urem(a, b):
    return _udr('urem', a, b)


def srem(a, b):
    if _nonneg(a) and _nonneg(b):
        return urem(a, b)
    return _bin('srem', a, b)


def shl(a, b):
    if b.op == 'const':
        if b.p == 0:
            return a
        if b.p >= a.w:
            return const(0, a.w)
        if a.op != 'const':
            return concat(extract(a, a.w - 1 - b.p, 0), const(0, b.p)) if b.p > 1 or True else None
    return _bin('shl', a, b)


def lshr(a, b):
    if b.op == 'const':
        if b.p == 0:
            return a
        if b.p >= a.w:
            return const(0, a.w)
        if a.op != 'const':
            return zext(extract(a, a.w - 1, b.p), a.w)
    return _bin('lshr', a, b)


def ashr(a, b):
    if b.op == 'const':
        if b.p == 0:
            return a
        n = min(b.p, a.w - 1)
        if a.op != 'const':
            return sext(extract(a, a.w - 1, n), a.w)
    return _bin('ashr', a, b)


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w:
        return a
    if a.op == 'const':
        return const(a.p >> lo, w)
    if a.op == 'extract':
        return extract(a.args[0], hi + a.p, lo + a.p)
    if a.op == 'concat':
        o = a.w
        parts = []
        for x in a.args:
            top = o - 1
            o -= x.w
            if o > hi or top < lo:
                continue
            parts.append(extract(x, min(hi, top) - o, max(lo, o) - o))
        return concat(*parts)
    if a.op == 'zext':
        x = a.args[0]
        if lo >= x.w:
            return const(0, w)
        if hi < x.w:
            return extract(x, hi, lo)
        return zext(extract(x, x.w - 1, lo), w)
    if a.op == 'sext':
        x = a.args[0]
        if x.w == 1:
            return sext(x, w)
        if hi < x.w:
            return extract(x, hi, lo)
        if lo >= x.w - 1:
            return sext(extract(x, x.w - 1, x.w - 1), w)
        return sext(extract(x, x.w - 1, lo), w)
    if a.op == 'ite':
        x, y = a.args[1], a.args[2]
        if x.op == 'const' or y.op == 'const' or x.op in ('concat', 'zext', 'sext') or y.op in ('concat', 'zext', 'sext') or w == 1:
            return ite(a.args[0], extract(x, hi, lo), extract(y, hi, lo))
    if a.op in ('and', 'or', 'xor') and (a.args[1].op == 'const' or w == 1):
        f = {'and': and_, 'or': or_, 'xor': xor_}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == 'not':
        return not_(extract(a.args[0], hi, lo))
    return _mk('extract', (a,), w, lo)


def concat(*parts):
    """MSB first."""
    flat = []
    for x in parts:
        if x.op == 'concat':
            flat.extend(x.args)
        else:
            flat.append(x)
    out = []
    for x in flat:
        if out:
            y = out[-1]
            if x.op == 'const' and y.op == 'const':
                out[-1] = const((y.p << x.w) | x.p, x.w + y.w)
                continue
            if x.op == 'extract' and y.op == 'extract' and x.args[0] is y.args[0] and y.p == x.p + x.w:
                out[-1] = extract(x.args[0], y.p + y.w - 1, x.p)
                continue
            bx = x if x.w == 1 else (x.args[0] if x.op == 'sext' and x.args[0].w == 1 else None)
            by = y if y.w == 1 else (y.args[0] if y.op == 'sext' and y.args[0].w == 1 else None)
            if bx is not None and bx is by:
                out[-1] = sext(bx, x.w + y.w)
                continue
            if y.op == 'const' and y.p == 0 and x.op == 'zext' and False:
                pass
            # extract(x,msb..) above sign extension: leave
        out.append(x)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[0].op == 'const' and out[0].p == 0:
        return zext(out[1], out[0].w + out[1].w)
    return _mk('concat', tuple(out), sum(x.w for x in out))


def zext(a, w):
    if a.w == w:
        return a
    if a.op == 'const':
        return const(a.p, w)
    if a.op == 'zext':
        a = a.args[0]
    return _mk('zext', (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if a.op == 'const':
        return const(sgn(a.p, a.w), w)
    if a.op == 'sext':
        a = a.args[0]
    elif a.op == 'zext':
        return zext(a.args[0], w)
    return _mk('sext', (a,), w)


def trunc(a, w):
    return extract(a, w - 1, 0) if w != a.w else a


def eq(a, b):
    if a is b:
        return TRUE()
    if a.op == 'const' and b.op == 'const':
        return boolc(a.p == b.p)
    if a.op == 'const':
        a, b = b, a
    if a.w == 1:
        if b.op == 'const':
            return a if b.p else not_(a)
        return not_(xor_(a, b))
    if b.op == 'const':
        if a.op == 'sext' and a.args[0].w == 1:
            if b.p == 0:
                return not_(a.args[0])
            if b.p == (1 << b.w) - 1:
                return a.args[0]
            return FALSE()
        if a.op == 'zext':
            x = a.args[0]
            if b.p >> x.w:
                return FALSE()
            return eq(x, const(b.p, x.w))
        if a.op == 'concat':
            o = a.w
            r = TRUE()
            for x in a.args:
                o -= x.w
                r = and_(r, eq(x, const(b.p >> o, x.w)))
            return r
        if a.op == 'ite':
            c, x, y = a.args
            if x.op == 'const' or y.op == 'const':
                return ite(c, eq(x, b), eq(y, b))
        if a.op == 'not':
            return eq(a.args[0], not_(b))
        if a.op == 'xor' and a.args[1].op == 'const':
            return eq(a.args[0], const(a.args[1].p ^ b.p, a.w))
        if a.op == 'add' and a.args[1].op == 'const':
            return eq(a.args[0], const(b.p - a.args[1].p, a.w))
    x, y = _boolmask(a), _boolmask(b)
    if x is not None and y is not None:
        return eq(x, y)
    if a.op == 'concat' and b.op == 'concat' and [q.w for q in a.args] == [q.w for q in b.args]:
        r = TRUE()
        for q, s in zip(a.args, b.args):
            r = and_(r, eq(q, s))
        return r
    if b.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 1)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE()
    if a.op == 'const' and b.op == 'const':
        return boolc(a.p < b.p)
    if b.op == 'const' and b.p == 0:
        return FALSE()
    if a.op == 'const' and a.p == (1 << a.w) - 1:
        return FALSE()
    if a.w == 1:
        return and_(not_(a), b)
    if b.op == 'const' and b.p == 1:
        return eq(a, const(0, a.w))
    if a.op == 'const' and a.p == 0:
        return ne(b, a)
    return _mk('ult', (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    if a is b:
        return FALSE()
    if a.op == 'const' and b.op == 'const':
        return boolc(sgn(a.p, a.w) < sgn(b.p, b.w))
    if a.w == 1:
        return and_(a, not_(b))
    if b.op == 'const' and b.p == 0:
        return extract(a, a.w - 1, a.w - 1)
    if a.op == 'const' and a.p == (1 << a.w) - 1:
        return not_(extract(b, b.w - 1, b.w - 1))
    x = _boolmask(a)
    if x is not None and b.op == 'const':
        return ite(x, boolc(-1 < sgn(b.p, b.w)), boolc(0 < sgn(b.p, b.w)))
    x = _boolmask(b)
    if x is not None and a.op == 'const':
        return ite(x, boolc(sgn(a.p, a.w) < -1), boolc(sgn(a.p, a.w) < 0))
    return _mk('slt', (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return not_(slt(a, b))


_cj = {}


def _conjs(c):
    """ids of terms whose conjunction is c"""
    r = _cj.get(c.id)
    if r is None:
        r, st, seen = set(), [c], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            r.add(x.id)
            if x.op == 'and':
                st.extend(x.args)
            elif x.op == 'not' and x.args[0].op == 'or':
                st.extend(not_(y) for y in x.args[0].args)
        _cj[c.id] = r
    return r


def ite(c, a, b):
    if c.op == 'const':
        return a if c.p else b
    if a is b:
        return a
    assert a.w == b.w, (a.w, b.w)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # if (any lane) y = blend(y, z, lane)
    if b.op == 'ite' and b.args[2] is a and not_(b.args[0]).id in _conjs(c):
        return b
    if a.op == 'ite' and a.args[2] is b and not_(a.args[0]).id in _conjs(not_(c)):
        return a
    if a.w == 1:
        if a.op == 'const':
            return or_(c, b) if a.p else and_(not_(c), b)
        if b.op == 'const':
            return or_(not_(c), a) if b.p else and_(c, a)
    else:
        x, y = _boolmask(a), _boolmask(b)
        if x is not None and y is not None:
            return sext(ite(c, x, y), a.w)
        if a.op == 'concat' and b.op == 'concat' and [q.w for q in a.args] == [q.w for q in b.args]:
            return concat(*[ite(c, q, s) for q, s in zip(a.args, b.args)])
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.w)


def conj(xs):
    r = TRUE()
    for x in xs:
        r = and_(r, x)
    return r


def disj(xs):
    r = FALSE()
    for x in xs:
        r = or_(r, x)
    return r


def implies(a, b):
    return or_(not_(a), b)


COMM = {'add', 'mul'}


def _signed_const(x):
    """(constant, sign term) when x = constant | (sign & signmask)"""
    if x.op == 'or':
        m = 1 << (x.w - 1)
        for c, s in (x.args, x.args[::-1]):
            if c.op == 'const' and not c.p & m and s.op == 'and' and any(y.op == 'const' and y.p == m for y in s.args):
                return c, s
    return None


def _fnegated(x):
    """y if x is -y as a term"""
    if x.op == 'xor':
        for c, y in (x.args, x.args[::-1]):
            if c.op == 'const' and c.p == 1 << (x.w - 1):
                return y
    return None


def _unneg(args):
    """factors without their signs and the parity of the signs; None when there is none"""
    k, out = 0, []
    for a in args:
        y = _fnegated(a)
        if y is not None:
            k += 1
            a = y
        out.append(a)
    return (k & 1 if k else None), tuple(out)


_NAN = {16: 0x7e00, 32: 0x7fc00000, 64: 0x7ff8 << 48}
# C library functions that are odd (1) or even (0)
LIBM_SIGN = {'libm:' + f: 1 for f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt', 'erf')}
LIBM_SIGN.update({'libm:cos': 0, 'libm:cosh': 0})


def _signed(x):
    """(y, s) with x = y ^ s where s only has a sign bit, or None"""
    y = _fnegated(x)
    return (y, const(1 << (x.w - 1), x.w)) if y is not None else None


def _magof(x):
    """y with x = |y|, or None"""
    if x.op == 'and':
        for c, y in (x.args, x.args[::-1]):
            if c.op == 'const' and c.p == (1 << (x.w - 1)) - 1:
                return y
    if x.op == 'concat' and len(x.args) == 2 and x.args[0].op == 'const' and x.args[0].w == 1 and x.args[0].p == 0:
        e = x.args[1]
        if e.op == 'extract' and e.p == 0 and e.args[0].w == x.w:
            return e.args[0]
    return None


CANON_DIV = True        # signs of quotients pulled out


def fop(name, args, w, p=None):
    args = tuple(args)
    if all(a.op == 'const' for a in args):
        try:
            return const(fpc.ev(name, w, p, [a.p for a in args], [a.w for a in args]), w)
        except NotImplementedError:
            pass
    if name in LIBM_SIGN and w in FMT:
        s = _signed(args[0])
        if s is not None:
            z = fop(name, (s[0],), w)
            return xor_(z, s[1]) if LIBM_SIGN[name] else z
    if name in ('mul', 'fma') and w in FMT and args[0] is args[1]:
        # |x| * |x| is x * x
        y = _magof(args[0])
        if y is not None:
            args = (y, y) + args[2:]
    if name == 'mul' and w in FMT:
        for c, x in (args, args[::-1]):
            s = _signed_const(x) if c.op == 'const' else None
            if s:
                # rounding to nearest is symmetric in the sign
                return xor_(fop('mul', (c, s[0]), w), s[1])
        neg_, pos = _unneg(args)
        if neg_ is not None:
            z = fop('mul', pos, w)
            return fneg(z) if neg_ else z
    if name == 'div' and w in FMT and CANON_DIV:
        neg_, pos = _unneg(args)
        if neg_ is not None:
            z = fop('div', pos, w)
            return fneg(z) if neg_ else z
        if any(a.op == 'concat' and a.args[0].op == 'xor' for a in args):
            # a computed sign: rounding to nearest is symmetric
            s = xor_(*[extract(a, w - 1, w - 1) for a in args])
            return xor_(fop('div', [fabs_(a) for a in args], w), concat(s, const(0, w - 1)))
    if name == 'sub' and args[0] is args[1] and w in FMT:
        return ite(isfinite(args[0]), const(0, w), const(_NAN[w], w))
    if len(args) == 2 and w in FMT and name in ('add', 'sub', 'mul', 'div'):
        for i in (0, 1):
            z = args[i]
            if z.op == 'ite' and z.args[1].op == 'const' and z.args[2].op == 'const' and args[1 - i].op == 'const':
                f = lambda k: fop(name, (k, args[1]) if i == 0 else (args[0], k), w, p)
                return ite(z.args[0], f(z.args[1]), f(z.args[2]))
    if name == 'sub' and args[1].op == 'const':
        name, args = 'add', (args[0], fneg(args[1]))
    if name in ('add', 'sub') and w in FMT:
        # x + (-y) is x - y in every rounding of the sum
        ny = _fnegated(args[1])
        if ny is not None:
            return fop('sub' if name == 'add' else 'add', (args[0], ny), w)
        nx = _fnegated(args[0])
        if nx is not None and name == 'add':
            return fop('sub', (args[1], nx), w)
    if name == 'fma' and w in FMT:
        neg_, pos = _unneg(args[:2])
        if neg_ is not None or args[0].id > args[1].id:
            x, y = (pos if neg_ is not None else args[:2])
            if x.id > y.id:
                x, y = y, x
            args = (fneg(x) if neg_ else x, y, args[2])
        return _mk('f:fma', args, w, p)
    if name in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    if name == 'fma' and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    return _mk('f:' + name, args, w, p)


# ---------------------------------------------------------------- FP in BV
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}


def finf(w):
    e, m = FMT[w]
    return const(((1 << e) - 1) << m, w)


def fabs_(x):
    return and_(x, const((1 << (x.w - 1)) - 1, x.w))


def fneg(x):
    return xor_(x, const(1 << (x.w - 1), x.w))


def fsign(x):
    return extract(x, x.w - 1, x.w - 1)


def fmagn(x):
    """magnitude bits, width w-1"""
    return extract(x, x.w - 2, 0)


def isnan(x):
    return ult(trunc(finf(x.w), x.w - 1), fmagn(x))


def isinf(x):
    return eq(fmagn(x), trunc(finf(x.w), x.w - 1))


def iszero(x):
    return eq(fmagn(x), const(0, x.w - 1))


def isfinite(x):
    return ult(fmagn(x), trunc(finf(x.w), x.w - 1))


def fexpbits(x):
    e, m = FMT[x.w]
    return extract(x, x.w - 2, m)


def issub(x):
    e, m = FMT[x.w]
    return and_(eq(fexpbits(x), const(0, e)), not_(iszero(x)))


def unord(a, b):
    return or_(isnan(a), isnan(b))


def _flt(a, b):
    """a<b assuming neither is NaN"""
    sa, sb = fsign(a), fsign(b)
    ma, mb = fmagn(a), fmagn(b)
    bz = and_(iszero(a), iszero(b))
    return ite(sa, ite(sb, ult(mb, ma), not_(bz)), ite(sb, FALSE(), ult(ma, mb)))


def feq(a, b):
    return and_(not_(unord(a, b)), or_(eq(a, b), and_(iszero(a), iszero(b))))


def flt(a, b):
    return and_(not_(unord(a, b)), _flt(a, b))


def fle(a, b):
    return or_(flt(a, b), feq(a, b))


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE()
    if pred == 'false':
        return FALSE()
    u = unord(a, b)
    if pred == 'ord':
        return not_(u)
    if pred == 'uno':
        return u
    base = {'eq': feq(a, b), 'gt': flt(b, a), 'ge': fle(b, a), 'lt': flt(a, b), 'le': fle(a, b),
            'ne': None}[pred[1:]]
    if pred[1:] == 'ne':
        base = and_(not_(u), not_(feq(a, b)))
    return or_(u, base) if pred[0] == 'u' else base


def fsame(a, b):
    """identical values: same bits, or both NaN"""
    return or_(eq(a, b), and_(isnan(a), isnan(b)))


def fround(x, mode):
    """exact rounding to integral value. mode: trunc floor ceil rint round"""
    w = x.w
    e, m = FMT[w]
    bias = (1 << (e - 1)) - 1
    if x.op == 'const':
        return const(fpc.ev('round_' + mode, w, None, [x.p], [w]), w)
    E = zext(fexpbits(x), w)
    sign = and_(x, const(1 << (w - 1), w))
    neg = fsign(x)
    one = or_(sign, const(bias << m, w))
    big = uge(E, const(bias + m, w))
    small = ult(E, const(bias, w))
    sh = sub(E, const(bias, w))      # 0..m-1
    mask = lshr(const((1 << m) - 1, w), sh)
    t = and_(x, not_(mask))
    frac = and_(x, mask)
    inc = add(mask, const(1, w))
    half = lshr(const(1 << (m - 1), w), sh)
    nz = ne(frac, const(0, w))
    up = add(t, inc)
    if mode == 'trunc':
        r, s = t, sign
    elif mode == 'floor':
        r = ite(and_(neg, nz), up, t)
        s = ite(and_(neg, not_(iszero(x))), one, sign)
    elif mode == 'ceil':
        r = ite(and_(not_(neg), nz), up, t)
        s = ite(and_(not_(neg), not_(iszero(x))), one, sign)
    elif mode == 'round':
        r = ite(uge(frac, half), up, t)
        s = ite(eq(E, const(bias - 1, w)), one, sign)
    elif mode == 'rint':
        odd = ne(and_(t, inc), const(0, w))
        # when sh==0 the unit bit is the implicit one (exponent field lsb is set for odd bias)
        odd = ite(eq(sh, const(0, w)), TRUE(), odd)
        r = ite(or_(ult(half, frac), and_(eq(frac, half), odd)), up, t)
        s = ite(and_(eq(E, const(bias - 1, w)), ne(and_(x, const((1 << m) - 1, w)), const(0, w))), one, sign)
    else:
        raise KeyError(mode)
    res = ite(big, x, ite(small, s, r))
    if mode == 'trunc':
        TRUNC_OF[res.id] = x
    return res


def f2i(x, n, signed=True):
    """truncate to integer of n bits; caller guarantees range (else wraps). Kept as one node; see f2i_bits"""
    r = TRUNC_OF.get(x.id)
    if r is not None:
        x = r
    if x.op == 'const':
        return _f2i_bits(x, n)
    return _mk('f2i', (x,), n)


def f2i_bits(node):
    return _f2i_bits(node.args[0], node.w)


def _f2i_bits(x, n):
    w = x.w
    e, m = FMT[w]
    bias = (1 << (e - 1)) - 1
    W = n + m + 1
    E = zext(fexpbits(x), W) if W >= e else None
    sig = zext(concat(const(1, 1), extract(x, m - 1, 0)), W)
    sh = sub(E, const(bias, W))
    r = extract(shl(sig, sh), m + n - 1, m)
    r = ite(ult(fexpbits(x), const(bias, e)), const(0, n), r)
    return ite(fsign(x), neg(r), r)


def f2i_inrange(x, n, signed):
    """truncation of x fits n-bit (un)signed integer"""
    x = TRUNC_OF.get(x.id, x)
    w = x.w
    e, m = FMT[w]
    bias = (1 << (e - 1)) - 1
    if signed:
        lim = const(fpc.from_int(1 << (n - 1), w), w)     # 2^(n-1)
        lo = fpc.from_int(-(1 << (n - 1)), w)
        a = flt(x, lim)
        # x > -2^(n-1) - 1
        if n - 1 <= m:
            lo1 = const(fpc.from_int(-(1 << (n - 1)) - 1, w), w)
            b = flt(lo1, x)
        else:
            b = fle(const(lo, w), x)
        return and_(a, b)
    lim = const(fpc.from_int(1 << n, w), w)
    return and_(flt(x, lim), flt(const(fpc.from_int(-1, w), w), x))


def cvtt(x, n):
    """x86 cvtt: out of range/NaN -> integer indefinite"""
    return ite(f2i_inrange(x, n, True), f2i(x, n), const(1 << (n - 1), n))


# ---------------------------------------------------------------- substitution
def rebuild(op, args, w, p):
    """the term with new arguments, simplified"""
    if op.startswith('f:'):
        return fop(op[2:], args, w, p)
    if op in ('and', 'or', 'add', 'mul', 'xor'):
        f = {'and': and_, 'or': or_, 'add': add, 'mul': mul, 'xor': xor_}[op]
        r = args[0]
        for a in args[1:]:
            r = f(r, a)
        return r
    if op == 'lut':
        return lut(p, args[0], w)
    if op == 'extract':
        return extract(args[0], p + w - 1, p)
    if op == 'concat':
        return concat(*args)
    if op in ('zext', 'sext', 'f2i'):
        return {'zext': zext, 'sext': sext, 'f2i': lambda x, n: f2i_node(x, n)}[op](args[0], w)
    f = {'not': not_, 'sub': sub, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
         'eq': eq, 'ult': ult, 'slt': slt, 'ite': ite}.get(op)
    if f is None:
        raise NotImplementedError(op)
    return f(*args)


def f2i_node(x, n):
    return _mk('f2i', (x,), n) if x.op != 'const' else f2i_const(x, n)


def f2i_const(x, n):
    return const(_ev('f2i', n, None, [x.p], [x.w]), n)


def subst(roots, env):
    """roots with the terms of env (by id of the variable or subterm) replaced"""
    memo = dict(env)
    st = list(roots)
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        a = tuple(memo[y.id] for y in x.args)
        memo[x.id] = x if all(q is y for q, y in zip(a, x.args)) else rebuild(x.op, a, x.w, x.p)
    return [memo[r.id] for r in roots]
