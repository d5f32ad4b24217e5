"""Symbolic values: numbers in linear normal form, booleans, strings, bytes."""
from fractions import Fraction
import math

import z3

from . import core
from .core import Atom, frac, zval


def eng():
    return core.ENGINE


# symbolic numbers and booleans hash by identity while this is not 0
BYID = [0]


# ------------------------------------------------------------------ numbers

class SBool:
    __slots__ = ('e', 'slack')
    __symbolic__ = True

    def __init__(self, e, slack=None):
        self.e = e
        self.slack = slack

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.e, self.slack)

    def __invert__(self):
        raise TypeError('~ on symbolic bool')

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e)
        if o is True or o is False:
            return self if o else s_not(self)
        return bool(self) == o

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return id(self) if BYID[0] else hash(bool(self))

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def num(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return self.num()

    def __int__(self):
        return self.num()

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __str__(self): return 'True' if bool(self) else 'False'
    __repr__ = __str__
    def __format__(self, s): return format(bool(self), s)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def s_not(a):
    if isinstance(a, bool) and type(a) is bool:
        return not a
    if type(a) is SBool:
        return SBool(z3.Not(a.e), None if a.slack is None else None)
    return not a


def _zb(a):
    return a.e if type(a) is SBool else z3.BoolVal(bool(a))


def s_and(*xs):
    out = []
    for x in xs:
        if type(x) is SBool:
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return SBool(z3.And(*out) if len(out) > 1 else out[0])


def s_or(*xs):
    out = []
    for x in xs:
        if type(x) is SBool:
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return SBool(z3.Or(*out) if len(out) > 1 else out[0])


def is_sym(x):
    return type(x) in SYM


def is_num(x):
    return type(x) is SNum or isinstance(x, (int, float, Fraction))


class SNum:
    """sum(coef * atom) + const; `isint` is the Python type (int or float)."""
    __slots__ = ('terms', 'const', 'isint', '_z', '_iv')
    __symbolic__ = True

    def __init__(self, terms, const, isint):
        self.terms = terms          # {Atom: Fraction}, no zero coefficients
        self.const = const
        self.isint = isint
        self._z = None
        self._iv = None

    @property
    def __class__(self):
        return int if self.isint else float

    # -- construction
    @staticmethod
    def make(terms, const, isint):
        if not terms:
            if isint and const.denominator == 1:
                return int(const)
            return float(const)
        return SNum(terms, const, isint)

    @staticmethod
    def of_atom(a, isint=None):
        return SNum({a: Fraction(1)}, Fraction(0), a.is_int if isint is None else isint)

    def key(self):
        return (tuple(sorted((a.id, c) for a, c in self.terms.items())), self.const)

    def all_int(self):
        return all(a.is_int and c.denominator == 1 for a, c in self.terms.items()) \
            and self.const.denominator == 1

    def grid(self):
        """number of decimals all values of this term are multiples of, or None"""
        g = 0
        for a, c in self.terms.items():
            if c.denominator != 1:
                return None
            if a.is_int:
                continue
            if a.grid is None:
                return None
            g = max(g, a.grid)
        c = self.const * 10**g
        while c.denominator != 1:
            g += 1
            c = self.const * 10**g
            if g > 6:
                return None
        return g

    def interval(self):
        if self._iv is None:
            lo = hi = self.const
            for a, c in self.terms.items():
                l, h = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            self._iv = (lo, hi)
        return self._iv

    def z(self):
        if self._z is None:
            ints = self.all_int()
            parts = []
            for a, c in self.terms.items():
                v = a.var if ints else a.toreal
                parts.append(v if c == 1 else zval(c, ints) * v)
            if self.const != 0:
                parts.append(zval(self.const, ints))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z

    def zr(self):
        z = self.z()
        return z3.ToReal(z) if z.is_int() else z

    def eval(self, m):
        v = self.const
        for a, c in self.terms.items():
            v += c * core.model_frac(m, a.var)
        return v

    # -- arithmetic
    def _co(self, o):
        t = type(o)
        if t is SNum:
            return o.terms, o.const, o.isint
        if t is SBool:
            o = o.num()
            return {}, Fraction(o), True
        if t is bool or isinstance(o, int):
            return {}, Fraction(int(o)), True
        if isinstance(o, float):
            if math.isinf(o) or math.isnan(o):
                return None
            return {}, frac(o), False
        if isinstance(o, Fraction):
            return {}, o, False
        return None

    def _lin(self, o, k):
        c = self._co(o)
        if c is None:
            if isinstance(o, float):
                return o * k if not math.isnan(o) else o
            return NotImplemented
        t, cst, isint = c
        terms = dict(self.terms)
        for a, v in t.items():
            n = terms.get(a, 0) + k * v
            if n == 0:
                terms.pop(a, None)
            else:
                terms[a] = n
        return SNum.make(terms, self.const + k * cst, self.isint and isint)

    def __add__(self, o): return self._lin(o, 1)

    def __radd__(self, o): return self._lin(o, 1)

    def __sub__(self, o): return self._lin(o, -1)

    def __rsub__(self, o):
        r = self._lin(o, -1)
        return r if r is NotImplemented else -r

    def __neg__(self):
        return SNum({a: -c for a, c in self.terms.items()}, -self.const, self.isint)

    def __pos__(self): return self

    def scale(self, k, isint):
        if k == 0:
            return 0 if isint else 0.0
        return SNum({a: c * k for a, c in self.terms.items()}, self.const * k, isint)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not is_num(o):
            n = self.__index__()
            return o * n
        c = self._co(o)
        if c is None:
            return NotImplemented
        t, cst, isint = c
        if not t:
            return self.scale(cst, self.isint and isint)
        # non-linear product: a fresh atom tied to the product
        e = eng()
        ks = sorted([self.key(), o.key()])
        key = ('mul', ks[0], ks[1])
        hit = e.roundcache.get(key)
        if hit is None:
            allint = self.all_int() and o.all_int()
            lo = hi = None
            l1, h1 = self.interval()
            l2, h2 = o.interval()
            if None not in (l1, h1, l2, h2):
                ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                lo, hi = min(ps), max(ps)
            a = e.fresh('mul', allint, lo, hi)
            if allint:
                e.add(a.var == self.z() * o.z())
            else:
                e.add(a.var == self.zr() * o.zr())
            hit = e.roundcache[key] = a
        return SNum.of_atom(hit, self.isint and isint)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        t, cst, isint = c
        if not t:
            if cst == 0:
                raise ZeroDivisionError('division by zero')
            return self.scale(1 / cst, False)
        return _divide(self, o)

    def __rtruediv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return _divide(o, self)

    def __floordiv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        t, cst, isint = c
        if t:
            o = _fix(o)
            cst = frac(o)
        if cst == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q = _floor(self / cst if cst != 1 else self)
        if not (self.isint and isint):
            return SNum(q.terms, q.const, False) if type(q) is SNum else float(q)
        return q

    def __rfloordiv__(self, o):
        return o // _fix(self)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o % _fix(self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        if o == 1:
            return self
        if o == 2:
            return self * self
        return _fix(self) ** (_fix(o) if is_sym(o) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __abs__(self):
        return -self if self < 0 else self

    def __round__(self, n=None):
        return s_round(self, n)

    def __floor__(self): return _floor(self)
    def __ceil__(self): return -_floor(-self) if True else None

    def __trunc__(self):
        return s_int(self)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return eng().pick_int(self)

    def __int__(self):
        # only reached from native code; the dispatcher models int()
        return int(_fix(s_int(self)))

    def __float__(self):
        f = float(eng().concretise_term(self))
        eng().stats.note('native float() of a symbolic number')
        return f

    def is_integer(self):
        if self.all_int():
            return True
        f = _floor(self)
        return self == f

    # -- comparisons
    def _cmp(self, o, op):
        c = self._co(o)
        if c is None:
            if isinstance(o, float) and math.isinf(o):
                return {'<': o > 0, '<=': o > 0, '==': False}[op]
            return NotImplemented
        d = self._lin(o, -1)
        return cmp0(d, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else s_not(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else s_not(r)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if BYID[0]:
            return id(self)
        if self.isint:
            return hash(self.__index__())
        return hash(float(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return 'SNum(%s%s)' % (' + '.join('%s*%s' % (c, a.name)
                               for a, c in self.terms.items()),
                               ' + %s' % self.const if self.const else '')

    def __str__(self):
        # native str(): only reached from unmodelled code
        f = _fix(self)
        eng().stats.note('native str() of a symbolic number')
        return str(f)

    def __format__(self, spec):
        return format(_fix(self), spec)

    # int-like API sometimes used
    @property
    def real(self): return self

    def bit_length(self): return self.__index__().bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .seq import SBytes
        if signed or byteorder not in ('big', 'little'):
            return self.__index__().to_bytes(length, byteorder, signed=signed)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= 256 ** length:
            raise OverflowError('int too big to convert')
        out, rest = [], self
        for k in range(length - 1, -1, -1):
            d = rest // 256 ** k
            rest = rest - d * 256 ** k
            out.append(SChar(d) if type(d) is SNum else bytes([int(d)]))
        return SBytes.build(out if byteorder == 'big' else out[::-1])
    def __and__(self, o): return _bit_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        c = _bit_and(self, o)
        return NotImplemented if c is NotImplemented else self + o - c
    __ror__ = __or__

    def __xor__(self, o):
        c = _bit_and(self, o)
        return NotImplemented if c is NotImplemented else self + o - c * 2
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)


def _low_zeros(x):
    """how many low bits of all values of x are zero (at most 64)"""
    cs = [x.const, *x.terms.values()] if type(x) is SNum else [Fraction(x)]
    n = 0
    while n < 64 and all(c.denominator == 1 and c.numerator % 2 ** (n + 1) == 0 for c in cs):
        n += 1
    return n


def _bit_and(a, b):
    """a & b of integers, as sums of quotients of powers of two"""
    for x in (a, b):
        if type(x) is SNum and not x.isint or not isinstance(x, int):
            if type(x) is SBool:
                continue
            return NotImplemented
    if type(a) is not SNum:
        a, b = b, a
    if type(b) is SBool:
        b = b.num()
    if type(b) is SNum:
        for x, y in ((a, b), (b, a)):
            lo, hi = y.interval()
            if lo is not None and lo >= 0 and hi is not None and hi < 2 ** _low_zeros(x) and all(t.is_int for t in x.terms):
                return 0
        if a.key() == b.key():
            return a
        b = b.__index__()
    b = int(b)
    if b < 0:
        return a - _bit_and(a, ~b)
    out, at = 0, 0
    while b >> at:
        if not (b >> at) & 1:
            at += 1
            continue
        n = at
        while (b >> n) & 1:
            n += 1
        out = out + ((a // 2 ** at) % 2 ** (n - at)) * 2 ** at
        at = n
    return out


def cmp0(d, op):
    """Decide d <op> 0."""
    if not isinstance(d, float) and not type(d) is SNum:
        d = d
    if type(d) is not SNum:
        return {'<': d < 0, '<=': d <= 0, '==': d == 0}[op]
    lo, hi = d.interval()
    if op == '<':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == '<=':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return False
        if len(d.terms) == 1 and d.all_int():
            (a, c), = d.terms.items()
            v = -d.const / c
            if v.denominator != 1:
                return False
    # normalise: move the constant right, scale the first coefficient to +-1
    first = min(d.terms.items(), key=lambda t: t[0].id)
    k = abs(first[1])
    ints = d.all_int()
    if k != 1:
        if not ints:
            d = d.scale(1 / k, False)
    zero = z3.IntVal(0) if ints else z3.RealVal(0)
    lhs = SNum(d.terms, Fraction(0), d.isint).z()
    if ints:
        rhs = zval(-d.const, True) if lhs.is_int() else zval(-d.const)
    else:
        rhs = zval(-d.const)
    if op == '<':
        e = lhs < rhs
    elif op == '<=':
        e = lhs <= rhs
    else:
        e = lhs == rhs
    return SBool(e, (d, op))


def _fix(x):
    """Fork over integer values; concretise a real (coverage lost, noted)."""
    if type(x) is SNum:
        if x.all_int():
            r = eng().pick_int(x)
            return r if x.isint else float(r)
        eng().stats.note('symbolic real fixed to one value by unmodelled use')
        f = eng().concretise_term(x)
        return float(f)
    if type(x) is SBool:
        return bool(x)
    return x


def _divide(n, d):
    e = eng()
    if d == 0:
        raise ZeroDivisionError('division by zero')
    if type(n) is not SNum and frac(n) == 0:
        return 0.0
    nk = n.key() if type(n) is SNum else ((), frac(n))
    # proportional terms fold to a constant
    if type(n) is SNum:
        ka, ca = next(iter(n.terms.items()))
        if ka in d.terms:
            r = ca / d.terms[ka]
            rest = n - d * r
            if type(rest) is not SNum and rest == 0:
                return float(r)
    key = ('div', nk, d.key())
    hit = e.roundcache.get(key)
    if hit is None:
        lo = hi = None
        dl, dh = d.interval()
        nl, nh = n.interval() if type(n) is SNum else (frac(n), frac(n))
        if None not in (dl, dh, nl, nh) and (dl > 0 or dh < 0):
            ps = [nl / dl, nl / dh, nh / dl, nh / dh]
            lo, hi = min(ps), max(ps)
        a = e.fresh('div', False, lo, hi)
        zn = n.zr() if type(n) is SNum else zval(frac(n))
        e.add(a.var * d.zr() == zn)
        hit = e.roundcache[key] = a
    return SNum.of_atom(hit, False)


def _floor(x):
    if type(x) is not SNum:
        return math.floor(x)
    if x.all_int():
        return SNum(x.terms, x.const, True)
    e = eng()
    key = ('floor', x.key())
    hit = e.roundcache.get(key)
    if hit is None:
        lo, hi = x.interval()
        a = e.fresh('floor', True, None if lo is None else Fraction(math.floor(lo)),
                    None if hi is None else Fraction(math.floor(hi)))
        z = x.zr()
        e.add(a.toreal <= z)
        e.add(z < a.toreal + 1)
        hit = e.roundcache[key] = a
    return SNum.of_atom(hit)


def s_int(x):
    """int(x) of a number."""
    if type(x) is not SNum:
        return int(x)
    if x.all_int():
        return SNum(x.terms, x.const, True)
    if x >= 0:
        return _floor(x)
    f = _floor(-x)
    return -f


def s_float(x):
    if type(x) is SNum:
        return SNum(x.terms, x.const, False)
    if type(x) is SBool:
        return float(x.num())
    return float(x)


def s_round(x, n=None):
    if type(n) is SNum:
        n = n.__index__()
    if x.isint and (n is None or n >= 0):
        return x
    e = eng()
    nd = 0 if n is None else n
    g = x.grid()
    if g is not None and g <= nd:
        return x if n is not None else SNum(x.terms, x.const, True)
    # rounding an offset by a multiple of the grid commutes with the offset
    half = Fraction(1, 2) / Fraction(10)**nd
    key = ('round', x.key(), nd)
    hit = e.roundcache.get(key)
    if hit is None:
        lo, hi = x.interval()
        unit = Fraction(10)**nd
        glo = None if lo is None else Fraction(math.floor(lo * unit), 1) / unit
        ghi = None if hi is None else Fraction(math.ceil(hi * unit), 1) / unit
        if n is None:
            a = e.fresh('round', True, glo, ghi)
        else:
            a = e.fresh('rnd%d' % nd, False, glo, ghi, grid=max(nd, 0))
        z = x.zr()
        e.add(a.toreal - z <= zval(half))
        e.add(z - a.toreal <= zval(half))
        hit = e.roundcache[key] = a
    return SNum.of_atom(hit, n is None)


class SRange:
    __symbolic__ = True

    def __init__(self, *a):
        self.start, self.step = 0, 1
        if len(a) == 1:
            self.stop = a[0]
        elif len(a) == 2:
            self.start, self.stop = a
        else:
            self.start, self.stop, self.step = a
        self.step = _fix(self.step)
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 100000:
                raise core.Infeasible()

    def __contains__(self, x):
        if not is_num(x):
            return False
        if self.step > 0:
            if not (x >= self.start) or not (x < self.stop):
                return False
        else:
            if not (x <= self.start) or not (x > self.stop):
                return False
        return bool((x - self.start) % self.step == 0)

    def s_len(self):
        if self.step > 0:
            d = self.stop - self.start
            if not d > 0:
                return 0
            return (d + (self.step - 1)) // self.step
        d = self.start - self.stop
        if not d > 0:
            return 0
        return (d + (-self.step - 1)) // (-self.step)

    def __len__(self):
        n = self.s_len()
        return n.__index__() if type(n) is SNum else n

    def __bool__(self):
        return bool(self.s_len() > 0)

    def __reversed__(self):
        return reversed(list(self))

    def __getitem__(self, i):
        return list(self)[i]


# ------------------------------------------------------------- char sequences

class SChar:
    """One symbolic character / byte: its code point as a number."""
    __slots__ = ('code',)

    def __init__(self, code):
        self.code = code


class Chunk:
    """An opaque run of characters of unknown length."""
    __slots__ = ('kind', 'value', 'spec', 'length')

    def __init__(self, kind, value, spec=None, length=None):
        self.kind = kind          # 'num' | 'deflate' | 'blob' | 'json'
        self.value = value
        self.spec = spec
        self.length = length

    def same(self, o):
        return type(o) is Chunk and o.kind == self.kind and o.spec == self.spec

    def slen(self):
        if self.length is None:
            e = eng()
            hint = {'num': (1, 25), 'deflate': (8, 100000)}.get(self.kind, (0, 10000))
            if self.kind == 'num':
                key = ('numlen', self.value.key(), self.spec)
                hit = e.roundcache.get(key)
                if hit is None:
                    hit = SNum.of_atom(e.fresh('numlen', True, Fraction(1), Fraction(25)))
                    e.roundcache[key] = hit
                    self._tie_length(hit)
                self.length = hit
            else:
                self.length = SNum.of_atom(e.fresh(self.kind + 'len', True, Fraction(hint[0]), Fraction(hint[1])))
        return self.length

    def _tie_length(self, length):
        """the length of the text of a bounded integer is exact"""
        v = self.value
        if type(v) is not SNum or not v.isint or not v.all_int():
            return
        lo, hi = v.interval()
        if lo is None or hi is None or lo < -10**12 or hi > 10**12:
            return
        z = v.z()
        n = z3.IntVal(1)
        if lo < 0:
            n = n + z3.If(z < 0, 1, 0)
        k = 1
        while 10**k <= max(hi, -lo):
            c = []
            if 10**k <= hi:
                c.append(z >= 10**k)
            if -10**k >= lo:
                c.append(z <= -10**k)
            n = n + z3.If(c[0] if len(c) == 1 else z3.Or(*c), 1, 0)
            k += 1
        if isinstance(self.spec, tuple) and self.spec[0] == 'z':
            n = z3.If(n < self.spec[1], self.spec[1], n)
        eng().add(length.z() == n)


NUMCHARS = '0123456789+-.e'


def num_cell(v, spec='r'):
    return Chunk('num', v, spec)


from .seq import SSeq, SStr, SBytes   # noqa: E402
SYM = (SNum, SBool, SStr, SBytes, SRange)
