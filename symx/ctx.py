"""The interface a harness sees.  SymCtx runs it symbolically, ConcCtx runs the
same harness on concrete values against the unmodified code."""
from fractions import Fraction


class Cell:
    """a number (or other opaque content) inside a unit list"""
    __slots__ = ('kind', 'value', 'legal', 'raw')

    def __init__(self, kind, value, legal=True, raw=None):
        self.kind, self.value, self.legal, self.raw = kind, value, legal, raw


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """the concrete inputs do not meet the harness's assumption"""


def expand_alphabet(alphabet):
    """str or list of (lo, hi) -> list of (lo, hi)"""
    if isinstance(alphabet, str):
        codes = sorted({ord(c) for c in alphabet})
        out = []
        for c in codes:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        return [tuple(x) for x in out]
    return [tuple(x) for x in alphabet]


class SymCtx:
    sym = True

    def __init__(self, engine, pdfme):
        self.e = engine
        self.pdfme = pdfme

    def mod(self, name):
        import importlib
        return importlib.import_module('pdfme.' + name)

    # ---- inputs
    def _input(self, name, kind, atoms):
        n = name
        k = 1
        while n in self.e.inputs:
            k += 1
            n = '%s~%d' % (name, k)
        self.e.inputs[n] = (kind, atoms)
        return n

    def int(self, name, lo, hi):
        from .values import SNum
        if lo == hi:
            self._input(name, 'int', [lo])
            return lo
        a = self.e.fresh('in_' + name, True, Fraction(lo), Fraction(hi))
        self._input(name, 'int', [a])
        return SNum.of_atom(a)

    def real(self, name, lo, hi):
        from .values import SNum
        from .core import frac
        a = self.e.fresh('in_' + name, False, frac(lo), frac(hi))
        self._input(name, 'real', [a])
        return SNum.of_atom(a)

    def bool(self, name):
        v = self.int(name, 0, 1)
        return bool(v == 1)

    def choice(self, name, options):
        """fork over the options"""
        if len(options) == 1:
            self._input(name, 'int', [0])
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def chars(self, name, n, alphabet):
        from .values import SNum, SChar, s_or, s_and
        rs = expand_alphabet(alphabet)
        lo, hi = min(a for a, b in rs), max(b for a, b in rs)
        atoms, units = [], []
        for i in range(n):
            if lo == hi:
                atoms.append(lo)
                units.append(lo)
                continue
            a = self.e.fresh('in_%s_%d' % (name, i), True, Fraction(lo), Fraction(hi))
            v = SNum.of_atom(a)
            if len(rs) > 1:
                self.e.add(s_or(*[v == x if x == y else s_and(v >= x, v <= y) for x, y in rs]).e)
            atoms.append(a)
            units.append(v)
        return atoms, units

    def str(self, name, n, alphabet):
        from .values import SChar
        from .seq import SStr
        atoms, units = self.chars(name, n, alphabet)
        self._input(name, 'str', atoms)
        return SStr.build([SChar(u) for u in units])

    def bytes(self, name, n, alphabet=((0, 255),)):
        from .values import SChar
        from .seq import SBytes
        atoms, units = self.chars(name, n, alphabet)
        self._input(name, 'bytes', atoms)
        return SBytes.build([SChar(u) for u in units])

    def blob(self, name, lo, hi, tag=0):
        """bytes of unknown content and symbolic length (concretely a filler)"""
        from .values import Chunk
        from .seq import SBytes
        n = self.int(name, lo, hi)
        return SBytes((Chunk('blob', tag, None, n),))

    # ---- conditions
    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg, detail=None):
        self.e.check(c, msg, detail)

    def fail(self, msg, detail=None):
        self.e.check(False, msg, detail)

    def And(self, *xs):
        from .values import s_and
        return s_and(*xs)

    def Or(self, *xs):
        from .values import s_or
        return s_or(*xs)

    def Not(self, x):
        from .values import s_not
        return s_not(x)

    def Implies(self, a, b):
        from .values import s_not, s_or
        return s_or(s_not(a), b)

    def le(self, a, b, tol):
        """a <= b, reported only if clearly violated"""
        return a <= b + 2 * tol

    def close(self, a, b, tol):
        from .values import s_and
        t = 2 * tol
        return s_and(a - b <= t, b - a <= t)

    def eqcodes(self, a, b):
        """equality of two code lists"""
        from .values import s_and
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if isinstance(x, Cell) or isinstance(y, Cell):
                if not (isinstance(x, Cell) and isinstance(y, Cell)) or x.kind != y.kind:
                    return False
                if x.kind == 'num':
                    out.append(x.value == y.value)
                elif x.raw is not y.raw and x.value is not y.value and x.value != y.value:
                    return False
                continue
            r = x == y
            if r is False:
                return False
            out.append(r)
        return s_and(*out)

    def observe(self, name, value):
        self.e.observations.setdefault(name, []).append(value)

    def note(self, text):
        self.e.stats.note(text)

    # ---- looking into strings
    def units(self, s):
        """code points (ints or symbolic ints) and Cells"""
        from .values import SChar, Chunk
        from .seq import SSeq
        if type(s) is str:
            return [ord(c) for c in s]
        if type(s) is bytes or type(s) is bytearray:
            return list(s)
        out = []
        for u in s.units():
            if type(u) is SChar:
                out.append(u.code)
            elif type(u) is Chunk:
                if u.kind == 'num':
                    out.append(Cell('num', u.value, self._legal(u), u))
                else:
                    out.append(Cell(u.kind, u.value, True, u))
            else:
                out.append(ord(u))
        return out

    def _legal(self, u):
        v = u.value
        if v.isint or (isinstance(u.spec, tuple) and u.spec[0] in 'fz'):
            return True
        g = v.grid()
        if g is not None and g <= 4:
            return True
        from .values import s_or, s_and
        return s_or(v == 0, s_and(v >= 0.0001, v < 1e16), s_and(v <= -0.0001, v > -1e16))

    def ulen(self, u):
        if isinstance(u, Cell):
            return u.raw.slen()
        return 1

    def key(self, n):
        """hashable structural key of a number"""
        from .values import SNum
        if type(n) is SNum:
            k = n.key()
            if k[0]:
                return k
            n = k[1]
        return int(n) if n == int(n) else Fraction(n)

    def isint(self, x):
        from .values import SNum
        return x.isint if type(x) is SNum else isinstance(x, int)

    def isnum(self, x):
        from .values import SNum
        return type(x) is SNum or isinstance(x, (int, float))

    def lookup(self, table, i):
        if type(i) is int:
            return table[i]
        from . import models
        return models.getitem(table, i)

    def issym(self, x):
        from .values import SYM
        return type(x) in SYM

    def text_of(self, codes):
        """str from a code list (cells allowed)"""
        from .values import SChar
        from .seq import SStr
        return SStr.build([SChar(c) if not isinstance(c, Cell) else c.raw for c in codes])

    def data_of(self, codes):
        from .values import SChar
        from .seq import SBytes
        return SBytes.build([SChar(c) if not isinstance(c, Cell) else c.raw for c in codes])

    def spelled(self, codes):
        """the characters, with numbers written out"""
        from .seq import expand_chunk, SBytes
        out = []
        for c in codes:
            if isinstance(c, Cell) and c.kind == 'num':
                out += self.units(expand_chunk(SBytes, c.raw))
            else:
                out.append(c)
        return out

    def inflate(self, codes):
        from . import models
        d = self.data_of(codes)
        return models.m_decompress(d)

    def concrete(self, x):
        """native Python value (forks / fixes)"""
        from . import models
        return models.deep_conc(x)

    def lit(self, x):
        return x


class ConcCtx:
    sym = False

    def __init__(self, inputs, pdfme):
        self.inputs = inputs
        self.pdfme = pdfme
        self.obs = {}
        self.failed = None
        self.nchecks = 0
        self.used = {}

    def mod(self, name):
        import importlib
        return importlib.import_module('pdfme.' + name)

    def _get(self, name, kind):
        n = name
        k = 1
        while n in self.used:
            k += 1
            n = '%s~%d' % (name, k)
        self.used[n] = True
        if n not in self.inputs:
            return None
        return self.inputs[n][1]

    def int(self, name, lo, hi):
        v = self._get(name, 'int')
        if v is None:
            return lo
        v = int(v[0])
        if not lo <= v <= hi:
            raise Skip()
        return v

    def real(self, name, lo, hi):
        v = self._get(name, 'real')
        if v is None:
            return float(lo)
        f = Fraction(v[0])
        return float(f)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, options):
        if len(options) == 1:
            self._get(name, 'int')
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def str(self, name, n, alphabet):
        v = self._get(name, 'str')
        rs = expand_alphabet(alphabet)
        if v is None:
            v = [rs[0][0]] * n
        return ''.join(chr(int(c)) for c in v)

    def bytes(self, name, n, alphabet=((0, 255),)):
        v = self._get(name, 'bytes')
        rs = expand_alphabet(alphabet)
        if v is None:
            v = [rs[0][0]] * n
        return bytes(int(c) for c in v)

    def blob(self, name, lo, hi, tag=0):
        n = self.int(name, lo, hi)
        return (b'blob%d~' % tag * (n // 6 + 1))[:n]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, detail=None):
        self.nchecks += 1
        if not c:
            self.failed = msg
            self.detail = None if detail is None else str(detail)
            raise CheckFailed(msg)

    def fail(self, msg, detail=None):
        self.check(False, msg, detail)

    def And(self, *xs): return all(xs)
    def Or(self, *xs): return any(xs)
    def Not(self, x): return not x
    def Implies(self, a, b): return (not a) or b

    def le(self, a, b, tol):
        return a <= b + tol

    def close(self, a, b, tol):
        return abs(a - b) <= tol

    def eqcodes(self, a, b):
        return list(a) == list(b)

    def observe(self, name, value):
        self.obs.setdefault(name, []).append(value)

    def note(self, text):
        pass

    def units(self, s):
        if isinstance(s, str):
            return [ord(c) for c in s]
        return list(s)

    def ulen(self, u):
        return 1

    def key(self, n):
        return n

    def isint(self, x):
        return isinstance(x, int)

    def isnum(self, x):
        return isinstance(x, (int, float))

    def lookup(self, table, i):
        return table[i]

    def issym(self, x):
        return False

    def text_of(self, codes):
        return ''.join(chr(c) for c in codes)

    def data_of(self, codes):
        return bytes(codes)

    def spelled(self, codes):
        return codes

    def inflate(self, codes):
        import zlib
        return zlib.decompress(bytes(codes))

    def concrete(self, x):
        return x

    def lit(self, x):
        return x
