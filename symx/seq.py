"""Symbolic strings and byte strings: concrete runs, symbolic characters and
opaque chunks (the decimal text of a symbolic number, deflated data, ...)."""
from fractions import Fraction
import sys

from . import core
from . import values as V
from .values import SNum, SBool, SChar, Chunk, s_and, s_or, s_not, NUMCHARS

WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160]
BWS = [9, 10, 11, 12, 13, 32]


def eng():
    return core.ENGINE


def between(c, lo, hi):
    return s_and(c >= lo, c <= hi)


def oneof(c, codes):
    """SBool/bool: code term c is one of the codes (merged to ranges)."""
    if type(c) is not SNum:
        return c in codes
    codes = sorted(set(codes))
    ranges = []
    for x in codes:
        if ranges and ranges[-1][1] == x - 1:
            ranges[-1][1] = x
        else:
            ranges.append([x, x])
    lo, hi = c.interval()
    parts = []
    for a, b in ranges:
        if (hi is not None and a > hi) or (lo is not None and b < lo):
            continue
        parts.append(c == a if a == b else between(c, a, b))
    return s_or(*parts) if parts else False


class SSeq:
    __symbolic__ = True
    __slots__ = ('cells', '_units')

    def __init__(self, cells):
        self.cells = cells
        self._units = None

    # ---- construction
    @classmethod
    def build(cls, items):
        """items: concrete runs, SChar, Chunk, or sequences of this class."""
        out = []
        run = cls.EMPTY
        sym = False
        for it in items:
            t = type(it)
            if t is cls.CONC:
                run = run + it
            elif t is cls:
                for c in it.cells:
                    if type(c) is cls.CONC:
                        run = run + c
                    else:
                        if run:
                            out.append(run)
                            run = cls.EMPTY
                        out.append(c)
                        sym = True
            elif t is SChar and type(it.code) is not SNum:
                run = run + cls.one(it.code)
            elif isinstance(it, cls.CONC) and t not in V.SYM:
                run = run + cls.CONC(it)
            else:
                if run:
                    out.append(run)
                    run = cls.EMPTY
                out.append(it)
                sym = True
        if not sym:
            return run
        if run:
            out.append(run)
        return cls(tuple(out))

    @classmethod
    def lift(cls, x):
        if type(x) is cls:
            return x
        if isinstance(x, cls.CONC):
            return cls((cls.CONC(x),) if len(x) else ())
        raise TypeError('expected %s, got %r' % (cls.CONC.__name__, type(x)))

    def units(self):
        """list of one-element concrete runs, SChar and Chunk."""
        if self._units is None:
            u = []
            for c in self.cells:
                if type(c) is self.CONC:
                    if self.CONC is str:
                        u.extend(c)
                    else:
                        u.extend(c[i:i + 1] for i in range(len(c)))
                else:
                    u.append(c)
            self._units = u
        return self._units

    @classmethod
    def code(cls, u):
        """code point of a unit (int or SNum); None for a chunk"""
        if type(u) is SChar:
            return u.code
        if type(u) is Chunk:
            return None
        return ord(u)

    def has_chunk(self):
        return any(type(c) is Chunk for c in self.cells)

    def expand(self):
        """replace number chunks by symbolic digits (forks on the length)"""
        if not self.has_chunk():
            return self
        out = []
        for c in self.cells:
            if type(c) is Chunk:
                out.append(expand_chunk(self.__class_real__, c))
            else:
                out.append(c)
        return self.build(out)

    def eval(self, m):
        out = []
        for u in self.units():
            if type(u) is SChar:
                out.append(chr(int(u.code.eval(m))))
            elif type(u) is Chunk:
                if u.kind == 'num':
                    out.append('{%s}' % float(u.value.eval(m)))
                else:
                    out.append('{%s}' % u.kind)
            else:
                out.append(u if type(u) is str else u.decode('latin'))
        return ''.join(out)

    def concretise(self):
        e = eng()
        s = self
        out = []
        for u in s.units():
            if type(u) is SChar:
                e.stats.note('symbolic character fixed by unmodelled use')
                out.append(self.one(int(e.concretise_term(u.code))))
            elif type(u) is Chunk:
                if u.kind != 'num':
                    raise core.PathEnd()
                e.stats.note('number text fixed by unmodelled use')
                f = e.concretise_term(u.value)
                t = fmt_concrete(f, u)
                out.append(t if self.CONC is str else t.encode())
            else:
                out.append(u)
        return self.EMPTY.join(out)

    # ---- size and indexing
    def slen(self):
        n = 0
        for c in self.cells:
            t = type(c)
            if t is SChar:
                n = n + 1
            elif t is Chunk:
                n = n + c.slen()
            else:
                n = n + len(c)
        return n

    def __len__(self):
        n = self.slen()
        return n.__index__() if type(n) is SNum else n

    def __bool__(self):
        n = self.slen()
        return bool(n > 0)

    def _flat(self):
        return self.expand() if self.has_chunk() else self

    def __iter__(self):
        s = self._flat()
        s = self.lift(s)
        for u in s.units():
            yield s.item(u)

    def _slice(self, a, b):
        return self.build(self.units()[a:b])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.has_chunk() and (type(i.start) is SNum or type(i.stop) is SNum) and i.step in (None, 1):
                us = self.units()
                st, sp = self._locate(us, i.start, 0), self._locate(us, i.stop, len(us))
                if st is not None and sp is not None:
                    return self.build(us[st:sp]) if st < sp else self.EMPTY
            st, sp, step = (V._fix(x) for x in (i.start, i.stop, i.step))
            us = self.units()
            if self.has_chunk():
                # slicing is fine as long as it stays clear of the chunks
                r = self._chunk_slice(st, sp, step)
                if r is not None:
                    return r
                s = self.lift(self._flat())
                us = s.units()
            return self.build(us[slice(st, sp, step)])
        if self.has_chunk():
            us = self.units()
            i = V._fix(i)
            if i >= 0 and not any(type(u) is Chunk for u in us[:i + 1]):
                return self.item(us[i])
            if i == 0 and us[0].kind == 'num':
                return self.item(lead_char(us[0], self))
            if i < 0 and not any(type(u) is Chunk for u in us[i:]):
                return self.item(us[i])
            return self.lift(self._flat())[i]
        return self.item(self.units()[V._fix(i)])

    def _locate(self, us, n, default):
        """the unit that begins n characters from the start, if it is one"""
        if n is None:
            return default
        at = 0
        for k, u in enumerate(us):
            d = n - at
            if type(d) is not SNum:
                if d == 0:
                    return k
                if d < 0:
                    return None
            at = at + (u.slen() if type(u) is Chunk else 1)
        d = n - at
        return len(us) if type(d) is not SNum and d == 0 else None

    def _chunk_slice(self, st, sp, step):
        if step not in (None, 1):
            return None
        us = self.units()
        pos = [i for i, u in enumerate(us) if type(u) is Chunk]
        first, last = pos[0], pos[-1]
        n = len(us)

        def ok(x, default):
            if x is None:
                return default
            if x >= 0:
                return x if x <= first else None
            return n + x if n + x > last else None
        a, b = ok(st, 0), ok(sp, n)
        if a is None or b is None:
            return None
        return self.build(us[a:b]) if a < b else self.EMPTY

    # ---- concatenation
    def __add__(self, o):
        if type(o) is type(self) or isinstance(o, self.CONC):
            return self.build((self, o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, self.CONC):
            return self.build((o, self))
        return NotImplemented

    def __mul__(self, n):
        n = V._fix(n)
        return self.build([self] * n)
    __rmul__ = __mul__

    # ---- comparison
    def __eq__(self, o):
        if o is self:
            return True
        if not (type(o) is type(self) or isinstance(o, self.CONC)):
            return False
        return seq_eq(self, self.lift(o))

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return id(self)

    def _less(self, o, strict):
        a = self.lift(self._flat()).units()
        b = self.lift(self.lift(o)._flat()).units()
        for x, y in zip(a, b):
            cx, cy = self.code(x), self.code(y)
            if cx == cy:
                continue
            return bool(cx < cy)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        if not (type(o) is type(self) or isinstance(o, self.CONC)):
            return NotImplemented
        return self._less(o, True)

    def __le__(self, o): return self._less(o, False)
    def __gt__(self, o): return not self._less(o, False)
    def __ge__(self, o): return not self._less(o, True)

    # ---- searching
    def _match_at(self, us, i, pat):
        """units us[i:] start with the units pat"""
        if i + len(pat) > len(us):
            return False
        for k, p in enumerate(pat):
            if not unit_eq(us[i + k], p):
                return False
        return True

    def _pat(self, x):
        if self.CONC is bytes and isinstance(x, int):
            return [SChar(x)] if type(x) is SNum else [bytes([x])]
        p = self.lift(x)
        if p.has_chunk():
            p = self.lift(p.expand())
        return p.units()

    def _hay(self, pat):
        """units to search; chunks are expanded only if the pattern could
        reach into the text of a number"""
        if not self.has_chunk():
            return self.units()
        for p in pat:
            if type(p) is SChar or chr(self.code(p)) in NUMCHARS:
                return self.lift(self._flat()).units()
        return self.units()

    def __contains__(self, x):
        if self.has_chunk() and isinstance(x, self.CONC) and len(x) == 1 and \
                x in (('e', 'E', '.') if self.CONC is str else (b'e', b'E', b'.')):
            r = self._num_has(x if type(x) is str else x.decode())
            if r is not None:
                return r
        p = self._pat(x)
        us = self._hay(p)
        return any(self._match_at(us, i, p) for i in range(len(us) - len(p) + 1))

    def _num_has(self, ch):
        """is ch in the text?  For e / E / . the text of a real is decided
        from its value (repr() uses an exponent below 1e-4 and from 1e16)"""
        for u in self.units():
            if type(u) is Chunk:
                if u.kind != 'num':
                    return None
                v = u.value
                if v.isint:
                    continue
                if isinstance(u.spec, tuple):
                    if ch == '.' and u.spec[0] == 'f' and u.spec[1] > 0:
                        return True
                    continue
                a = -v if v < 0 else v
                expo = bool(s_or(s_and(a > 0, a < Fraction(1, 10000)), a >= 10**16)) \
                    if not (v.grid() is not None and v.grid() <= 4) else bool(a >= 10**16)
                if ch == 'e' and expo:
                    return True
                if ch == '.' and not expo:
                    return True
                if ch == '.' and expo:
                    return None
            elif unit_eq(u, ch if self.CONC is str else ch.encode()):
                return True
        return False

    def find(self, x, start=0, end=None):
        p = self._pat(x)
        if self.has_chunk() and type(start) is int and start == 0 and end is None:
            us = self._hay(p)
            for i in range(len(us) - len(p) + 1):
                if self._match_at(us, i, p):
                    return self.lift(self.build(us[:i])).slen()
            return -1
        us = self.units() if not self.has_chunk() else self.lift(self._flat()).units()
        start, end = V._fix(start), V._fix(end)
        n = len(us)
        start = max(0, start + n) if start < 0 else start
        end = n if end is None else (end + n if end < 0 else min(end, n))
        for i in range(start, end - len(p) + 1):
            if self._match_at(us, i, p):
                return i
        return -1

    def rfind(self, x, start=0, end=None):
        p = self._pat(x)
        us = self.lift(self._flat()).units()
        for i in range(len(us) - len(p), V._fix(start) - 1, -1):
            if self._match_at(us, i, p):
                return i
        return -1

    def index(self, x, *a):
        r = self.find(x, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, x, *a):
        r = self.rfind(x, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, x):
        p = self._pat(x)
        us = self._hay(p)
        i = n = 0
        while i <= len(us) - len(p):
            if self._match_at(us, i, p):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def startswith(self, x, start=0, end=None):
        if start or end is not None:
            return self.lift(self[start:end]).startswith(x)
        if isinstance(x, tuple):
            return any(self.startswith(y) for y in x)
        p = self._pat(x)
        us = self.units()
        if any(type(u) is Chunk for u in us[:len(p)]):
            us = self._hay(p)
        return self._match_at(us, 0, p)

    def endswith(self, x):
        if isinstance(x, tuple):
            return any(self.endswith(y) for y in x)
        p = self._pat(x)
        us = self.units()
        if len(p) == 0:
            return True
        if any(type(u) is Chunk for u in us[-len(p):]):
            us = self._hay(p)
        if len(p) > len(us):
            return False
        return self._match_at(us, len(us) - len(p), p)

    # ---- rewriting
    def replace(self, old, new, count=-1):
        p = self._pat(old)
        us = self._hay(p)
        new = self.lift(new)
        out = []
        i = 0
        n = 0
        if len(p) == 0:
            for u in us:
                out.extend([new, self.item(u)])
            out.append(new)
            return self.build(out)
        while i < len(us):
            if (count < 0 or n < count) and self._match_at(us, i, p):
                out.append(new)
                i += len(p)
                n += 1
            else:
                out.append(us[i])
                i += 1
        return self.build(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        cur = []
        i = 0
        n = 0
        if sep is None:
            us = self.units()
            while i < len(us):
                u = us[i]
                if (maxsplit < 0 or n < maxsplit) and self.u_space(u):
                    if cur:
                        out.append(self.build(cur))
                        cur = []
                        n += 1
                elif maxsplit >= 0 and n >= maxsplit and not cur and self.u_space(u):
                    pass
                else:
                    cur.append(u)
                i += 1
            if cur:
                out.append(self.build(cur))
            return out
        p = self._pat(sep)
        if len(p) == 0:
            raise ValueError('empty separator')
        us = self._hay(p)
        while i < len(us):
            if (maxsplit < 0 or n < maxsplit) and self._match_at(us, i, p):
                out.append(self.build(cur))
                cur = []
                i += len(p)
                n += 1
            else:
                cur.append(us[i])
                i += 1
        out.append(self.build(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        head = parts[0]
        for x in parts[1:k]:
            head = self.build([head, sep, x])
        return [head] + parts[k:]

    def _part(self, sep, back):
        p = self._pat(sep)
        us = self._hay(p)
        at = range(len(us) - len(p) + 1)
        for i in reversed(at) if back else at:
            if self._match_at(us, i, p):
                return (self.build(us[:i]), sep, self.build(us[i + len(p):]))

    def partition(self, sep):
        return self._part(sep, False) or (self, self.EMPTY, self.EMPTY)

    def rpartition(self, sep):
        return self._part(sep, True) or (self.EMPTY, self.EMPTY, self)

    def splitlines(self, keepends=False):
        out = []
        cur = []
        us = self.units()
        brk = [10, 11, 12, 13, 28, 29, 30, 133, 0x2028, 0x2029] if self.CONC is str else [10, 13]
        i = 0
        while i < len(us):
            u = us[i]
            c = self.code(u)
            if c is not None and bool(oneof(c, brk)):
                end = [u]
                if bool(c == 13) and i + 1 < len(us) and self.code(us[i + 1]) is not None \
                        and bool(self.code(us[i + 1]) == 10):
                    i += 1
                    end.append(us[i])
                out.append(self.build(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(u)
            i += 1
        if cur:
            out.append(self.build(cur))
        return out

    def _strip(self, chars, left, right):
        us = list(self.units())
        if chars is None:
            test = self.u_space
        else:
            p = self._pat(chars)

            def test(u):
                if type(u) is Chunk:
                    return False
                return any(unit_eq(u, x) for x in p)
            if self.has_chunk():
                us = list(self._hay(p))
        a, b = 0, len(us)
        if left:
            while a < b and test(us[a]):
                a += 1
        if right:
            while b > a and test(us[b - 1]):
                b -= 1
        return self.build(us[a:b])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return self.build(self.units()[len(self.lift(p).units()):])
        return self

    def removesuffix(self, p):
        n = len(self.lift(p).units())
        if n and self.endswith(p):
            return self.build(self.units()[:-n])
        return self

    def join(self, items):
        items = list(items)
        out = []
        for k, it in enumerate(items):
            if k:
                out.append(self)
            if not (type(it) is type(self) or isinstance(it, self.CONC)):
                raise TypeError('sequence item %d: expected %s instance' % (k, self.CONC.__name__))
            out.append(it)
        return self.build(out)

    def u_space(self, u):
        c = self.code(u)
        if c is None:
            return False
        if type(c) is SNum:
            return bool(oneof(c, WS if self.CONC is str else BWS))
        return u.isspace()

    def isspace(self):
        us = self.units()
        return len(us) > 0 and all(self.u_space(u) for u in us)

    def _all(self, codes_test):
        us = self.lift(self._flat()).units()
        return len(us) > 0 and all(codes_test(self.code(u)) for u in us)

    def isdigit(self):
        return self._all(lambda c: bool(between(c, 48, 57)))
    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: bool(s_or(between(c, 65, 90), between(c, 97, 122)))
                         if type(c) is SNum else chr(c).isalpha())

    def isalnum(self):
        return self._all(lambda c: bool(s_or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122)))
                         if type(c) is SNum else chr(c).isalnum())

    def isascii(self):
        return all(bool(self.code(u) < 128) for u in self.units() if type(u) is not Chunk)

    def isprintable(self):
        return all(bool(s_and(self.code(u) >= 32, self.code(u) < 127)) for u in self.units() if type(u) is not Chunk)

    def _case(self, lo, hi, delta, name):
        out = []
        for u in self.units():
            if type(u) is SChar:
                if between(u.code, lo, hi):
                    out.append(SChar(u.code + delta))
                elif u.code >= 128:
                    v = eng().pick_int(u.code)
                    out.append(getattr(chr(v), name)())
                else:
                    out.append(u)
            elif type(u) is Chunk:
                out.append(u)
            else:
                out.append(getattr(u, name)())
        return self.build(out)

    def lower(self): return self._case(65, 90, 32, 'lower')
    def upper(self): return self._case(97, 122, -32, 'upper')
    casefold = lower

    def zfill(self, n):
        n = V._fix(n)
        if len(self.cells) == 1 and type(self.cells[0]) is Chunk and self.cells[0].kind == 'num' \
                and self.cells[0].value.isint and self.cells[0].spec == 'r':
            c = self.cells[0]
            if c.value >= 0 and c.value < 10**n:
                return type(self)((Chunk('num', c.value, ('z', n), n),))
        s = self.lift(self._flat())
        us = s.units()
        return self.build([self.EMPTY.join([self.one(48)] * (n - len(us))), s])

    def _just(self, n, ch, l, r):
        s = self.lift(self._flat())
        k = max(0, V._fix(n) - len(s.units()))
        left = {('l'): 0}.get(l, 0)
        if l and r:
            left = k // 2 + (k & n & 1)
        elif l:
            left = k
        return self.build([ch * left, s, ch * (k - left)])

    def ljust(self, n, ch=' '): return self._just(n, ch, False, True)
    def rjust(self, n, ch=' '): return self._just(n, ch, True, False)
    def center(self, n, ch=' '): return self._just(n, ch, True, True)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return '%s%r' % (type(self).__name__, tuple(
            c if type(c) not in (SChar, Chunk) else
            (c.code if type(c) is SChar else (c.kind, c.value)) for c in self.cells))

    def __reduce__(self):
        return (repr, (repr(self),))


def unit_eq(a, b):
    """bool: two units denote the same character (forks)."""
    ta, tb = type(a), type(b)
    if ta is Chunk or tb is Chunk:
        return False
    ca = a.code if ta is SChar else ord(a)
    cb = b.code if tb is SChar else ord(b)
    return bool(ca == cb)


def seq_eq(a, b):
    """bool or SBool: equality of two sequences of one class."""
    ua, ub = a.units(), b.units()
    if not a.has_chunk() and not b.has_chunk():
        if len(ua) != len(ub):
            return False
        conds = []
        for x, y in zip(ua, ub):
            cx = x.code if type(x) is SChar else ord(x)
            cy = y.code if type(y) is SChar else ord(y)
            r = cx == cy
            if r is False:
                return False
            conds.append(r)
        return s_and(*conds)
    i = j = 0
    conds = []
    while i < len(ua) and j < len(ub):
        x, y = ua[i], ub[j]
        tx, ty = type(x), type(y)
        if tx is Chunk and ty is Chunk:
            if x is y:
                i += 1
                j += 1
                continue
            if x.same(y):
                if x.kind == 'num':
                    if x.value.isint != y.value.isint:
                        return _hard_eq(a, b)
                    # the texts of two reals are equal only if the values are
                    r = x.value == y.value
                    if r is False:
                        return False
                    conds.append(r)
                    i += 1
                    j += 1
                    continue
                if x.kind == 'deflate':
                    conds.append(bool(x.value == y.value))
                    i += 1
                    j += 1
                    continue
            return _hard_eq(a, b)
        if tx is Chunk or ty is Chunk:
            ch, us, k = (x, ub, j) if tx is Chunk else (y, ua, i)
            if ch.kind != 'num':
                return _hard_eq(a, b)
            run = ''
            while k < len(us) and type(us[k]) not in (SChar, Chunk):
                c = us[k] if type(us[k]) is str else us[k].decode('latin')
                if c not in NUMCHARS:
                    break
                run += c
                k += 1
            if k < len(us) and type(us[k]) in (SChar, Chunk):
                return _hard_eq(a, b)
            if run == '':
                return False
            try:
                val = int(run) if ch.value.isint else float(run)
            except ValueError:
                return _hard_eq(a, b)
            if ch.spec == 'r' and (str(val) != run):
                if run == '-0.0' or '-' in run[1:] or '+' in run[1:]:
                    return _hard_eq(a, b)
                return False
            r = ch.value == val
            if r is False:
                return False
            conds.append(r)
            if tx is Chunk:
                i += 1
                j = k
            else:
                j += 1
                i = k
            continue
        cx = x.code if tx is SChar else ord(x)
        cy = y.code if ty is SChar else ord(y)
        r = cx == cy
        if r is False:
            return False
        conds.append(r)
        i += 1
        j += 1
    if i != len(ua) or j != len(ub):
        rest = ua[i:] + ub[j:]
        if all(type(u) is Chunk and u.kind in ('blob',) for u in rest):
            return _hard_eq(a, b)
        return False
    return s_and(*conds)


def _hard_eq(a, b):
    if (a.has_chunk() and any(c.kind != 'num' for c in a.cells if type(c) is Chunk)) or \
            (b.has_chunk() and any(c.kind != 'num' for c in b.cells if type(c) is Chunk)):
        return False
    x, y = a.expand(), b.expand()
    r = a.lift(x) , b.lift(y)
    return seq_eq(r[0], r[1])


def fmt_concrete(f, ch):
    v = ch.value
    if v.isint:
        t = str(int(f))
        if isinstance(ch.spec, tuple) and ch.spec[0] == 'z':
            return t.zfill(ch.spec[1])
        return t
    if isinstance(ch.spec, tuple) and ch.spec[0] == 'f':
        return '%.*f' % (ch.spec[1], float(f))
    return repr(float(f))


def lead_char(ch, s):
    """first character of the text of a number: '-' or some digit"""
    e = eng()
    v = ch.value
    if v < 0:
        return s.one(45)
    key = ('lead', v.key())
    hit = e.roundcache.get(key)
    if hit is None:
        e.approx = True
        hit = e.roundcache[key] = SNum.of_atom(e.fresh('lead', True, Fraction(48), Fraction(57)))
    return SChar(hit)


def expand_chunk(cls, ch):
    """text of a number chunk as characters"""
    e = eng()
    if ch.kind != 'num':
        raise core.PathEnd()
    v = ch.value
    if v.isint:
        key = ('digits', v.key(), str(ch.spec))
        hit = e.roundcache.get(key)
        if hit is not None:
            return cls.build(hit)
        neg = bool(v < 0)
        n = -v if neg else v
        k = 1
        while k < 19 and not bool(n < 10**k):
            k += 1
        lo, hi = n.interval() if type(n) is SNum else (n, n)
        if k == 1 and type(n) is SNum and lo is not None and hi is not None and 0 <= lo and hi <= 9:
            out = [SChar(n + 48)]
        else:
            ds = [SNum.of_atom(e.fresh('digit', True, Fraction(0), Fraction(9))) for _ in range(k)]
            tot = 0
            for d in ds:
                tot = tot * 10 + d
            e.add((tot == n).e)
            if k > 1:
                e.add((ds[0] >= 1).e)
            out = [SChar(d + 48) for d in ds]
        pad = []
        if isinstance(ch.spec, tuple) and ch.spec[0] == 'z':
            pad = [cls.one(48)] * (ch.spec[1] - k - (1 if neg else 0))
        hit = ([cls.one(45)] if neg else []) + pad + out
        e.roundcache[key] = hit
        return cls.build(hit)
    e.stats.note('text of a symbolic real fixed by unmodelled use')
    f = e.concretise_term(v)
    t = fmt_concrete(f, ch)
    return t if cls.CONC is str else t.encode()


class SStr(SSeq):
    __slots__ = ()
    CONC = str
    EMPTY = ''

    @property
    def __class__(self):
        return str

    @property
    def __class_real__(self):
        return SStr

    @staticmethod
    def one(code):
        return chr(code)

    def item(self, u):
        return u if type(u) is str else SStr((u,))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        if enc in ('latin', 'latin1', 'latin-1', 'iso-8859-1', 'iso8859-1', 'l1', 'ascii', 'us-ascii'):
            lim = 256 if 'ascii' not in enc else 128
            for c in self.cells:
                if type(c) is SChar:
                    if c.code >= lim:
                        if errors != 'strict':
                            if errors == 'ignore':
                                continue
                            out.append(b'?')
                            continue
                        raise UnicodeEncodeError(enc, '\u0100', 0, 1, 'ordinal not in range(%d)' % lim)
                    out.append(c)
                elif type(c) is Chunk:
                    out.append(c)
                else:
                    out.append(c.encode(enc, errors))
            return SBytes.build(out)
        if enc in ('utf-8', 'utf8', 'u8'):
            for c in self.cells:
                if type(c) is SChar:
                    out.extend(utf8(c.code))
                elif type(c) is Chunk:
                    out.append(c)
                else:
                    out.append(c.encode(enc, errors))
            return SBytes.build(out)
        if enc in ('utf-16-be', 'utf16-be', 'utf-16be', 'utf-16-le', 'utf-16le'):
            be = 'b' in enc
            s = self.lift(self._flat())
            for u in s.units():
                if type(u) is SChar:
                    if u.code >= 0xd800 and u.code < 0xe000:
                        raise UnicodeEncodeError(enc, '\ud800', 0, 1, 'surrogates not allowed')
                    units16 = [u.code]
                    if u.code >= 0x10000:
                        v = u.code - 0x10000
                        hi = v // 1024
                        units16 = [hi + 0xd800, (v - hi * 1024) + 0xdc00]
                    for w in units16:
                        hi = w // 256
                        pair = [SChar(hi), SChar(w - hi * 256)]
                        out.extend(pair if be else pair[::-1])
                else:
                    out.append(u.encode('utf-16-be' if be else 'utf-16-le', errors))
            return SBytes.build(out)
        return self.concretise().encode(encoding, errors)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self.concretise(), a, k)

    def __mod__(self, a):
        from . import models
        return models.str_mod(self.concretise(), a)

    def __format__(self, spec):
        return format(self.concretise(), spec)

    def __str__(self):
        return self.concretise()

    def translate(self, table):
        out = []
        for u in self.units():
            if type(u) is SChar:
                done = False
                for k, v in table.items():
                    if u.code == (k if isinstance(k, int) else ord(k)):
                        if v is not None:
                            out.append(v if isinstance(v, str) else chr(v))
                        done = True
                        break
                if not done:
                    out.append(u)
            elif type(u) is Chunk:
                out.append(u)
            else:
                out.append(u.translate(table))
        return self.build(out)

    def capitalize(self):
        s = self.lift(self.lower())
        return self.build([self.lift(s[:1]).upper(), s[1:]])

    def title(self):
        return self.concretise().title()

    def swapcase(self):
        return self.concretise().swapcase()

    def isupper(self): return self.concretise().isupper()
    def islower(self): return self.concretise().islower()
    def isidentifier(self): return self.concretise().isidentifier()
    def expandtabs(self, *a): return self.concretise().expandtabs(*a)


def utf8(c):
    if c < 0x80:
        return [SChar(c)]
    if c < 0x800:
        h = c // 64
        return [SChar(h + 0xc0), SChar(c - h * 64 + 0x80)]
    if c >= 0xd800 and c < 0xe000:
        raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
    if c < 0x10000:
        h = c // 4096
        r = c - h * 4096
        m = r // 64
        return [SChar(h + 0xe0), SChar(m + 0x80), SChar(r - m * 64 + 0x80)]
    a = c // 262144
    r = c - a * 262144
    h = r // 4096
    r = r - h * 4096
    m = r // 64
    return [SChar(a + 0xf0), SChar(h + 0x80), SChar(m + 0x80), SChar(r - m * 64 + 0x80)]


class SBytes(SSeq):
    __slots__ = ()
    CONC = bytes
    EMPTY = b''

    @property
    def __class__(self):
        return bytes

    @property
    def __class_real__(self):
        return SBytes

    @staticmethod
    def one(code):
        return bytes([code])

    def item(self, u):
        if type(u) is SChar:
            return u.code
        return u[0]

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('latin', 'latin1', 'latin-1', 'iso-8859-1', 'iso8859-1', 'l1'):
            return SStr.build([c if type(c) in (SChar, Chunk) else c.decode('latin') for c in self.cells])
        if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8'):
            if all(bool(c.code < 128) for c in self.cells if type(c) is SChar):
                return SStr.build([c if type(c) in (SChar, Chunk) else c.decode(enc, errors) for c in self.cells])
            if 'ascii' in enc:
                raise UnicodeDecodeError(enc, b'\x80', 0, 1, 'ordinal not in range(128)')
        if enc in ('utf-16-be', 'utf-16be'):
            us = self.lift(self._flat()).units()
            out = []
            i = 0
            while i + 1 < len(us):
                w = self.code(us[i]) * 256 + self.code(us[i + 1])
                i += 2
                if (w >= 0xd800) and (w < 0xdc00) and i + 1 < len(us):
                    w2 = self.code(us[i]) * 256 + self.code(us[i + 1])
                    i += 2
                    w = (w - 0xd800) * 1024 + (w2 - 0xdc00) + 0x10000
                out.append(SChar(w))
            return SStr.build(out)
        return self.concretise().decode(encoding, errors)

    def hex(self):
        out = []
        for u in self.lift(self._flat()).units():
            if type(u) is SChar:
                h = u.code // 16
                for d in (h, u.code - h * 16):
                    if type(d) is not SNum:
                        out.append('%x' % d)
                    elif d < 10:
                        out.append(SChar(d + 48))
                    else:
                        out.append(SChar(d + 87))
            else:
                out.append(u.hex())
        return SStr.build(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SSeq.__getitem__(self, i)
        return SSeq.__getitem__(self, i)

    def __str__(self):
        return str(self.concretise())

    def __bytes__(self):
        return self.concretise()
