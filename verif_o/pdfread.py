"""An independent reader of PDF syntax (ISO 32000-1, clause 7), written over
unit lists so that it runs on concrete and on symbolic bytes alike.

Units are code points (int, possibly symbolic) or Cells (a number whose digits
are not spelled out, a deflated stream, a run of unknown bytes)."""
from symx.ctx import Cell

WHITE = (0, 9, 10, 12, 13, 32)
DELIM = (40, 41, 60, 62, 91, 93, 123, 125, 47, 37)
IRREGULAR = frozenset(WHITE + DELIM)


class ReadError(Exception):
    pass


class Name(str):
    pass


class PStr:
    """a string object: list of codes"""

    def __init__(self, codes):
        self.codes = codes

    def text(self, cx):
        return cx.text_of(self.codes)


class Ref:
    def __init__(self, n, g):
        self.n, self.g = n, g

    def __eq__(self, o):
        return isinstance(o, Ref) and self.n == o.n and self.g == o.g

    def __repr__(self):
        return 'Ref(%s)' % (self.n,)


class Stream:
    def __init__(self, d, data):
        self.dict, self.data = d, data


def is_cell(u):
    return isinstance(u, Cell)


class Reader:
    def __init__(self, cx, data, units=None):
        self.cx = cx
        self.us = cx.units(data) if units is None else units
        self.i = 0

    # a concrete test that does not fork on symbolic characters unless needed
    def at(self, code, k=0):
        j = self.i + k
        if j >= len(self.us):
            return False
        u = self.us[j]
        if type(u) is int:
            return u == code
        if type(u) is Cell:
            return False
        return bool(u == code)

    def at_any(self, codes, k=0):
        j = self.i + k
        if j >= len(self.us):
            return False
        u = self.us[j]
        if type(u) is int:
            return u in codes
        if type(u) is Cell:
            return False
        for c in codes:
            if u == c:
                return True
        return False

    def eof(self):
        return self.i >= len(self.us)

    def ws(self):
        us, n = self.us, len(self.us)
        while self.i < n and type(us[self.i]) is int:
            u = us[self.i]
            if u in WHITE:
                self.i += 1
            elif u == 37:
                break
            else:
                return
        while not self.eof():
            if self.at_any(WHITE):
                self.i += 1
            elif self.at(37):
                while not self.eof() and not self.at_any((10, 13)):
                    self.i += 1
            else:
                return

    def expect(self, text):
        for ch in text:
            if not self.at(ord(ch)):
                raise ReadError('expected %r' % text)
            self.i += 1

    def looking(self, text):
        for k, ch in enumerate(text):
            if not self.at(ord(ch), k):
                return False
        return True

    def regular(self):
        if self.eof():
            return False
        u = self.us[self.i]
        if type(u) is int:
            return u not in IRREGULAR
        if is_cell(u):
            return u.kind == 'num'
        return not self.at_any(WHITE) and not self.at_any(DELIM)

    # ---- objects
    def number(self):
        sign = 1
        if self.at(43) or self.at(45):
            if self.at(45):
                sign = -1
            self.i += 1
            signed = True
        else:
            signed = False
        if self.eof():
            raise ReadError('number expected')
        u = self.us[self.i]
        if is_cell(u):
            if u.kind != 'num':
                raise ReadError('number expected')
            self.i += 1
            if not u.legal:
                raise ReadError('number written in exponent form')
            v = u.value
            if signed and v < 0:
                raise ReadError('number with two signs')
            if self.regular():
                raise ReadError('garbage behind a number')
            return -v if sign < 0 else v
        val = 0
        nd = 0
        scale = 0
        dot = False
        us, n = self.us, len(self.us)
        while self.i < n and type(us[self.i]) is int:
            c = us[self.i]
            if 48 <= c <= 57:
                val = val * 10 + (c - 48)
                nd += 1
                if dot:
                    scale += 1
            elif c == 46 and not dot:
                dot = True
            else:
                break
            self.i += 1
        while not self.eof() and not is_cell(self.us[self.i]):
            c = self.us[self.i]
            if not dot and self.at(46):
                dot = True
            elif c >= 48 and c <= 57:
                val = val * 10 + (c - 48)
                nd += 1
                if dot:
                    scale += 1
            else:
                break
            self.i += 1
        if nd == 0:
            raise ReadError('number expected')
        if self.regular():
            raise ReadError('garbage behind a number')
        if dot:
            if not self.cx.issym(val):
                from fractions import Fraction
                return float(Fraction(sign * val, 10 ** scale))
            return sign * val / 10 ** scale
        return sign * val

    def name(self):
        self.expect('/')
        out = []
        while self.regular():
            u = self.us[self.i]
            if is_cell(u):
                raise ReadError('number text inside a name')
            if self.at(35):
                h = self.hexval(self.us[self.i + 1]) * 16 + self.hexval(self.us[self.i + 2])
                out.append(h)
                self.i += 3
            else:
                out.append(u)
                self.i += 1
        t = self.cx.text_of(out)
        return Name(t) if not self.cx.issym(t) else PName(t)

    def hexval(self, u):
        if is_cell(u):
            raise ReadError('hex digit expected')
        if u >= 48 and u <= 57:
            return u - 48
        if u >= 65 and u <= 70:
            return u - 55
        if u >= 97 and u <= 102:
            return u - 87
        raise ReadError('hex digit expected')

    def literal(self):
        """7.3.4.2 literal strings"""
        self.expect('(')
        out = []
        depth = 1
        while True:
            if self.eof():
                raise ReadError('unterminated string')
            u = self.us[self.i]
            if is_cell(u):
                out.append(u)
                self.i += 1
                continue
            if self.at(40):
                depth += 1
            elif self.at(41):
                depth -= 1
                if depth == 0:
                    self.i += 1
                    return PStr(out)
            elif self.at(92):
                self.i += 1
                if self.eof():
                    raise ReadError('unterminated string')
                e = self.us[self.i]
                if is_cell(e):
                    out.append(e)
                    self.i += 1
                    continue
                done = False
                for a, b in ((110, 10), (114, 13), (116, 9), (98, 8), (102, 12)):
                    if e == a:
                        out.append(b)
                        done = True
                        break
                if done:
                    self.i += 1
                    continue
                if e >= 48 and e <= 55:
                    v = 0
                    n = 0
                    while n < 3 and not self.eof() and not is_cell(self.us[self.i]) \
                            and self.us[self.i] >= 48 and self.us[self.i] <= 55:
                        v = v * 8 + (self.us[self.i] - 48)
                        self.i += 1
                        n += 1
                    out.append(v % 256)
                    continue
                if e == 13:
                    self.i += 1
                    if self.at(10):
                        self.i += 1
                    continue
                if e == 10:
                    self.i += 1
                    continue
                out.append(e)
                self.i += 1
                continue
            elif self.at(13):
                # an end-of-line marker in a string reads as a line feed
                out.append(10)
                self.i += 1
                if self.at(10):
                    self.i += 1
                continue
            out.append(u)
            self.i += 1

    def hexstr(self):
        self.expect('<')
        ds = []
        while True:
            self.ws()
            if self.eof():
                raise ReadError('unterminated hex string')
            if self.at(62):
                self.i += 1
                break
            ds.append(self.hexval(self.us[self.i]))
            self.i += 1
        if len(ds) % 2:
            ds.append(0)
        return PStr([ds[k] * 16 + ds[k + 1] for k in range(0, len(ds), 2)])

    def obj(self):
        self.ws()
        if self.eof():
            raise ReadError('object expected')
        u = self.us[self.i]
        if is_cell(u):
            if u.kind != 'num':
                raise ReadError('object expected')
            return self.num_or_ref()
        if self.looking('<<'):
            return self.dict()
        if self.at(60):
            return self.hexstr()
        if self.at(40):
            return self.literal()
        if self.at(47):
            return self.name()
        if self.at(91):
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.eof():
                    raise ReadError('unterminated array')
                if self.at(93):
                    self.i += 1
                    return out
                out.append(self.obj())
        for w, v in (('true', True), ('false', False), ('null', None)):
            if self.looking(w):
                self.i += len(w)
                if self.regular():
                    raise ReadError('garbage behind a keyword')
                return v
        return self.num_or_ref()

    def num_or_ref(self):
        v = self.number()
        if self.cx.isint(v):
            save = self.i
            try:
                self.ws()
                if not self.eof() and (is_cell(self.us[self.i]) or self.at_any(range(48, 58))):
                    g = self.number()
                    if self.cx.isint(g):
                        self.ws()
                        if self.at(82):
                            self.i += 1
                            if not self.regular():
                                return Ref(v, g)
            except ReadError:
                pass
            self.i = save
        return v

    def dict(self):
        self.expect('<<')
        out = {}
        while True:
            self.ws()
            if self.eof():
                raise ReadError('unterminated dictionary')
            if self.looking('>>'):
                self.i += 2
                return out
            if not self.at(47):
                raise ReadError('dictionary key expected')
            k = self.name()
            if k in out:
                raise ReadError('duplicate key in a dictionary')
            out[k] = self.obj()


class PName:
    """a name with symbolic characters"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return self.t == o

    def __hash__(self):
        return id(self)


def parse_one(cx, data):
    """the single object a piece of PDF text denotes"""
    r = Reader(cx, data)
    o = r.obj()
    r.ws()
    if not r.eof():
        raise ReadError('text behind the object')
    return o


class File:
    """A PDF file read through its cross-reference table."""

    def __init__(self, cx, data):
        self.cx = cx
        self.us = us = cx.units(data)
        n = len(us)
        # offsets of the units
        pos = 0
        self.pos = []
        self.index = {}
        for k, u in enumerate(us):
            self.pos.append(pos)
            if type(pos) is int:
                self.index[pos] = k
            else:
                self.index[cx.key(pos)] = k
            pos = pos + (1 if type(u) is int else cx.ulen(u))
        self.size = pos
        r = Reader(cx, None, us)
        self.r = r
        r.expect('%PDF-')
        # the trailer is found from the end of the file
        k = n - 1
        while k >= 0 and not (us[k] == 37 and self._look(k, '%%EOF')):
            k -= 1
            if n - k > 40:
                raise ReadError('no end-of-file marker')
        r.i = k + 5
        while not r.eof():
            if not r.at_any(WHITE):
                raise ReadError('text behind the end-of-file marker')
            r.i += 1
        k -= 1
        lim = k - 60
        while k > lim and not self._look(k, 'startxref'):
            k -= 1
        if k <= lim:
            raise ReadError('no startxref')
        r.i = k + 9
        r.ws()
        self.startxref = r.number()
        self.entries = {}
        r.i = self.seek(self.startxref, 'startxref')
        r.expect('xref')
        self._eol()
        self.first = r.number()
        r.ws()
        self.count = r.number()
        self._eol()
        if cx.issym(self.count):
            raise ReadError('symbolic object count')
        for j in range(self.count):
            start = r.i
            off = self._digits(10)
            r.expect(' ')
            gen = self._digits(5)
            r.expect(' ')
            kind = None
            if r.at(110):
                kind = 'n'
            elif r.at(102):
                kind = 'f'
            else:
                raise ReadError('cross-reference entry')
            r.i += 1
            # 20 bytes per entry: the last two are SP CR, SP LF or CR LF
            a, b = us[r.i], us[r.i + 1]
            if not ((a == 32 or a == 13) and (b == 10 or b == 13)):
                raise ReadError('cross-reference entry is not 20 bytes long')
            r.i += 2
            self.entries[self.first + j] = (off, gen, kind)
        r.ws()
        r.expect('trailer')
        self.trailer = r.obj()
        self.objects = {}
        self.spans = []

    def _look(self, k, text):
        us = self.us
        if k < 0 or k + len(text) > len(us):
            return False
        for j, ch in enumerate(text):
            u = us[k + j]
            if is_cell(u) or not bool(u == ord(ch)):
                return False
        return True

    def _eol(self):
        r = self.r
        if not r.at_any(WHITE):
            raise ReadError('end of line expected')
        r.ws()

    def _digits(self, n):
        r = self.r
        u = self.us[r.i]
        if is_cell(u):
            if u.kind != 'num' or not bool(self.cx.ulen(u) == n):
                raise ReadError('field of %d digits expected' % n)
            r.i += 1
            return u.value
        v = 0
        for _ in range(n):
            c = self.us[r.i]
            if is_cell(c) or not (c >= 48 and c <= 57):
                raise ReadError('field of %d digits expected' % n)
            v = v * 10 + (c - 48)
            r.i += 1
        return v

    def seek(self, off, what):
        """unit index of a byte offset"""
        k = self.index.get(self.cx.key(off))
        if k is None and self.cx.sym:
            # not written in the same way: where it may be the same
            for i, pos in enumerate(self.pos):
                if self.cx.issym(off - pos) and bool(off == pos):
                    return i
        if k is None:
            raise ReadError('%s: offset points into nothing' % what)
        return k

    def object(self, n):
        """the value of indirect object n"""
        if n in self.objects:
            return self.objects[n]
        if n not in self.entries:
            raise ReadError('reference to an object that does not exist')
        off, gen, kind = self.entries[n]
        if kind != 'n':
            raise ReadError('reference to a free object')
        r = self.r
        r.i = self.seek(off, 'object')
        start = r.i
        num = r.number()
        r.expect(' ')
        g = r.number()
        r.expect(' ')
        r.expect('obj')
        if not bool(num == n) or not bool(g == gen):
            raise ReadError('cross-reference entry points at another object')
        v = r.obj()
        r.ws()
        if r.looking('stream'):
            r.i += 6
            if r.at(13):
                r.i += 1
                r.expect('\n')
            else:
                r.expect('\n')
            length = v.get('Length')
            if isinstance(length, Ref):
                save = r.i
                length = self.object(length.n)
                r.i = save
            if length is None or isinstance(length, (Name, PStr, list, dict)):
                raise ReadError('stream without a length')
            a = r.i
            b = self.seek(self.pos[a] + length, 'Length')
            if b < a:
                raise ReadError('negative stream length')
            data = self.us[a:b]
            r.i = b
            if r.at(13):
                r.i += 1
            if r.at(10):
                r.i += 1
            r.expect('endstream')
            v = Stream(v, data)
            r.ws()
        r.expect('endobj')
        self.objects[n] = v
        self.spans.append((start, r.i, n))
        return v

    def get(self, x):
        """dereference"""
        k = 0
        while isinstance(x, Ref):
            x = self.object(x.n)
            k += 1
            if k > 10:
                raise ReadError('reference loop')
        return x

    def stream_data(self, s):
        """decoded unit list of a stream object"""
        f = self.get(s.dict.get('Filter'))
        if f is None or f == []:
            return s.data
        if isinstance(f, list):
            if len(f) != 1:
                raise ReadError('filters')
            f = f[0]
        if f == 'FlateDecode':
            try:
                d = self.cx.inflate(s.data)
            except Exception:
                raise ReadError('deflated data does not decode')
            return self.cx.units(d)
        raise ReadError('unknown filter')

    def all_refs(self, x, out):
        if isinstance(x, Ref):
            out.append(x)
        elif isinstance(x, list):
            for y in x:
                self.all_refs(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                self.all_refs(y, out)
        elif isinstance(x, Stream):
            self.all_refs(x.dict, out)
        return out
