"""Call dispatcher and models of the builtins and library functions that the
code under test applies to symbolic values."""
import builtins
import copy as _copy
import io
import json
import math
import re
import string
import struct
import traceback
import types
import uuid
import zlib

import z3
from fractions import Fraction

from . import core
from . import values as V
from .values import SNum, SBool, SChar, Chunk, SRange, num_cell, s_and, s_not
from .seq import SSeq, SStr, SBytes, between, oneof
from . import rx

SYM = set(V.SYM)
_ERRS = {}


def eng():
    return core.ENGINE


ATOMIC = {int, str, float, bool, bytes, type(None), Fraction}


def deep_sym(x, d=4):
    t = type(x)
    if t in SYM:
        return True
    if d == 0 or t in ATOMIC:
        return False
    if t in (list, tuple, set, frozenset):
        ts = set(map(type, x))
        if not SYM.isdisjoint(ts):
            return True
        if d == 1 or ts <= ATOMIC:
            return False
        for y in x:
            if type(y) not in ATOMIC and deep_sym(y, d - 1):
                return True
    elif t is dict or isinstance(x, dict):
        for k, v in dict.items(x):
            if type(k) in SYM or deep_sym(v, d - 1):
                return True
    return False


def deep_conc(x, d=6):
    t = type(x)
    if t is SNum or t is SBool:
        return V._fix(x)
    if t is SStr or t is SBytes:
        return x.concretise()
    if t is SRange:
        return list(x)
    if d == 0:
        return x
    if t is list:
        return [deep_conc(y, d - 1) for y in x]
    if t is tuple:
        return tuple(deep_conc(y, d - 1) for y in x)
    if t is set:
        return {deep_conc(y, d - 1) for y in x}
    if t is dict:
        return {deep_conc(k, d - 1): deep_conc(v, d - 1) for k, v in x.items()}
    return x


# ------------------------------------------------------------- text of values

def to_text(x, spec=''):
    """str(x) / format(x, spec) as str or SStr."""
    t = type(x)
    if t is SStr:
        if spec == '' or spec == 's':
            return x
        return pad_spec(x, spec)
    if t is SBool:
        return format(bool(x), spec)
    if t is SNum:
        if spec == '':
            return SStr.build([num_cell(x)])
        m = re.fullmatch(r'(.?[<>=^])?([+ -]?)(0?)(\d*)(,?)(\.\d+)?([a-zA-Z%]?)', spec)
        if m:
            al, sign, zero, width, comma, prec, ty = m.groups()
            if ty == 'd' or (ty == '' and prec is None and x.isint):
                s = SStr.build([num_cell(x)])
                if not width and not sign and not comma:
                    return s
                if zero and not al and width and not sign and not comma:
                    return SStr.lift(s).zfill(int(width))
                if width and not sign and not comma and not zero:
                    al_ = al or '>'
                    f, a = (al_[0], al_[1]) if len(al_) == 2 else (' ', al_)
                    return {'<': SStr.lift(s).ljust, '>': SStr.lift(s).rjust,
                            '^': SStr.lift(s).center}.get(a, SStr.lift(s).rjust)(int(width), f)
            if ty in ('f', 'F') and not sign and not comma and (not width or not al and (zero or width)):
                n = int(prec[1:]) if prec else 6
                r = V.s_round(V.s_float(x), n)
                if type(r) is not SNum:
                    return format(r, spec)
                if n == 0 and r.all_int():
                    r = V.s_int(r)
                    s = SStr.build([num_cell(r)]) if type(r) is SNum else str(r)
                else:
                    s = SStr.build([num_cell(r, ('f', n))])
                if width:
                    s = SStr.lift(s).zfill(int(width)) if zero else SStr.lift(s).rjust(int(width))
                return s
            if ty in ('x', 'X') and x.all_int():
                return hex_text(x, int(width or 0) if zero else 0, ty == 'X')
            if ty == 'g' and not width and not sign and not comma and prec is not None:
                n = int(prec[1:])
                if n >= 12:
                    return SStr.build([num_cell(x)])
        eng().stats.note('format spec %r of a symbolic number fixed to one value' % spec)
        return format(V._fix(x), spec)
    if t is SBytes:
        return str(x.concretise())
    if t in (list, tuple, dict, set):
        if deep_sym(x):
            return repr_text(x)
        return format(x, spec)
    if isinstance(x, BaseException) and deep_sym(list(x.args)):
        return str(x) if not x.args else to_text(x.args[0])
    if spec == '' and t.__str__ is not object.__str__ and isinstance(t.__dict__.get('__str__'), types.FunctionType):
        return t.__str__(x)
    if '__format__' in t.__dict__ and isinstance(t.__dict__['__format__'], types.FunctionType):
        return t.__format__(x, spec)
    if spec == '':
        for k in t.__mro__:
            f = k.__dict__.get('__str__')
            if f is not None:
                if isinstance(f, types.FunctionType):
                    return f(x)
                break
    return format(x, spec)


def pad_spec(x, spec):
    m = re.fullmatch(r'(.?[<>^])?(\d+)s?', spec)
    if m:
        al = m.group(1) or '<'
        f, a = (al[0], al[1]) if len(al) == 2 else (' ', al)
        return {'<': x.ljust, '>': x.rjust, '^': x.center}[a](int(m.group(2)), f)
    return format(x.concretise(), spec)


def hex_text(x, width, upper):
    if x < 0:
        return format(V._fix(x), 'x')
    k = 1
    while k < 16 and not bool(x < 16**k):
        k += 1
    out = []
    rest = x
    for j in range(k - 1, -1, -1):
        d = rest // (16**j)
        rest = rest - d * (16**j)
        if type(d) is not SNum:
            out.append('%x' % d)
        elif d < 10:
            out.append(SChar(d + 48))
        else:
            out.append(SChar(d + (55 if upper else 87)))
    return SStr.build(['0' * max(0, width - k)] + out)


def repr_text(x):
    t = type(x)
    if t is SStr:
        # representative repr: used only for messages
        return SStr.build(["'", x, "'"])
    if t is list:
        out = ['[']
        for k, y in enumerate(x):
            if k:
                out.append(', ')
            out.append(repr_text(y))
        return SStr.build(out + [']'])
    if t is tuple:
        out = ['(']
        for k, y in enumerate(x):
            if k:
                out.append(', ')
            out.append(repr_text(y))
        return SStr.build(out + [',)' if len(x) == 1 else ')'])
    if t is dict:
        out = ['{']
        for k, (a, b) in enumerate(x.items()):
            if k:
                out.append(', ')
            out += [repr_text(a), ': ', repr_text(b)]
        return SStr.build(out + ['}'])
    if t is SNum:
        return to_text(x)
    if t in (SBool, SBytes):
        return repr(deep_conc(x))
    return repr(x)


_FMT = string.Formatter()


def str_format(fmt, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in _FMT.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = _get_field(field, args, kwargs)
        if spec and '{' in spec:
            sub = []
            for l2, f2, s2, c2 in _FMT.parse(spec):
                sub.append(l2)
                if f2 is not None:
                    if f2 == '':
                        f2 = str(auto)
                        auto += 1
                    v, _ = _get_field(f2, args, kwargs)
                    sub.append(str(V._fix(v)))
            spec = ''.join(sub)
        if conv == 'r':
            obj = repr_text(obj)
        elif conv in ('s', 'a'):
            obj = to_text(obj)
        out.append(to_text(obj, spec or ''))
    return SStr.build(out)


def _get_field(field, args, kwargs):
    first, rest = string._string.formatter_field_name_split(field)
    obj = args[first] if isinstance(first, int) else kwargs[first]
    for is_attr, i in rest:
        obj = getattr(obj, i) if is_attr else getitem(obj, i)
    return obj, first


def str_mod(fmt, a):
    if not (deep_sym(a)):
        return fmt % a
    parts = re.split(r'(%(?:\(\w+\))?[-+ #0]*(?:\d+|\*)?(?:\.\d+)?[a-zA-Z%])', fmt)
    vals = list(a) if type(a) is tuple else [a]
    out = []
    for p in parts:
        if not p.startswith('%') or len(p) < 2:
            out.append(p)
            continue
        if p == '%%':
            out.append('%')
            continue
        m = re.fullmatch(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(\.\d+)?([a-zA-Z])', p)
        if not m:
            return fmt % deep_conc(a)
        name, flags, width, prec, ty = m.groups()
        v = a[name] if name else vals.pop(0)
        if type(v) not in SYM:
            if deep_sym(v):
                out.append(repr_text(v))
            else:
                out.append(('%' + flags + width + (prec or '') + ty) % (v,))
            continue
        if ty == 's':
            out.append(to_text(v))
        elif ty == 'r':
            out.append(repr_text(v))
        elif ty in 'di':
            v = V.s_int(v) if type(v) is SNum else v
            out.append(to_text(v, ('0' + width if '0' in flags and width else width) or ''))
        elif ty in 'fF':
            out.append(to_text(v, (prec or '.6') + 'f'))
        elif ty in 'xX':
            out.append(to_text(v, ('0' + width if '0' in flags and width else '') + ty))
        elif ty == 'g' and not prec:
            out.append(('%' + flags + width + 'g') % V._fix(v))
        else:
            out.append(('%' + flags + width + (prec or '') + ty) % (deep_conc(v),))
    return SStr.build(out)


def bytes_mod(fmt, a):
    if not deep_sym(a):
        return fmt % a
    vals = list(a) if type(a) is tuple else [a]
    parts = re.split(rb'(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
    out = []
    for p in parts:
        if not p.startswith(b'%') or len(p) < 2:
            out.append(p)
        elif p == b'%%':
            out.append(b'%')
        else:
            v = vals.pop(0)
            if type(v) not in SYM:
                out.append(p % (v,))
            elif p[-1:] in b'sb':
                out.append(v)
            else:
                s = str_mod(p.decode(), (v,))
                out.append(s.encode('latin'))
    return SBytes.build(out)


# ------------------------------------------------------------ numbers from text

def parse_number_text(s, want_int, base=10):
    """int(s) / float(s) of a symbolic string."""
    s = s.strip()
    if type(s) is not SStr:
        return int(s, base) if want_int else float(s)
    if len(s.cells) == 1 and type(s.cells[0]) is Chunk and s.cells[0].kind == 'num':
        v = s.cells[0].value
        if want_int:
            if not v.isint:
                raise ValueError('invalid literal for int()')
            return v
        return V.s_float(v)
    us = s.units()
    if len(us) == 2 and us[0] in ('-', '+') and type(us[1]) is Chunk and us[1].kind == 'num':
        v = us[1].value
        if v < 0:
            raise ValueError('invalid literal')
        v = -v if us[0] == '-' else v
        return v if want_int else V.s_float(v)
    if s.has_chunk():
        s = SStr.lift(s.expand())
        us = s.units()
    if not us:
        raise ValueError('invalid literal: empty')
    neg = False
    i = 0
    c = SStr.code(us[0])
    if bool(oneof(c, [43, 45])):
        neg = bool(c == 45)
        i = 1
    if base == 16 and i + 1 < len(us) and bool(SStr.code(us[i]) == 48) and \
            bool(oneof(SStr.code(us[i + 1]), [120, 88])):
        i += 2
    digits = 0
    val = 0
    scale = None
    last_us = True
    while i < len(us):
        c = SStr.code(us[i])
        d = digit_value(c, base)
        if d is not None:
            val = val * base + d
            digits += 1
            if scale is not None:
                scale *= 10
            last_us = False
        elif bool(c == 95) and not last_us and scale is None:
            last_us = True
        elif not want_int and scale is None and bool(c == 46):
            scale = 1
            last_us = True
        elif not want_int and digits and bool(oneof(c, [69, 101])):
            j = i + 1
            if j < len(us) and bool(oneof(SStr.code(us[j]), [43, 45])):
                j += 1
            if j >= len(us) or digit_value(SStr.code(us[j]), 10) is None:
                raise ValueError('could not convert string to float')
            # exponents: fixed to one text
            return float(s.concretise())
        else:
            if not want_int:
                rest = SStr.lift(SStr.build(us[1 if neg else 0:]))
                low = rest.lower()
                for w in ('inf', 'infinity', 'nan'):
                    if bool(low == w):
                        return float('-' + w if neg else w)
            raise ValueError('invalid literal for number')
        i += 1
    if digits == 0 or (last_us and scale is None):
        raise ValueError('invalid literal for number')
    if neg:
        val = -val
    if want_int:
        return val
    if scale and scale > 1:
        return val / scale
    return V.s_float(val)


def digit_value(c, base):
    if type(c) is not SNum:
        try:
            return int(chr(c), base)
        except ValueError:
            return None
    if between(c, 48, 48 + min(base, 10) - 1):
        return c - 48
    if base == 16:
        if between(c, 97, 102):
            return c - 87
        if between(c, 65, 70):
            return c - 55
    if c >= 128:
        v = eng().pick_int(c)
        try:
            return int(chr(v), base)
        except ValueError:
            return None
    return None


# -------------------------------------------------------------------- models

def m_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    t = type(x)
    if t is SNum:
        return V.s_int(x)
    if t is SBool:
        return x.num()
    if t is SStr:
        base = a[1] if len(a) > 1 else k.get('base', 10)
        return parse_number_text(x, True, base)
    if t is SBytes:
        return parse_number_text(SStr.lift(x.decode('latin')), True, a[1] if len(a) > 1 else k.get('base', 10))
    return int(*deep_conc(a), **k)


def m_float(*a):
    x = a[0]
    t = type(x)
    if t is SNum or t is SBool:
        return V.s_float(x)
    if t is SStr:
        return parse_number_text(x, False)
    return float(deep_conc(x))


def m_str(*a, **k):
    if not a:
        return ''
    x = a[0]
    if len(a) > 1 or k:
        if type(x) is SBytes:
            return x.decode(*a[1:], **k)
        return str(*deep_conc(a), **k)
    return to_text(x)


def m_len(x):
    if isinstance(x, SSeq) and type(x) in SYM:
        return x.slen()
    if type(x) is SRange:
        return x.s_len()
    return len(x)


def m_ord(x):
    if type(x) in (SStr, SBytes):
        us = x.lift(x._flat()).units()
        if len(us) != 1:
            raise TypeError('ord() expected a character')
        return x.code(us[0])
    return ord(x)


def m_chr(x):
    if type(x) is SNum:
        return SStr((SChar(x),))
    return chr(x)


class Buffers:
    made = False        # whether a SymByteArray has been made in this process


def m_bytearray(*a, **k):
    Buffers.made = True
    x = a[0] if a else b''
    if type(x) is SymByteArray:
        x = x.data
    elif type(x) is not bytes:
        x = m_bytes(*a, **k) if deep_sym(x) else bytes(*a, **k)
    return SymByteArray(x)


class SymByteArray:
    """a bytearray that can hold symbolic bytes"""
    __hash__ = None

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return bytearray

    def extend(self, more):
        if type(more) is SymByteArray:
            more = more.data
        if type(more) not in (bytes, SBytes):
            more = call(bytes, list(more))
        self.data = self.data + more

    def __iadd__(self, more):
        self.extend(more)
        return self

    def append(self, c):
        self.data = self.data + call(bytes, [c])

    def insert(self, i, c):
        self.data = getitem(self.data, slice(0, i)) + call(bytes, [c]) + getitem(self.data, slice(i, None))

    def clear(self):
        self.data = b''

    def pop(self, i=-1):
        i = V._fix(i) if type(i) is SNum else i
        c = self.data[i]
        n = call(len, self.data)
        i = i + n if i < 0 else i
        self.data = getitem(self.data, slice(0, i)) + getitem(self.data, slice(i + 1, None))
        return c

    def __add__(self, o):
        return SymByteArray(self.data + getattr(o, 'data', o))

    def __radd__(self, o):
        return SymByteArray(o + self.data) if type(o) not in (bytes, SBytes) else o + self.data

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return bool(self.data)

    def __iter__(self):
        return iter(self.data)

    def __getitem__(self, i):
        r = getitem(self.data, i)
        return SymByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if not isinstance(i, slice):
            v = call(bytes, [v])
            n = call(len, self.data)
            i = i + n if i < 0 else i
            i = slice(i, i + 1)
        elif i.step is not None:
            raise core.PathEnd()
        v = getattr(v, 'data', v)
        a = 0 if i.start is None else i.start
        b = call(len, self.data) if i.stop is None else i.stop
        self.data = getitem(self.data, slice(0, a)) + v + getitem(self.data, slice(b, None))

    def __delitem__(self, i):
        self[i if isinstance(i, slice) else slice(i, i + 1)] = b''

    def __contains__(self, x):
        return contains(x, self.data)

    def __eq__(self, o):
        return self.data == getattr(o, 'data', o)

    def __ne__(self, o):
        return self.data != getattr(o, 'data', o)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(self.data, name)
        return lambda *a, **k: call(f, *a, **k)


def unwrap(a):
    return tuple(x.data if type(x) is SymByteArray else
            [y.data if type(y) is SymByteArray else y for y in x] if type(x) in (list, tuple) and any(type(y) is SymByteArray for y in x)
            else x for x in a)


class SymStringIO(io.StringIO):
    """a text buffer that keeps symbolic text"""

    def __init__(self, initial='', newline='\n'):
        io.StringIO.__init__(self)
        self.parts = [initial] if initial is not None and (type(initial) is SStr or initial) else []
        self.at_end = not self.parts

    def write(self, text):
        if not self.at_end:
            raise core.PathEnd()
        self.parts.append(text)
        return call(len, text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return call(''.join, self.parts)

    def seek(self, pos, whence=0):
        self.at_end = pos == 0 and whence == 2 or pos == 0 and not self.parts
        self.start = pos == 0 and whence == 0
        if not (self.at_end or self.start):
            raise core.PathEnd()
        return pos

    def read(self, n=-1):
        if self.at_end:
            return ''
        if n is not None and n >= 0:
            raise core.PathEnd()
        self.at_end = True
        return self.getvalue()

    def tell(self):
        if not self.at_end:
            return 0
        return call(len, self.getvalue())

    def truncate(self, size=None):
        if size == 0:
            self.parts = []
            return 0
        raise core.PathEnd()

    def __iter__(self):
        return iter(self.getvalue().splitlines(True))


def m_bytes(*a, **k):
    x = a[0]
    t = type(x)
    if t is SBytes:
        return x
    if t is SStr:
        return x.encode(*a[1:], **k)
    if t is SNum:
        return bytes(x.__index__())
    if t in (list, tuple):
        return SBytes.build([SChar(c) if type(c) is SNum else bytes([c]) for c in x])
    return bytes(*deep_conc(a), **k)


def m_hex(x):
    if type(x) is SNum:
        return SStr.build(['0x', hex_text(x, 0, False)])
    return hex(x)


def m_type(*a):
    if len(a) == 1 and type(a[0]) in SYM:
        return a[0].__class__
    return type(*a)


def m_bool(x=False):
    if type(x) is SBool:
        return x
    if type(x) is SNum:
        return x != 0
    return bool(x)


def m_repr(x):
    return repr_text(x)


def m_format(x, spec=''):
    return to_text(x, spec)


def m_range(*a):
    return SRange(*a)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_print(*a, **k):
    return None


def m_dumps(obj, **k):
    return json_text(obj, k)


def json_text(obj, k):
    t = type(obj)
    if t is SStr:
        out = ['"']
        ascii_ = k.get('ensure_ascii', True)
        for u in obj.units():
            c = SStr.code(u)
            if c is None:
                out.append(u)
                continue
            if type(c) is not SNum:
                out.append(json.dumps(chr(c), ensure_ascii=ascii_ and c < 0x10000)[1:-1])
            elif c == 34:
                out.append('\\"')
            elif c == 92:
                out.append('\\\\')
            elif ascii_ and c > 126:
                # \\uXXXX, kept as the character it is read back as
                out.append(u)
            elif c < 32:
                v = eng().pick_int(c)
                out.append(json.dumps(chr(v), ensure_ascii=ascii_)[1:-1])
            else:
                out.append(u)
        out.append('"')
        return SStr.build(out)
    if t is SNum:
        return to_text(obj)
    if t is SBool:
        return 'true' if obj else 'false'
    if t is dict:
        out = ['{']
        for n, (a, b) in enumerate(obj.items()):
            if n:
                out.append(', ')
            out += [json_text(a, k), ': ', json_text(b, k)]
        return SStr.build(out + ['}'])
    if t in (list, tuple):
        out = ['[']
        for n, b in enumerate(obj):
            if n:
                out.append(', ')
            out.append(json_text(b, k))
        return SStr.build(out + [']'])
    return json.dumps(obj, **k)


def m_loads(s, **k):
    if type(s) is SBytes:
        s = s.decode('utf-8')
    if type(s) is not SStr:
        return json.loads(s, **k)
    us = s.units()
    pos = [0]

    def ws():
        while pos[0] < len(us) and us[pos[0]] in (' ', '\n', '\t', '\r'):
            pos[0] += 1

    def value():
        ws()
        u = us[pos[0]]
        if u == '{':
            pos[0] += 1
            d = {}
            ws()
            if us[pos[0]] == '}':
                pos[0] += 1
                return d
            while True:
                ws()
                key = value()
                ws()
                if us[pos[0]] != ':':
                    raise ValueError('json')
                pos[0] += 1
                d[key] = value()
                ws()
                c = us[pos[0]]
                pos[0] += 1
                if c == '}':
                    return d
                if c != ',':
                    raise ValueError('json')
        if u == '[':
            pos[0] += 1
            out = []
            ws()
            if us[pos[0]] == ']':
                pos[0] += 1
                return out
            while True:
                out.append(value())
                ws()
                c = us[pos[0]]
                pos[0] += 1
                if c == ']':
                    return out
        if u == '"':
            pos[0] += 1
            out = []
            while True:
                u = us[pos[0]]
                pos[0] += 1
                if type(u) is SChar:
                    if u.code == 34:
                        return SStr.build(out)
                    if u.code == 92:
                        raise ValueError('json')
                    if u.code < 32:
                        raise ValueError('json')
                    out.append(u)
                elif u == '"':
                    return SStr.build(out)
                elif u == '\\':
                    n = us[pos[0]]
                    pos[0] += 1
                    if n == 'u':
                        h = ''.join(us[pos[0]:pos[0] + 4])
                        pos[0] += 4
                        out.append(chr(int(h, 16)))
                    else:
                        out.append({'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}.get(n, n))
                else:
                    out.append(u)
        if type(u) is Chunk:
            pos[0] += 1
            return u.value
        lit = ''
        while pos[0] < len(us) and type(us[pos[0]]) is str and us[pos[0]] not in ',]} \n':
            lit += us[pos[0]]
            pos[0] += 1
        return json.loads(lit)
    return value()


def m_compress(data, *a, **k):
    if type(data) is SBytes:
        # one stream per content: equal bytes give equal deflated bytes
        e = eng()
        key = ('deflate',) + tuple(
            c if type(c) is bytes else
            (('ch', c.code.key()) if type(c) is SChar else
             (c.kind, c.value.key() if type(c.value) is SNum else id(c.value), str(c.spec)))
            for c in data.cells)
        hit = e.roundcache.get(key)
        if hit is None:
            hit = e.roundcache[key] = SBytes((Chunk('deflate', data),))
        return hit
    return zlib.compress(data, *a, **k)


def m_decompress(data, *a, **k):
    if type(data) is SBytes:
        if len(data.cells) == 1 and type(data.cells[0]) is Chunk and data.cells[0].kind == 'deflate':
            return data.cells[0].value
        raise zlib.error('incorrect header check')
    return zlib.decompress(data, *a, **k)


def m_unpack(fmt, data, prefix=False):
    if type(data) is not SBytes:
        return struct.unpack(fmt, data)
    f = fmt if isinstance(fmt, str) else fmt.decode()
    order = '<'
    i = 0
    if f and f[0] in '<>!=@':
        order = f[0]
        i = 1
    us = data.lift(data._flat()).units()
    codes = [SBytes.code(u) for u in us]
    out = []
    p = 0
    for n, ch in re.findall(r'(\d*)([a-zA-Z?])', f[i:]):
        size = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8, 'x': 1, 's': 1, 'c': 1}[ch]
        cnt = int(n) if n else 1
        if ch == 's':
            seg = us[p:p + cnt]
            if len(seg) < cnt:
                raise struct.error('unpack requires a buffer')
            out.append(SBytes.build(seg))
            p += cnt
            continue
        for _ in range(cnt):
            seg = codes[p:p + size]
            if len(seg) < size:
                raise struct.error('unpack requires a buffer')
            p += size
            if ch == 'x':
                continue
            if ch == 'c':
                out.append(SBytes.build(us[p - size:p]))
                continue
            if order in '<=@':
                seg = seg[::-1]
            v = 0
            for c in seg:
                v = v * 256 + c
            if ch in 'bhilq':
                if v >= 256**size // 2:
                    v = v - 256**size
            out.append(v)
    if p != len(us) and not prefix:
        raise struct.error('unpack requires a buffer of %d bytes' % p)
    return tuple(out)


def m_unpack_from(fmt, buffer, offset=0):
    if type(buffer) is not SBytes:
        return struct.unpack_from(fmt, buffer, _index(offset))
    return m_unpack(fmt, getitem(buffer, slice(offset, None)), True)


def _index(x):
    return x.__index__() if type(x) is SNum else x


class SymBytesIO(io.BytesIO):
    """a byte buffer that keeps symbolic bytes"""

    def __init__(self, initial=b''):
        io.BytesIO.__init__(self)
        self.data = initial if initial is not None else b''
        self.at = 0
        self.shut = False

    def _open(self):
        if self.shut:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._open()
        total = m_len(self.data) if type(self.data) is SBytes else len(self.data)
        end = total
        if n is not None and n >= 0:
            end = self.at + n
            if end > total:
                end = total
        if self.at > end:
            return b''
        out = getitem(self.data, slice(self.at, end))
        self.at = end
        return out

    read1 = read

    def write(self, data):
        self._open()
        if type(data) in (bytearray, memoryview):
            data = bytes(data)
        total = m_len(self.data) if type(self.data) is SBytes else len(self.data)
        n = m_len(data) if type(data) is SBytes else len(data)
        if self.at == total:
            self.data = self.data + data
        else:
            self.data = getitem(self.data, slice(0, self.at)) + data + getitem(self.data, slice(self.at + n, None))
        self.at = self.at + n
        return n

    def seek(self, pos, whence=0):
        self._open()
        total = m_len(self.data) if type(self.data) is SBytes else len(self.data)
        self.at = pos if whence == 0 else self.at + pos if whence == 1 else total + pos
        return self.at

    def tell(self):
        self._open()
        return self.at

    def getvalue(self):
        self._open()
        return self.data

    def getbuffer(self):
        return self.getvalue()

    def close(self):
        self.shut = True

    @property
    def closed(self):
        return self.shut

    def truncate(self, size=None):
        self._open()
        size = self.at if size is None else size
        self.data = getitem(self.data, slice(0, size))
        return size

    def readinto(self, b):
        d = deep_conc(self.read(len(b)))
        b[:len(d)] = d
        return len(d)

    def readline(self, size=-1):
        out = b''
        while True:
            c = self.read(1)
            if c == b'':
                return out
            out = out + c
            if c == b'\n':
                return out


def m_from_bytes(data, byteorder='big', signed=False):
    if type(data) is SBytes:
        cs = [SBytes.code(u) for u in data.lift(data._flat()).units()]
    else:
        cs = list(data)
    if byteorder == 'little':
        cs = cs[::-1]
    v = 0
    for c in cs:
        v = v * 256 + c
    if signed and cs and v >= 256**len(cs) // 2:
        v = v - 256**len(cs)
    return v


def m_divmod(a, b):
    q = a // b
    return q, a - q * b


def m_abs(x):
    return abs(x)


def m_floor(x):
    return V._floor(x) if type(x) is SNum else math.floor(x)


def m_ceil(x):
    if type(x) is SNum:
        f = V._floor(-x)
        return -f
    return math.ceil(x)


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    d = abs(a - b)
    m = max(abs(a), abs(b))
    return bool(d <= max(m * rel_tol, abs_tol))


def m_fsum(it):
    return m_sum(it)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in it if (call(f, x) if f is not None else x))


def m_sorted(it, *, key=None, reverse=False):
    return msort(list(it), key, reverse)


def msort(xs, key=None, reverse=False):
    """stable insertion sort on symbolic keys"""
    ks = [(call(key, x) if key is not None else x) for x in xs]
    out = []
    for k, x in zip(ks, xs):
        i = len(out)
        while i > 0:
            lt = (out[i - 1][0] < k) if reverse else (k < out[i - 1][0])
            if not lt:
                break
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def m_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        it = src.items() if hasattr(src, 'items') else src
        for kk, v in it:
            setitem(d, kk, v)
    for kk, v in k.items():
        setitem(d, kk, v)
    return d


def m_set(it=()):
    out = set()
    for x in it:
        set_add(out, x)
    return out


def set_add(s, x):
    if type(x) not in SYM and (type(x) is not tuple or not deep_sym(x)) and (eng() is None or not eng().symkeys):
        s.add(x)
    elif not member(s, x):
        eng().symkeys = True
        keyed(set.add, s, x)


def member(c, x):
    """x in c for set / dict keys with symbolic elements"""
    if type(x) not in SYM and not deep_sym(x):
        try:
            if x in c:
                return True
        except TypeError:
            raise
        if eng() is None or not eng().symkeys:
            return False
        return any(type(y) in SYM and bool(y == x) or deep_sym(y) and bool(y == x) for y in c)
    for y in c:
        if y is x:
            return True
    for y in c:
        if bool(y == x):
            return True
    return False


def symbolic_keys(d):
    """the keys of d that are symbolic; remembers dicts that have none"""
    e = eng()
    hit = e.nosym.get(id(d))
    if hit is not None and hit[0] is d and hit[1] == len(d):
        return ()
    out = [y for y in d if type(y) in SYM or type(y) is tuple and deep_sym(y)]
    if not out:
        e.nosym[id(d)] = [d, len(d)]
    return out


def find_key(d, k):
    """(found, actual key)"""
    if type(k) not in SYM and not (type(k) is tuple and deep_sym(k)):
        if k in d:
            return True, k
        if eng() is None or not eng().symkeys:
            return False, k
        for y in symbolic_keys(d):
            if bool(y == k):
                return True, y
        return False, k
    for y in d:
        if y is k:
            return True, y
    if len(d) > 6 and type(k) in SYM and not isinstance(k, SBool) and not eng().symkeys:
        # large tables: fork over the possible keys instead of comparing all
        if type(k) is SNum:
            if k.all_int():
                n = k.__index__() if k.isint else V._fix(k)
                return n in d, n
        elif all(type(u) is SChar or type(u) is k.CONC for u in k.cells) and len(k.units()) <= 2:
            c = k.EMPTY.join([k.one(eng().pick_int(u.code)) if type(u) is SChar else u for u in k.units()])
            return c in d, c
    for y in list(d):
        r = y == k
        if type(r) is not bool:
            r = bool(r)
        if r:
            return True, y
    return False, k


MISSING = object()


def keyed(op, d, k, *a):
    """an operation of a dictionary or set on a key that find_key chose: numbers
    and booleans that are symbolic are stored by identity, not by value"""
    if type(k) is not SNum and type(k) is not SBool and type(k) is not tuple:
        return op(d, k, *a)
    V.BYID[0] += 1
    try:
        if op in (dict.__setitem__, set.add):
            stored = dict.__contains__(d, k) if op is dict.__setitem__ else set.__contains__(d, k)
            if stored or not any(y is k for y in d):
                return op(d, k, *a)
        else:
            return op(d, k, *a)
    except KeyError:
        pass
    finally:
        V.BYID[0] -= 1
    return op(d, k, *a)


def table_lookup(o, k):
    """o[k] of a table of plain numbers at a symbolic character or index, as one
    symbolic number instead of one path for every key; MISSING if not possible"""
    e = eng()
    if type(k) is SNum:
        if not k.all_int():
            return MISSING
        code = k
        make = int
    else:
        us = k.units()
        if len(us) != 1 or type(us[0]) is not SChar:
            return MISSING
        code = us[0].code
        make = k.one
    lo, hi = code.interval()
    if lo is None or hi is None or hi - lo > 600:
        return MISSING
    if type(o) is dict:
        if e.symkeys:
            return MISSING
        get = o.get
    else:
        if lo < 0:
            return MISSING
        get = lambda i: o[i] if i < len(o) else None
    groups, missing = {}, []
    for c in range(math.ceil(lo), math.floor(hi) + 1):
        v = get(make(c))
        if v is None:
            missing.append(c)
            continue
        if type(v) is not int and type(v) is not float:
            return MISSING
        groups.setdefault((type(v), v), []).append(c)
    if not groups or len({t for t, v in groups}) != 1:
        return MISSING
    z = code.z()

    def among(cs):
        out = []
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            out.append(z == cs[i] if i == j else z3.And(z >= cs[i], z <= cs[j]))
            i = j + 1
        return out[0] if len(out) == 1 else z3.Or(*out)
    if missing and bool(SBool(among(missing))):
        raise KeyError(k) if type(o) is dict else IndexError('list index out of range')
    if len(groups) == 1:
        return next(iter(groups))[1]
    key = ('table', id(o), code.key())
    hit = e.roundcache.get(key)
    if hit is None:
        t = next(iter(groups))[0]
        vs = [core.frac(v) for _, v in groups]
        a = e.fresh('table', t is int, min(vs), max(vs))
        e.keep.append(o)
        e.add(z3.Or(*[z3.And(among(cs), a.var == core.zval(core.frac(v), t is int)) for (_, v), cs in groups.items()]))
        hit = e.roundcache[key] = SNum.of_atom(a, t is int)
    return hit


def getitem(o, k):
    if type(k) in SYM and not isinstance(k, SBool) and (type(o) is dict and len(o) > 6 or type(o) is list and len(o) > 6):
        r = table_lookup(o, k)
        if r is not MISSING:
            return r
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        if (eng() is not None and eng().symkeys) or type(k) in SYM or type(k) is tuple:
            f, kk = find_key(o, k)
            if f:
                return keyed(dict.__getitem__, o, kk)
            if hasattr(type(o), '__missing__'):
                return type(o).__missing__(o, k)
            raise KeyError(k)
    elif type(k) is SNum and type(o) in (list, tuple):
        return o[k.__index__()]
    elif type(o) is str and type(k) is slice:
        return o[V._fix(k.start):V._fix(k.stop):V._fix(k.step)]
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__:
        if type(k) in SYM or type(k) is tuple or (eng() is not None and eng().symkeys):
            f, kk = find_key(o, k)
            if not f and (type(k) in SYM or deep_sym(k)):
                eng().symkeys = True
                eng().nosym.pop(id(o), None)
            elif not f and eng() is not None:
                h = eng().nosym.get(id(o))
                if h is not None and h[0] is o and h[1] == len(o):
                    h[1] += 1
            keyed(dict.__setitem__, o, kk, v)
            return
    o[k] = v


def display(*pairs):
    """{k: v, **m}"""
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k in p[0].keys():
                setitem(d, k, p[0][k])
        else:
            setitem(d, p[0], p[1])
    return d


def comprehension(pairs):
    """{k: v for ...}"""
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def delitem(o, k):
    if isinstance(o, dict):
        if type(k) in SYM or type(k) is tuple or (eng() is not None and eng().symkeys):
            f, kk = find_key(o, k)
            if not f:
                raise KeyError(k)
            keyed(dict.__delitem__, o, kk)
            return
    del o[k]


def contains(x, c):
    """x in c"""
    t = type(c)
    if t is str or t is bytes:
        if type(x) in SYM:
            return (SStr if t is str else SBytes).lift(c).__contains__(x)
        return x in c
    if t in (SStr, SBytes, SRange):
        return c.__contains__(x)
    if t is range and type(x) is SNum:
        return SRange(c.start, c.stop, c.step).__contains__(x)
    if isinstance(c, dict) and type(c).__contains__ is dict.__contains__:
        if type(x) in SYM or type(x) is tuple or (eng() is not None and eng().symkeys):
            return find_key(c, x)[0]
        return x in c
    if isinstance(c, (set, frozenset)):
        if type(x) in SYM or type(x) is tuple or (eng() is not None and eng().symkeys):
            return member(c, x)
        return x in c
    if t in (list, tuple):
        for y in c:
            if y is x:
                return True
            r = y == x
            if r:
                return True
        return False
    return x in c


def dict_method(d, name, a, k):
    if name == 'get':
        f, kk = find_key(d, a[0])
        return keyed(dict.__getitem__, d, kk) if f else (a[1] if len(a) > 1 else k.get('default'))
    if name == 'setdefault':
        f, kk = find_key(d, a[0])
        if f:
            return keyed(dict.__getitem__, d, kk)
        v = a[1] if len(a) > 1 else None
        setitem(d, a[0], v)
        return v
    if name == 'pop':
        f, kk = find_key(d, a[0])
        if f:
            return keyed(dict.pop, d, kk)
        if len(a) > 1:
            return a[1]
        raise KeyError(a[0])
    if name == 'update':
        for src in a:
            it = src.items() if hasattr(src, 'items') else src
            for kk, v in it:
                setitem(d, kk, v)
        for kk, v in k.items():
            setitem(d, kk, v)
        return None
    if name == '__getitem__':
        return getitem(d, *a)
    if name == '__setitem__':
        return setitem(d, *a)
    if name == '__contains__':
        return contains(a[0], d)
    return None


class Uuid:
    """stand-in for uuid.uuid4(): distinct values, reproducible on a path"""

    def __init__(self, n):
        self.n = n
        self.hex = '%032x' % (0x1234567812344abc8123456700000000 + n)

    def __str__(self):
        h = self.hex
        return '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    __repr__ = __str__


def m_uuid4():
    e = eng()
    n = e.counters.get('uuid', 0) + 1
    e.counters['uuid'] = n
    return Uuid(n)


def m_deepcopy(x, *a):
    return _copy.deepcopy(x)


def m_max(*a, key=None, default=MISSING):
    return _minmax(a, key, default, True)


def m_min(*a, key=None, default=MISSING):
    return _minmax(a, key, default, False)


def _minmax(a, key, default, is_max):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if default is not MISSING:
            return default
        raise ValueError('arg is an empty sequence')
    best = xs[0]
    kb = call(key, best) if key is not None else best
    for x in xs[1:]:
        kx = call(key, x) if key is not None else x
        if (kx > kb) if is_max else (kx < kb):
            best, kb = x, kx
    return best


ALWAYS = {
    uuid.uuid4: m_uuid4,
    traceback.print_exc: lambda *a, **k: None,
    print: m_print,
    map: m_map,
    io.BytesIO: SymBytesIO,
    io.StringIO: SymStringIO,
    bytearray: m_bytearray,
    filter: m_filter,
}

WHEN_SYM = {
    int: m_int, float: m_float, str: m_str, len: m_len, ord: m_ord, chr: m_chr,
    bytes: m_bytes, hex: m_hex, type: m_type, bool: m_bool, repr: m_repr,
    format: m_format, range: m_range, sum: m_sum, divmod: m_divmod,
    json.dumps: m_dumps, json.loads: m_loads, zlib.compress: m_compress,
    zlib.decompress: m_decompress, struct.unpack: m_unpack, struct.unpack_from: m_unpack_from,
    math.floor: m_floor, math.ceil: m_ceil, math.isclose: m_isclose,
    math.fsum: m_fsum, sorted: m_sorted, dict: m_dict, set: m_set,
    frozenset: m_set, max: m_max, min: m_min, round: lambda x, n=None: V.s_round(x, n) if type(x) is SNum else round(deep_conc(x), deep_conc(n)),
    int.from_bytes: m_from_bytes,
    math.trunc: lambda x: V.s_int(x),
    re.split: rx.split, re.sub: rx.sub, re.match: rx.match, re.fullmatch: rx.fullmatch,
    re.search: rx.search, re.findall: rx.findall, re.finditer: rx.finditer,
    re.escape: lambda s: re.escape(s.concretise()),
    _copy.deepcopy: m_deepcopy,
}

# how deep the arguments of a function are searched for symbolic values
DEPTH = {int: 0, float: 0, len: 0, ord: 0, chr: 0, hex: 0, type: 0, bool: 0, range: 0, divmod: 0,
         round: 0, bytes: 1, sum: 1, max: 2, min: 2, sorted: 2, set: 2, frozenset: 2, dict: 3,
         math.floor: 0, math.ceil: 0, math.trunc: 0, math.isclose: 0, math.fsum: 1,
         int.from_bytes: 1, zlib.compress: 0, zlib.decompress: 0, struct.unpack: 0}

# natively fine with symbolic arguments: they only use the protocols
PROTOCOL = {
    isinstance, issubclass, list, tuple, abs, any, all, enumerate, zip,
    reversed, iter, next, getattr, setattr, hasattr, id, callable, delattr,
    object, property, staticmethod, classmethod, slice, _copy.copy, vars, hash,
}


LAZY = (types.GeneratorType, map, zip, filter, enumerate, reversed)
KEEP = [isinstance, type, id, getattr, setattr, hasattr, list, tuple, dict, callable, iter, enumerate, bytearray]


def call(f, /, *a, **k):
    tf = type(f)
    if Buffers.made and tf is not types.FunctionType and tf is not types.MethodType and not any(f is x for x in KEEP):
        a = unwrap(a)
    if tf is types.FunctionType:
        m = f.__module__
        if m and m.startswith('pdfme'):
            core.ENGINE.stats.functions.add(m + '.' + f.__qualname__)
        elif not (m and (m.startswith('verif_') or m.startswith('symx'))):
            try:
                h = ALWAYS.get(f)
            except TypeError:
                h = None
            if h is not None:
                return h(*a, **k)
            h = WHEN_SYM.get(f)
            if h is not None:
                if deep_sym(a) or (k and deep_sym(k)):
                    return h(*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        fn = f.__func__
        m = getattr(fn, '__module__', None)
        if m and m.startswith('pdfme'):
            core.ENGINE.stats.functions.add(m + '.' + fn.__qualname__)
        return f(*a, **k)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            ts = type(s)
            if ts is str or ts is bytes:
                return str_method(s, f, a, k)
            if ts is dict or isinstance(s, dict):
                e = core.ENGINE
                if (e is not None and e.symkeys) or (a and (type(a[0]) in SYM or (type(a[0]) is tuple and deep_sym(a[0])) or (f.__name__ == 'update' and deep_sym(a, 2)))):
                    if f.__name__ in ('get', 'setdefault', 'pop', 'update', '__getitem__', '__setitem__', '__contains__'):
                        return dict_method(s, f.__name__, a, k)
                return f(*a, **k)
            if ts is list:
                if f.__name__ == 'sort' and deep_sym(s):
                    s[:] = msort(s, **k)
                    return None
                if f.__name__ == 'sort' and k.get('key') is not None:
                    ks = [call(k['key'], x) for x in s]
                    if deep_sym(ks):
                        s[:] = msort(s, **k)
                        return None
                if f.__name__ in ('pop', 'insert', '__getitem__') and a and type(a[0]) is SNum:
                    return f(a[0].__index__(), *a[1:], **k)
                return f(*a, **k)
            if ts is set:
                n = f.__name__
                e = core.ENGINE
                if a and (e.symkeys or deep_sym(a, 3)):
                    if n == 'add':
                        return set_add(s, a[0])
                    if n == 'update':
                        for it in a:
                            for x in it:
                                set_add(s, x)
                        return None
                    if n in ('remove', 'discard'):
                        for y in list(s):
                            if y is a[0] or bool(y == a[0]):
                                return keyed(set.remove, s, y)
                        if n == 'remove':
                            raise KeyError(a[0])
                        return None
                    if n == '__contains__':
                        return member(s, a[0])
                return f(*a, **k)
            if isinstance(s, re.Pattern):
                if any(type(x) in SYM for x in a) or any(type(x) in SYM for x in k.values()):
                    return rx.pattern_method(s, f.__name__, a, k)
                return f(*a, **k)
            if s is int and f.__name__ == 'from_bytes':
                if deep_sym(a):
                    return m_from_bytes(*a, **k)
                return f(*a, **k)
            if s is dict and f.__name__ == 'fromkeys':
                if deep_sym(a):
                    d = {}
                    for x in a[0]:
                        setitem(d, x, a[1] if len(a) > 1 else None)
                    return d
                return f(*a, **k)
            if s is bytes and f.__name__ == 'fromhex' and deep_sym(a):
                return f(*deep_conc(a))
            if ts in (io.BytesIO, io.StringIO) and deep_sym(a):
                return f(*deep_conc(a), **k)
            if ts is type and deep_sym(a):
                # e.g. int.__new__(cls, x)
                if f.__name__ == '__new__':
                    return f(a[0], *[V._fix(x) if type(x) in SYM and not isinstance(x, SSeq) else deep_conc(x) for x in a[1:]], **k)
            return f(*a, **k)
    if a and (f is bytes or f is set or f is frozenset or f is dict or f is bytearray) and type(a[0]) in LAZY:
        a = (list(a[0]), *a[1:])
    try:
        h = ALWAYS.get(f)
        if h is not None:
            return h(*a, **k)
        if f in PROTOCOL:
            return f(*a, **k)
        h = WHEN_SYM.get(f)
    except TypeError:
        h = None
    if h is not None:
        d = DEPTH.get(f, 4)
        for x in a:
            if type(x) in SYM or d and deep_sym(x, d):
                return h(*a, **k)
        for x in k.values():
            if deep_sym(x):
                return h(*a, **k)
        if f is str or f is format:
            # objects whose __str__ yields a symbolic string
            return to_text(*a, **k) if len(a) in (1, 2) and not k and not isinstance(a[0], (str, bytes)) and f is format else m_str(*a, **k) if f is str else f(*a, **k)
        return f(*a, **k)
    if tf is type or isinstance(f, type):
        if f.__module__ in ('builtins', 'fractions', 'decimal', 'io', 'collections') and not issubclass(f, BaseException):
            if deep_sym(a) or deep_sym(k):
                if f.__module__ == 'collections' or f is list:
                    return f(*a, **k)
                eng().stats.note('arguments of %s fixed to one value' % f.__name__)
                return f(*deep_conc(a), **k)
        elif issubclass(f, int) and (deep_sym(a)):
            return f(*[V._fix(x) for x in a], **k)
        return f(*a, **k)
    if tf in (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType):
        if tf is types.MethodDescriptorType and a:
            if isinstance(a[0], (str, bytes)) and (deep_sym(a)):
                o = a[0]
                o = o if type(o) in SYM else (SStr if isinstance(o, str) else SBytes).lift(o)
                return getattr(o, f.__name__)(*a[1:], **k)
            if isinstance(a[0], dict) and f.__name__ in ('get', 'pop', 'setdefault', 'update'):
                return dict_method(a[0], f.__name__, a[1:], k)
        if deep_sym(a) or deep_sym(k):
            if tf is types.BuiltinFunctionType:
                eng().stats.note('arguments of %s fixed to one value' % getattr(f, '__name__', f))
                return f(*deep_conc(a), **deep_conc(k))
    return f(*a, **k)


def str_method(s, f, a, k):
    name = f.__name__
    if name == 'format':
        for x in a:
            if type(x) not in (int, str, float):
                break
        else:
            if not k:
                return f(*a)
        return str_format(s, a, k)
    if name == 'join':
        items = a[0]
        if type(items) in (SStr, SBytes):
            items = list(items)
        if type(items) not in (list, tuple):
            items = list(items)
        for x in items:
            if type(x) in SYM:
                return (SStr if type(s) is str else SBytes).lift(s).join(items)
        return f(items)
    if a or k:
        for x in a:
            if type(x) in SYM or (type(x) is tuple and deep_sym(x)):
                if name in ('zfill', 'ljust', 'rjust', 'center'):
                    return f(*deep_conc(a))
                return getattr((SStr if type(s) is str else SBytes).lift(s), name)(*a, **k)
    return f(*a, **k)


def mod(a, b):
    if isinstance(a, str) and (type(a) is str or type(a) is SStr):
        if type(a) is SStr:
            return a % b
        return str_mod(a, b)
    if type(a) is bytes:
        return bytes_mod(a, b)
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 'r':
                v = repr_text(v) if deep_sym(v) else repr(v)
            elif conv in ('s', 'a'):
                v = to_text(v)
            if type(spec) in SYM:
                spec = spec.concretise()
            out.append(to_text(v, spec))
        else:
            out.append(p)
    return SStr.build(out)
