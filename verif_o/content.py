"""Interpreter of page content streams (ISO 32000-1, clauses 8 and 9): turns the
operators of a page into drawing events in page coordinates."""
import json
import os

from verif_o.type0 import Type0
from verif_o.pdfread import Reader, ReadError, Name, PStr, Stream, Ref, WHITE, DELIM, is_cell

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'metrics.json')) as _f:
    METRICS = json.load(_f)


class ContentError(ReadError):
    pass


class Font:
    """what a page's font resource declares"""

    def __init__(self, base, widths, obj=None):
        self.base = base
        self.widths = widths
        self.obj = obj
        self.family = METRICS[base]['family'] if base in METRICS else None
        self.mode = METRICS[base]['mode'] if base in METRICS else None

    def width(self, cx, code):
        """in thousandths of the font size"""
        return cx.lookup(self.widths, code)


def std_font(base):
    return Font(base, METRICS[base]['widths'])


class Ev:
    """one drawing event"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        return 'Ev(%r)' % (self.__dict__,)


IDENT = (1, 0, 0, 1, 0, 0)


def mul(m, n):
    """m applied first, then n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D,
            e * A + f * C + E, e * B + f * D + F)


class GS:
    def __init__(self):
        self.ctm = IDENT
        self.fill = ('g', [0])
        self.stroke = ('g', [0])
        self.lw = 1
        self.cap = 0
        self.dash = ([], 0)
        self.font = None
        self.size = None
        self.rise = 0
        self.tc = 0
        self.tw = 0
        self.tz = 100
        self.tl = 0
        self.tr = 0

    def copy(self):
        g = GS()
        g.__dict__.update(self.__dict__)
        return g


ARITY = {'q': 0, 'Q': 0, 'cm': 6, 'w': 1, 'J': 1, 'd': 2, 'm': 2, 'l': 2, 'S': 0, 're': 4,
         'f': 0, 'F': 0, 'n': 0, 'h': 0, 'RG': 3, 'rg': 3, 'G': 1, 'g': 1, 'BT': 0, 'ET': 0,
         'Tf': 2, 'Ts': 1, 'Tc': 1, 'Tw': 1, 'Tz': 1, 'TL': 1, 'Tr': 1, 'Td': 2, 'TD': 2,
         'Tm': 6, 'T*': 0, 'Tj': 1, 'TJ': 1, 'Do': 1, 'j': 1, 'M': 1, 'i': 1}


class Interp:
    def __init__(self, cx, units, fonts=None, xobjects=None):
        """fonts: resource name -> Font"""
        self.cx = cx
        self.r = Reader(cx, None, units)
        self.fonts = fonts or {}
        self.xobjects = xobjects
        self.events = []
        self.gs = GS()
        self.stack = []
        self.text = False
        self.tm = self.tlm = IDENT
        self.path = []
        self.cur = None

    def run(self):
        r = self.r
        ops = []
        while True:
            r.ws()
            if r.eof():
                break
            u = r.us[r.i]
            if is_cell(u):
                ops.append(r.number())
                continue
            if self.cx.issym(u):
                raise ContentError('symbolic character outside a string')
            if u in (40, 60, 91, 47) or 48 <= u <= 57 or u in (43, 45, 46):
                ops.append(r.obj_content() if False else self.operand())
                continue
            op = ''
            while r.regular() and not is_cell(r.us[r.i]):
                op += chr(r.us[r.i])
                r.i += 1
            if op == '':
                raise ContentError('unexpected delimiter %r' % chr(u))
            self.op(op, ops)
            ops = []
        if ops:
            raise ContentError('operands without an operator')
        if self.text:
            raise ContentError('text object not closed')
        if self.stack:
            raise ContentError('graphics state not restored')
        if self.path:
            raise ContentError('path not painted')
        return self.events

    def operand(self):
        """one object, where 'R' never makes a reference"""
        r = self.r
        if r.looking('<<'):
            return r.dict()
        if r.at(60):
            return r.hexstr()
        if r.at(40):
            return r.literal()
        if r.at(47):
            return r.name()
        if r.at(91):
            r.i += 1
            out = []
            while True:
                r.ws()
                if r.eof():
                    raise ContentError('unterminated array')
                if r.at(93):
                    r.i += 1
                    return out
                out.append(self.operand())
        return r.number()

    def num(self, x):
        if isinstance(x, (Name, PStr, list, dict)) or not self.cx.isnum(x):
            raise ContentError('number expected')
        return x

    def op(self, op, a):
        if op not in ARITY:
            raise ContentError('unknown operator %r' % op)
        if len(a) != ARITY[op]:
            raise ContentError('operator %s with %d operands' % (op, len(a)))
        g = self.gs
        if op == 'q':
            if self.text:
                raise ContentError('q inside a text object')
            self.stack.append(g.copy())
        elif op == 'Q':
            if self.text:
                raise ContentError('Q inside a text object')
            if not self.stack:
                raise ContentError('Q without q')
            self.gs = self.stack.pop()
        elif op == 'cm':
            if self.text:
                raise ContentError('cm inside a text object')
            for x in a:
                self.num(x)
            g.ctm = mul(tuple(a), g.ctm)
        elif op == 'w':
            g.lw = self.num(a[0])
        elif op == 'J':
            g.cap = self.num(a[0])
        elif op in ('j', 'M', 'i'):
            self.num(a[0])
        elif op == 'd':
            if not isinstance(a[0], list):
                raise ContentError('dash array expected')
            g.dash = ([self.num(x) for x in a[0]], self.num(a[1]))
        elif op in ('RG', 'rg', 'G', 'g'):
            v = [self.num(x) for x in a]
            if op in ('RG', 'G'):
                g.stroke = ('rgb' if op == 'RG' else 'g', v)
            else:
                g.fill = ('rgb' if op == 'rg' else 'g', v)
        elif op == 'm':
            self.notext(op)
            self.cur = self.pt(a[0], a[1])
        elif op == 'l':
            self.notext(op)
            if self.cur is None:
                raise ContentError('l without a current point')
            p = self.pt(a[0], a[1])
            self.path.append(('line', self.cur, p))
            self.cur = p
        elif op == 're':
            self.notext(op)
            for x in a:
                self.num(x)
            self.path.append(('rect', self.pt(a[0], a[1]), self.vec(a[2], a[3])))
        elif op == 'h':
            pass
        elif op == 'n':
            self.path = []
            self.cur = None
        elif op == 'S':
            self.notext(op)
            if not self.path:
                raise ContentError('S without a path')
            for p in self.path:
                if p[0] == 'line':
                    self.events.append(Ev('line', x1=p[1][0], y1=p[1][1], x2=p[2][0], y2=p[2][1],
                                          width=g.lw * g.ctm[0] if g.ctm[0] != 1 else g.lw,
                                          color=g.stroke, cap=g.cap, dash=g.dash))
                else:
                    raise ContentError('stroked rectangle')
            self.path = []
            self.cur = None
        elif op in ('f', 'F'):
            self.notext(op)
            if not self.path:
                raise ContentError('f without a path')
            for p in self.path:
                if p[0] != 'rect':
                    raise ContentError('filled path is no rectangle')
                self.events.append(Ev('fill', x=p[1][0], y=p[1][1], w=p[2][0], h=p[2][1], color=g.fill))
            self.path = []
            self.cur = None
        elif op == 'BT':
            if self.text:
                raise ContentError('nested text object')
            self.text = True
            self.tm = self.tlm = IDENT
        elif op == 'ET':
            if not self.text:
                raise ContentError('ET without BT')
            self.text = False
        elif op == 'Tf':
            if not isinstance(a[0], Name):
                raise ContentError('font name expected')
            g.font = str(a[0])
            g.size = self.num(a[1])
        elif op == 'Ts':
            g.rise = self.num(a[0])
        elif op == 'Tc':
            g.tc = self.num(a[0])
        elif op == 'Tw':
            g.tw = self.num(a[0])
        elif op == 'Tz':
            g.tz = self.num(a[0])
        elif op == 'TL':
            g.tl = self.num(a[0])
        elif op == 'Tr':
            g.tr = self.num(a[0])
        elif op in ('Td', 'TD'):
            self.intext(op)
            if op == 'TD':
                g.tl = -self.num(a[1])
            self.tlm = mul((1, 0, 0, 1, self.num(a[0]), self.num(a[1])), self.tlm)
            self.tm = self.tlm
        elif op == 'T*':
            self.intext(op)
            self.tlm = mul((1, 0, 0, 1, 0, -g.tl), self.tlm)
            self.tm = self.tlm
        elif op == 'Tm':
            self.intext(op)
            for x in a:
                self.num(x)
            self.tm = self.tlm = tuple(a)
        elif op == 'Tj':
            self.intext(op)
            if not isinstance(a[0], PStr):
                raise ContentError('string expected')
            self.show(a[0].codes)
        elif op == 'TJ':
            self.intext(op)
            if not isinstance(a[0], list):
                raise ContentError('array expected')
            for x in a[0]:
                if isinstance(x, PStr):
                    self.show(x.codes)
                else:
                    self.advance(-self.num(x) / 1000 * g.size)
        elif op == 'Do':
            if not isinstance(a[0], Name):
                raise ContentError('name expected')
            if self.text:
                raise ContentError('Do inside a text object')
            name = str(a[0])
            if self.xobjects is not None and name not in self.xobjects:
                raise ContentError('image %s is not a resource of the page' % name)
            self.events.append(Ev('image', name=name, m=g.ctm,
                                  obj=None if self.xobjects is None else self.xobjects[name]))

    def notext(self, op):
        if self.text:
            raise ContentError('%s inside a text object' % op)

    def intext(self, op):
        if not self.text:
            raise ContentError('%s outside a text object' % op)

    def pt(self, x, y):
        a, b, c, d, e, f = self.gs.ctm
        self.num(x)
        self.num(y)
        return (x * a + y * c + e, x * b + y * d + f)

    def vec(self, x, y):
        a, b, c, d, e, f = self.gs.ctm
        return (x * a + y * c, x * b + y * d)

    def advance(self, tx):
        self.tm = mul((1, 0, 0, 1, tx, 0), self.tm)

    def show(self, codes):
        g = self.gs
        if g.font is None:
            raise ContentError('text shown without a font')
        if g.font not in self.fonts:
            raise ContentError('font %s is not a resource of the page' % g.font)
        font = self.fonts[g.font]
        if font.obj == 'type0':
            if len(codes) % 2:
                raise ContentError('odd number of bytes for a two byte font')
            codes = [codes[k] * 256 + codes[k + 1] for k in range(0, len(codes), 2)]
        m = mul(self.tm, g.ctm)
        for c in (m[1], m[2]):
            if c != 0:
                raise ContentError('rotated text')
        w = 0
        adv = []
        if any(is_cell(c) for c in codes):
            codes = self.cx.spelled(codes)
        for c in codes:
            if is_cell(c):
                raise ContentError('number text of unknown length is shown')
            adv.append(w)
            cw = font.width(self.cx, c) * g.size / 1000 + g.tc
            if c == 32 and font.obj != 'type0':
                cw = cw + g.tw
            w = w + cw
        self.events.append(Ev('text', x=m[4], y=m[5], font=font, size=g.size * m[3] if m[3] != 1 else g.size,
                              rise=g.rise, color=g.fill, tw=g.tw, codes=codes, w=w, adv=adv, sx=m[0],
                              mode=g.tr))
        self.advance(w)


def page_fonts(f, page):
    """fonts a page declares"""
    out = {}
    res = f.get(page.get('Resources')) or {}
    fonts = f.get(res.get('Font')) or {}
    cache = f.__dict__.setdefault('fonts_read', {})
    for name, ref in fonts.items():
        d = f.get(ref)
        key = ref.n if isinstance(ref, Ref) else id(d)
        if not isinstance(d, dict) or d.get('Type') != 'Font':
            raise ContentError('font resource is no font')
        base = d.get('BaseFont')
        if d.get('Subtype') == 'Type1':
            if base not in METRICS:
                raise ContentError('unknown standard font')
            enc = f.get(d.get('Encoding'))
            if base in ('Symbol', 'ZapfDingbats'):
                if enc is not None:
                    raise ContentError('%s has an encoding it does not have the characters of' % base)
            elif enc != 'WinAnsiEncoding':
                raise ContentError('%s without the encoding of its text' % base)
            out[str(name)] = Font(str(base), METRICS[str(base)]['widths'])
            out[str(name)].encoding = enc
        else:
            if key not in cache:
                cache[key] = Type0(f, d)
            out[str(name)] = cache[key]
    return out


def page_images(f, page):
    res = f.get(page.get('Resources')) or {}
    xo = f.get(res.get('XObject')) or {}
    out = {}
    for name, ref in xo.items():
        s = f.get(ref)
        if not isinstance(s, Stream) or s.dict.get('Subtype') != 'Image':
            raise ContentError('image resource is no image')
        out[str(name)] = s
    return out


def page_units(f, page):
    c = page.get('Contents')
    c = f.get(c)
    if isinstance(c, Stream):
        return f.stream_data(c)
    if isinstance(c, list):
        out = []
        for x in c:
            out += f.stream_data(f.get(x)) + [32]
        return out
    raise ContentError('page without contents')


def pages_of(f):
    """leaves of the page tree, in order"""
    cat = f.get(f.trailer.get('Root'))
    out = []

    def walk(ref, parent, depth):
        d = f.get(ref)
        if depth > 50:
            raise ReadError('page tree loop')
        if not isinstance(d, dict):
            raise ReadError('page tree node is no dictionary')
        if d.get('Type') == 'Pages':
            for k in f.get(d.get('Kids')):
                walk(k, ref, depth + 1)
        elif d.get('Type') == 'Page':
            out.append(d)
        else:
            raise ReadError('page tree node of unknown type')
    walk(cat.get('Pages'), None, 0)
    return out


def events_of_page(cx, f, page):
    return Interp(cx, page_units(f, page), page_fonts(f, page), page_images(f, page)).run()
