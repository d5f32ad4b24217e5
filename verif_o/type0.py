"""What a document declares about an embedded (composite) font: ISO 32000-1,
clauses 9.7 and 9.10."""
from verif_o.pdfread import Reader, ReadError, Name, PStr, Stream, Ref, is_cell


def stream_of(f, x, what):
    s = f.get(x)
    if not isinstance(s, Stream):
        raise ReadError('%s is no stream' % what)
    return f.stream_data(s)


def number(cx, codes):
    v = 0
    for c in codes:
        v = v * 256 + c
    return v


class Type0:
    """stands for the font in the events of a page"""
    obj = 'type0'
    family = mode = None

    def __init__(self, f, d):
        self.cx = cx = f.cx
        self.dict = d
        if not isinstance(d.get('BaseFont'), Name):
            raise ReadError('font without a name')
        self.base = str(d['BaseFont'])
        if d.get('Subtype') != 'Type0':
            raise ReadError('font of unknown type')
        if f.get(d.get('Encoding')) != 'Identity-H':
            raise ReadError('codes are no glyph selectors')
        desc = f.get(d.get('DescendantFonts'))
        if not isinstance(desc, list) or len(desc) != 1:
            raise ReadError('a composite font has one descendant')
        c = self.cid = f.get(desc[0])
        if not isinstance(c, dict) or c.get('Type') != 'Font' or c.get('Subtype') != 'CIDFontType2':
            raise ReadError('descendant is no TrueType font')
        if f.get(c.get('CIDToGIDMap')) not in (None, 'Identity'):
            raise ReadError('glyphs are selected in another way')
        info = f.get(c.get('CIDSystemInfo'))
        if not isinstance(info, dict):
            raise ReadError('font without its collection')
        self.info = [f.get(info.get(k)) for k in ('Registry', 'Ordering', 'Supplement')]
        self.info = [cx.text_of(x.codes) if isinstance(x, PStr) else x for x in self.info]
        self.descriptor = f.get(c.get('FontDescriptor'))
        if not isinstance(self.descriptor, dict) or self.descriptor.get('Type') != 'FontDescriptor':
            raise ReadError('font without a descriptor')
        self.names = [str(x.get(k)) for x, k in ((d, 'BaseFont'), (c, 'BaseFont'), (self.descriptor, 'FontName'))]
        prog = f.get(self.descriptor.get('FontFile2'))
        self.program = stream_of(f, prog, 'the font program')
        self.length = f.get(prog.dict.get('Length1'))
        self.dw = f.get(c.get('DW')) if 'DW' in c else 1000
        self.w = self.read_w(f, f.get(c.get('W')) or [])
        self.unicode = None
        if 'ToUnicode' in d:
            self.unicode = read_cmap(cx, stream_of(f, d['ToUnicode'], 'the Unicode mapping'))

    def read_w(self, f, a):
        """[(code, width)], and ranges as (first, last, width)"""
        out = []
        i = 0
        while i < len(a):
            if i + 1 >= len(a):
                raise ReadError('widths end early')
            first, nxt = f.get(a[i]), f.get(a[i + 1])
            if isinstance(first, (list, PStr, Name)):
                raise ReadError('a code is expected')
            if isinstance(nxt, list):
                for k, w in enumerate(nxt):
                    out.append((first + k, first + k, f.get(w)))
                i += 2
            else:
                if i + 2 >= len(a) or isinstance(f.get(a[i + 2]), list):
                    raise ReadError('a width is expected')
                out.append((first, nxt, f.get(a[i + 2])))
                i += 3
        return out

    def declared(self, code, width, tol=0.01):
        """condition: the width declared for the code is that one"""
        cx = self.cx
        hits = [cx.And(lo <= code, code <= hi) for lo, hi, w in self.w]
        ok = [cx.Implies(h, cx.close(w, width, tol)) for h, (lo, hi, w) in zip(hits, self.w)]
        return cx.And(*(ok + [cx.Or(cx.close(self.dw, width, tol), *hits)]))

    def width(self, cx, code):
        """of a shown code (forks)"""
        for lo, hi, w in self.w:
            if bool(lo <= code) and bool(code <= hi):
                return w
        return self.dw

    def texts(self, code):
        """[(condition, code points)] the mapping gives for a code"""
        return [(src == code, dst) for src, dst in self.unicode]

    def decode(self, code):
        """the character a code stands for; None if there is none (forks)"""
        for src, dst in self.unicode or []:
            if bool(src == code):
                return dst[0] if len(dst) == 1 else None
        return None


def utf16(units):
    """16 bit units -> code points (surrogates are concrete)"""
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        if bool(u >= 0xd800) and bool(u < 0xdc00):
            if i + 1 >= len(units) or not (bool(units[i + 1] >= 0xdc00) and bool(units[i + 1] < 0xe000)):
                raise ReadError('half a surrogate pair')
            out.append(0x10000 + (u - 0xd800) * 1024 + units[i + 1] - 0xdc00)
            i += 2
        else:
            out.append(u)
            i += 1
    return out


def read_cmap(cx, units):
    """[(code, code points)] of a ToUnicode CMap"""
    r = Reader(cx, None, units)
    ops, out = [], []
    spaces = 0
    while True:
        r.ws()
        if r.eof():
            break
        u = r.us[r.i]
        if is_cell(u):
            ops.append(r.number())
        elif cx.issym(u):
            raise ReadError('symbolic character in a mapping')
        elif u == 60 and not r.looking('<<'):
            ops.append(r.hexstr())
        elif u == 60 or u == 62:
            if not (r.looking('<<') or r.looking('>>')):
                raise ReadError('unbalanced string')
            r.i += 2
        elif u == 40:
            ops.append(r.literal())
        elif u == 47:
            ops.append(r.name())
        elif u == 91:
            r.i += 1
            ops.append('[')
        elif u == 93:
            r.i += 1
            k = len(ops) - 1 - ops[::-1].index('[')
            ops[k:] = [ops[k + 1:]]
        elif 48 <= u <= 57 or u in (43, 45, 46):
            ops.append(r.number())
        else:
            op = ''
            while r.regular() and not is_cell(r.us[r.i]):
                op += chr(r.us[r.i])
                r.i += 1
            if op == '':
                raise ReadError('unexpected delimiter')
            if op.startswith('begin') and op not in ('begin', 'begincmap'):
                n = ops[-1]
                if n > 100:
                    raise ReadError('more than 100 entries in a block')
                ops = [n]
            elif op == 'endcodespacerange':
                if ops[0] * 2 != len(ops) - 1:
                    raise ReadError('wrong number of code space ranges')
                spaces += 1
                for x in ops[1:]:
                    if len(x.codes) != 2:
                        raise ReadError('codes have two bytes')
            elif op == 'endbfchar':
                if ops[0] * 2 != len(ops) - 1:
                    raise ReadError('wrong number of entries in a block')
                for k in range(1, len(ops), 2):
                    if len(ops[k].codes) != 2 or len(ops[k + 1].codes) % 2:
                        raise ReadError('codes have two bytes')
                    out.append((number(cx, ops[k].codes), dest(cx, ops[k + 1])))
            elif op == 'endbfrange':
                if ops[0] * 3 != len(ops) - 1:
                    raise ReadError('wrong number of entries in a block')
                for k in range(1, len(ops), 3):
                    out += bfrange(cx, *ops[k:k + 3])
            if not op.startswith('begin') or op in ('begin', 'begincmap'):
                ops = []
    if not spaces:
        raise ReadError('mapping without code space')
    return out


def dest(cx, s):
    c = s.codes
    return utf16([c[k] * 256 + c[k + 1] for k in range(0, len(c), 2)])


def bfrange(cx, lo, hi, to):
    a, b = number(cx, lo.codes), number(cx, hi.codes)
    n = int(b - a) if not cx.issym(b - a) else int(cx.concrete(b - a))
    out = []
    for k in range(n + 1):
        if isinstance(to, list):
            out.append((a + k, dest(cx, to[k])))
        else:
            d = dest(cx, to)
            out.append((a + k, d[:-1] + [d[-1] + k]))
    return out
