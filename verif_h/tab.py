"""Tables and content boxes for the layout checks: elements made of words that
occur only once, and where they are drawn."""
import io

from verif_o.para import lines_of
from verif_o.pdfread import ReadError


def jpeg(w, h, n=0):
    """a small JPEG of w x h pixels"""
    return (b'\xff\xd8\xff\xe0\x00\x04' + bytes([n, 0]) + b'\xff\xc0\x00\x11\x08' + bytes([h // 256, h % 256, w // 256, w % 256])
            + b'\x03\x01\x11\x00\x02\x11\x00\x03\x11\x00\xff\xda\x00\x02xx\xff\xd9')


class Item:
    """a word or an image where it is drawn; bottom of a word is its base line"""
    __slots__ = ('page', 'key', 'l', 'r', 'b', 't', 'ev', 'n')

    def __init__(self, page, key, l, r, b, t, ev, n):
        self.page, self.key, self.l, self.r, self.b, self.t, self.ev, self.n = page, key, l, r, b, t, ev, n

    def __repr__(self):
        return '%s@%s' % (self.key, self.page)


def items_of(cx, doc):
    """drawn words and images in drawing order"""
    out = []
    for p, evs in enumerate(doc.events):
        for e in evs:
            if e.kind == 'text':
                word = []
                start = None
                for i, c in enumerate(list(e.codes) + [32]):
                    if c == 32:
                        if word:
                            end = e.adv[i] if i < len(e.adv) else e.w
                            out.append(Item(p, ''.join(chr(x) for x in word), e.x + start, e.x + end, e.y, e.y + e.size, e, len(out)))
                            word = []
                    else:
                        if not word:
                            start = e.adv[i]
                        word.append(c)
            elif e.kind == 'image':
                m = e.m
                cx.check(m[1] == 0 and m[2] == 0, 'images are upright')
                out.append(Item(p, 'I:' + picture(e), m[4], m[4] + m[0], m[5], m[5] + m[3], e, len(out)))
    return out


def picture(e):
    """images are told apart by the number in their data"""
    codes = e.obj.data if hasattr(e.obj, 'data') else None
    d = e.obj.dict
    return '%sx%s' % (d.get('Width'), d.get('Height'))


class Maker:
    """elements with words and images of their own"""

    def __init__(self, cx):
        self.cx = cx
        self.letters = iter([a + b for a in ('', 'q', 'z', 'k', 'w', 'j') for b in 'abcdefghijklmnopqrstuvwxyz'])
        self.pictures = 0

    def words(self, n):
        c = next(self.letters)
        return [c + str(i) for i in range(1, n + 1)]

    def image(self, w=20, h=10):
        self.pictures += 1
        w += self.pictures
        return {'image': io.BytesIO(jpeg(w, h)), 'extension': 'jpg', 'image_name': 'i%d' % self.pictures}, 'I:%dx%d' % (w, h)


class Cell:
    def __init__(self, r, c, rs, cs, keys, element, kind):
        self.r, self.c, self.rs, self.cs, self.keys, self.element, self.kind = r, c, rs, cs, keys, element, kind


def table(cx, spec, rich=None):
    """spec: rows of cells: None (covered by a span), n (a paragraph of n
    words), 'I' (an image), 'Cn' (a content box of n paragraphs of a word),
    'Tn' (a table of n rows of a word), or (cell, rowspan, colspan)"""
    mk = Maker(cx)
    rows = []
    cells = []
    for r, row in enumerate(spec):
        out = []
        for c, cell in enumerate(row):
            rs = cs = 1
            if isinstance(cell, tuple):
                cell, rs, cs = cell
            if cell is None:
                out.append(None)
                continue
            if isinstance(cell, int):
                keys = mk.words(cell)
                el = {'.': ' '.join(keys)}
                kind = 'text'
            elif cell == 'I':
                el, key = mk.image()
                keys = [key]
                kind = 'image'
            elif cell[0] == 'C':
                keys = mk.words(int(cell[1:]))
                el = {'content': list(keys)}
                kind = 'content'
            elif cell[0] == 'T':
                keys = mk.words(int(cell[1:]))
                el = {'table': [[k] for k in keys], 'style': {'cell_margin': 2}}
                kind = 'table'
            if rs > 1:
                el['rowspan'] = rs
            if cs > 1:
                el['colspan'] = cs
            if rich is not None:
                rich(r, c, el)
            out.append(el)
            cells.append(Cell(r, c, rs, cs, keys, el, kind))
        rows.append(out)
    return rows, cells


def conserved(cx, items, cells):
    """every cell's content once and in order; gives the items of every cell"""
    got = {}
    for it in items:
        got.setdefault(it.key, []).append(it)
    known = {k for cell in cells for k in cell.keys}
    cx.check(all(k in known for k in got), 'nothing is drawn that was not given', [k for k in got if k not in known])
    cx.check(all(len(v) == 1 for v in got.values()), 'nothing is drawn twice', [k for k in got if len(got[k]) > 1])
    cx.check(all(k in got for k in known), 'nothing is lost', [k for k in known if k not in got])
    out = []
    for cell in cells:
        its = [got[k][0] for k in cell.keys]
        for a, b in zip(its, its[1:]):
            cx.check(reads_before(cx, a, b), 'the content of a cell is in order')
        out.append(its)
    return out


def reads_before(cx, a, b):
    """b comes after a: on a later page, further down, or to the right"""
    if a.page != b.page:
        return a.page < b.page
    return cx.Or(b.t <= a.b + 0.5, cx.And(cx.close(a.b, b.b, 0.02), b.l >= a.r - 0.02))


def above(cx, a, b):
    """a is on an earlier page or above b"""
    if a.page != b.page:
        return a.page < b.page
    return a.b > b.b
