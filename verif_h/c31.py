"""C31: elements are added at the position of the page and move it."""
import io
from verif_o.draw import draw
from verif_h.tab import items_of, Maker, jpeg

PROPERTY = 'C31'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'elements': 'texts, lists, tables, content boxes of one and two columns with texts, images and tables inside, and images, added with the methods that continue on the next page and with those that are given a place',
          'places': 'symbolic x, y and width, given or not, moves to the bottom, to the right or none, followed by another element',
          'sequences': 'two (quick) / three (thorough) elements and a text after them on pages of symbolic height and margin; 16 elements over many pages of symbolic height'}
PATH_TIMEOUT = 100
TOL = 0.03
KINDS = ['text', 'list', 'table', 'imagetable', 'content', 'imagecontent', 'tablecontent', 'cols', 'image']


def configs(tier):
    q = tier == 'quick'
    out = []
    for k in KINDS:
        for m in ('bottom', 'next', None):
            out.append(('placed', dict(kind=k, move=m)))
    pages = [k for k in KINDS if k != 'image']
    for i, k in enumerate(pages):
        for j in ((1, 4) if q else range(len(pages))):
            out.append(('follow', dict(kinds=(k, pages[(i + j) % len(pages)]))))
    if not q:
        for i, k in enumerate(pages):
            out.append(('follow', dict(kinds=(k, pages[(i + 2) % 8], pages[(i + 5) % 8]))))
    out += [('chain', dict(start=s)) for s in ((0,) if q else (0, 3, 6))]
    out += [('earlier', dict(kind=k)) for k in ('text', 'table', 'content', 'image')]
    out += [('onpage', dict(kinds=(a, 'image', b))) for a, b in (('text', 'table'), ('imagecontent', 'content'), ('image', 'text'), ('imagetable', 'image'))]
    return out


class Thing:
    """an element: what to give to the document, and what it draws"""

    def __init__(self, mk, kind):
        self.kind = kind
        ws = lambda n: self.keys.extend(mk.words(n)) or self.keys[-n:]
        self.keys = []
        self.k = {}
        pic = lambda: self._image(mk)
        if kind in ('text', 'list'):
            self.what = ' '.join(ws(5))
            if kind == 'list':
                self.k = {'list_text': '# '}
        elif kind == 'table':
            self.what = [[ws(1)[0], ws(1)[0]], [' '.join(ws(3)), ws(1)[0]]]
        elif kind == 'imagetable':
            self.what = [[pic(), ws(1)[0]], [ws(1)[0], ws(1)[0]]]
        elif kind == 'content':
            self.what = {'content': [' '.join(ws(4)), ws(1)[0]]}
        elif kind == 'imagecontent':
            self.what = {'content': [ws(1)[0], pic(), ws(1)[0]]}
        elif kind == 'tablecontent':
            self.what = {'content': [ws(1)[0], {'table': [[ws(1)[0], ws(1)[0]], [ws(1)[0], ws(1)[0]]]}]}
        elif kind == 'cols':
            self.what = {'content': [ws(1)[0] for _ in range(4)], 'cols': {'count': 2, 'gap': 6}}
        else:
            self.what = pic()

    def _image(self, mk):
        d, key = mk.image(80, 20)
        d['style'] = {'image_place': 'normal'}
        self.keys.append(key)
        return d

    def add(self, pdf):
        """with the method that takes the margins and continues on the next page"""
        if self.kind in ('text', 'list'):
            pdf.text(self.what, **self.k)
        elif 'content' in self.kind or self.kind == 'cols':
            pdf.content(self.what)
        elif 'table' in self.kind:
            pdf.table(self.what)
        else:
            pdf.image(self.what['image'], 'jpg', self.what['image_name'])

    def put(self, pdf, **k):
        if self.kind in ('text', 'list'):
            k.update(self.k)
            pdf._text(self.what, **k)
        elif 'content' in self.kind or self.kind == 'cols':
            pdf._content(self.what, **k)
        elif 'table' in self.kind:
            pdf._table(self.what, **k)
        else:
            pdf.image(self.what['image'], 'jpg', self.what['image_name'], **k)


class Seen:
    """where an element is drawn: its pages, and its extent on the first and
    the last one; y runs downwards"""

    def __init__(self, cx, doc, items, thing, heights):
        its = [i for i in items if i.key in thing.keys]
        cx.check(sorted(i.key for i in its) == sorted(thing.keys), 'every element is drawn once', thing.kind)
        self.first, self.last = min(i.page for i in its), max(i.page for i in its)
        self.kind = thing.kind
        table = thing.kind in ('table', 'imagetable', 'tablecontent')
        marks = {}
        for p in (self.first, self.last):
            h = heights[p]
            marks[p] = [(i.l, h - i.t, i.r, h - i.b) for i in its if i.page == p]
        self.box = {}
        for p, ms in marks.items():
            l, t, r, b = ms[0]
            for m in ms[1:]:
                l, t, r, b = cx_min(l, m[0]), cx_min(t, m[1]), cx_max(r, m[2]), cx_max(b, m[3])
            if table:
                # the lines of the table around its words
                for e in doc.events[p]:
                    if e.kind == 'line' and near(e, ms, heights[p]):
                        l, r = cx_min(l, e.x1), cx_max(r, e.x2)
                        t, b = cx_min(t, heights[p] - e.y1), cx_max(b, heights[p] - e.y1)
            self.box[p] = (l, t, r, b)

    def inside(self, cx, page, l, t, r, b):
        x = self.box[page]
        # a list marker and line widths hang out
        cx.check(cx.And(cx.le(l, x[0], 0.6), cx.le(t, x[1], 0.6), cx.le(x[2], r, 0.6), cx.le(x[3], b, 0.6)),
                 'elements stay inside the margins', self.kind)


def near(e, ms, h):
    """is the line a border above or below these words"""
    if not bool(e.y1 - e.y2 <= 0.01) or not bool(e.y2 - e.y1 <= 0.01):
        return False
    for l, t, r, b in ms:
        if bool(e.x1 <= r) and bool(e.x2 >= l) and bool(h - e.y1 <= b + 8) and bool(h - e.y1 >= t - 8):
            return True
    return False


def cx_min(a, b):
    return a if bool(a <= b) else b


def cx_max(a, b):
    return a if bool(a >= b) else b


def begins(cx, s, page, y):
    """the first thing an element draws is at the top of it: the first line of
    a text is a little lower, and the words of a table inside it"""
    cx.check(cx.And(cx.le(y, s.box[page][1], 0.6), cx.le(s.box[page][1], y + 3, TOL)), 'an element starts at the position of the page', s.kind)


def placed(cx, kind, move):
    """methods that take a place"""
    mk = Maker(cx)
    a, z = Thing(mk, kind), Thing(mk, 'text')
    margin = cx.choice('margin', [0, 15])
    W, H = 300, 400
    pdf = cx.mod('pdf').PDF(page_size=(W, H), margin=margin, font_size=10)
    own = cx.choice('own margin', [None, 40])
    if own is None:
        pdf.add_page()
    else:
        pdf.add_page(margin=own)
        margin = own
    start = cx.choice('before', [0, 1])
    if start:
        pdf.page.x, pdf.page.y = 31, 47
    x, y, w = pdf.page.x, pdf.page.y, None
    k = {}
    how = cx.choice('given', ['none', 'x', 'y', 'width', 'all'])
    if how in ('x', 'all'):
        k['x'] = x = cx.real('x', 0, 120)
    if how in ('y', 'all'):
        k['y'] = y = cx.real('y', 0, 150)
    if how in ('width', 'all'):
        k['width'] = w = cx.real('w', 110, 170)
    if w is None:
        w = W - margin - x
        if kind == 'image':
            w = W - 2 * margin
    a.put(pdf, move=move, **k)
    X, Y = pdf.page.x, pdf.page.y
    z.put(pdf, width=100, move=None)
    doc = draw(cx, pdf)
    items = items_of(cx, doc)
    s = Seen(cx, doc, items, a, [H])
    e = Seen(cx, doc, items, z, [H])
    l, t, r, b = s.box[0]
    begins(cx, s, 0, y)
    cx.check(cx.le(r, x + w, 0.6), 'an element has the width given, or what is left of the page', kind)
    if kind in ('table', 'imagetable', 'image'):
        cx.check(cx.And(cx.close(l, x, 0.6), cx.close(r, x + w, 0.6)), 'an element fills its width', kind)
    elif kind == 'list':
        cx.check(cx.le(x, l, TOL), 'an element starts at the position of the page', kind)
    else:
        cx.check(cx.close(l, x, 0.6), 'an element starts at the position of the page', kind)
    if move == 'bottom':
        cx.check(cx.close(X, x, TOL), 'the position moves straight down', kind)
        if kind == 'cols':
            cx.check(cx.And(cx.le(b, Y, TOL), cx.le(Y, b + 14, TOL)), 'the position moves to the bottom of the element', kind)
        else:
            cx.check(cx.close(Y, b, 0.3), 'the position moves to the bottom of the element', kind)
    elif move == 'next':
        cx.check(cx.close(Y, y, TOL), 'the position moves to the right', kind)
        cx.check(cx.close(X, x + w, TOL), 'the position moves to the right end of the element', kind)
    else:
        cx.check(cx.And(cx.close(X, x, TOL), cx.close(Y, y, TOL)), 'the position stays where it is', kind)
    begins(cx, e, 0, Y)
    cx.check(cx.close(e.box[0][0], X, TOL), 'an element starts at the position of the page')


def follow(cx, kinds):
    """one element after another, over pages"""
    mk = Maker(cx)
    things = [Thing(mk, k) for k in kinds] + [Thing(mk, 'text')]
    what = cx.choice('vary', ['height', 'margin']) if len(kinds) < 9 else 'height'
    # images in cells of a table need some room
    H = cx.real('h', *((75, 175) if len(kinds) < 9 else (100, 112))) if what == 'height' else 130
    m = cx.real('m', 0, 24) if what == 'margin' else 12
    W = 124
    # top, right, bottom, left
    mt, mr, mb, ml = (m, 10, 12, 19) if what == 'margin' else (14, 10, 9, 16)
    pdf = cx.mod('pdf').PDF(page_size=(W, H), margin=[mt, mr, mb, ml], font_size=10)
    pdf.add_page()
    ys = []
    for t in things:
        t.add(pdf)
        ys.append((len(pdf.pages), pdf.page.y))
    doc = draw(cx, pdf)
    items = items_of(cx, doc)
    hs = [H] * len(doc.pages)
    seen = [Seen(cx, doc, items, t, hs) for t in things]
    begins(cx, seen[0], 0, mt)
    for s in seen:
        for p in s.box:
            s.inside(cx, p, ml, mt, W - mr, H - mb)
    for s, (n, y) in zip(seen, ys):
        cx.check(s.last == n - 1, 'the current page is the one of the last element', s.kind)
        b = s.box[s.last][3]
        cx.check(cx.And(cx.le(b, y, 0.6), cx.le(y, b + (14 if s.kind == 'cols' else 4), TOL)),
                 'the position is at the bottom of the last element', (s.kind, str(s.box), n, str(y)))
    for a, b, (n, y) in zip(seen, seen[1:], ys):
        cx.check(b.first >= a.last, 'elements follow each other', (a.kind, b.kind))
        if b.first == a.last:
            begins(cx, b, b.first, y)
        else:
            cx.check(b.first == a.last + 1, 'no page is left empty', (a.kind, b.kind))
            begins(cx, b, b.first, mt)
            if b.kind in ('text', 'list', 'content'):
                cx.check(cx.le(H - mb, y + 15, 0), 'an element goes to the next page only if it does not fit', (a.kind, b.kind))
    cx.check(len(doc.pages) == seen[-1].last + 1, 'no page is added that is not needed')


def chain(cx, start):
    """many elements"""
    pages = [k for k in KINDS if k != 'image']
    follow(cx, tuple(pages[(3 * i + i // 8 + start) % 8] for i in range(16)))


def onpage(cx, kinds):
    """with images on their own, on a page with room for all"""
    mk = Maker(cx)
    things = [Thing(mk, k) for k in kinds] + [Thing(mk, 'text')]
    W, H = cx.real('w', 130, 200), 500
    m = cx.choice('m', [0, 13])
    pdf = cx.mod('pdf').PDF(page_size=(W, H), margin=m, font_size=10)
    pdf.add_page()
    ys = [m]
    for t in things:
        t.add(pdf)
        ys.append(pdf.page.y)
    doc = draw(cx, pdf)
    items = items_of(cx, doc)
    for t, y, y2 in zip(things, ys, ys[1:]):
        s = Seen(cx, doc, items, t, [H])
        begins(cx, s, 0, y)
        b = s.box[0][3]
        cx.check(cx.And(cx.le(b, y2, 0.6), cx.le(y2, b + 4, TOL)), 'the position is at the bottom of the last element', s.kind)


def earlier(cx, kind):
    """every page has a position of its own"""
    mk = Maker(cx)
    pdf = cx.mod('pdf').PDF(page_size=(200, 300), margin=10, font_size=10)
    things = []
    where = []
    for i in range(3):
        pdf.add_page()
        t = Thing(mk, 'text')
        if i == 1:
            pdf.page.y = cx.real('y', 10, 100)
        t.add(pdf)
        things.append(t)
        where.append(pdf.page.y)
    order = cx.choice('order', [(0, 2), (1, 0), (2, 1), (1, 1)])
    more = []
    for p in order:
        pdf.page_index = p
        t = Thing(mk, kind)
        y = pdf.page.y
        cx.check(cx.close(y, where[p], TOL), 'every page keeps its position')
        t.add(pdf)
        where[p] = pdf.page.y
        more.append((t, p, y))
    doc = draw(cx, pdf)
    items = items_of(cx, doc)
    cx.check(len(doc.pages) == 3, 'no page is added that is not needed')
    for i, t in enumerate(things):
        s = Seen2(cx, doc, items, t)
        cx.check(s == i, 'an element is drawn on the current page')
    for t, p, y in more:
        its = [i for i in items if i.key in t.keys]
        cx.check(sorted(i.key for i in its) == sorted(t.keys) and all(i.page == p for i in its), 'an element is drawn on the current page', kind)
        begins(cx, Seen(cx, doc, items, t, [300] * 3), p, y)


def Seen2(cx, doc, items, t):
    ps = {i.page for i in items if i.key in t.keys}
    cx.check(len(ps) == 1, 'every element is drawn once')
    return ps.pop()
