"""C29: saved layout positions."""
from verif_h.box import build
from verif_h.c15 import SPECS as TABLES, TALL
from verif_h.c18 import SPECS as BOXES, WIDTH, MANY
from verif_h.par import TEXTS, content, longer
from verif_h.tab import Maker, table
from verif_o.draw import draw, same_events

PROPERTY = 'C29'
BUDGET = {'quick': 250, 'thorough': 900}
BOUNDS = {'objects': 'paragraphs (all alignments, lists, indents, styles, footnote-like variables), tables with spans, images, nested tables and boxes, content boxes with columns, groups, tables and images',
          'long': 'paragraphs of 60 words, tables of 12 rows, content boxes of up to 34 elements; positions saved after the third or fifth rectangle (thorough: second to fifth)',
          'histories': 'a position saved at the start or after the first or second rectangle; then an attempt in one more rectangle of symbolic size that is taken back, and (when it continues) another one in a rectangle of given size, in the same or (paragraphs and tables) in a new object',
          'sizes': 'rectangles of symbolic heights, one of them of symbolic width'}
PATH_TIMEOUT = 100

PARS = [dict(), dict(text_align='j', indent=12), dict(text_align='r', indent=9), dict(text_align='c'),
        dict(list_text='1.', list_style={'b': True}), dict(list_text='- ', list_indent=14, indent=6, text_align='j'),
        dict(list_text='*', list_style={'s': 14, 'f': 'Symbol'})]


def configs(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(PARS)):
        for t in ('mixed', 'joined', 'breaks', 'spaced') if not q else (('mixed', 'breaks') if i in (0, 5) else ('joined',)):
            for k in (0, 1, 2):
                out.append(('text', dict(t=t, p=i, k=k)))
    for t in TABLES:
        for k in (0, 1):
            if t != 'empty' and (not q or k or t in ('two', 'rowspan3', 'content', 'nested', 'spanimage')):
                out.append(('tables', dict(t=t, k=k, deep=not q)))
    for t in BOXES:
        for k in (0, 1):
            if not q or k or t in ('cols2', 'flow', 'group', 'nest', 'nest22', 'tables'):
                out.append(('boxes', dict(t=t, k=k, deep=not q)))
    for k in ((3, 5) if q else (2, 3, 4, 5)):
        out += [('long', dict(p=p, k=k)) for p in ((0, 5) if q else range(len(PARS)))]
        out.append(('bigtable', dict(k=k)))
        out += [('bigbox', dict(t=t, k=k)) for t in (MANY if not q else ('mixed', 'stack', 'deepest') if k == 3 else ('one', 'three', 'stack'))]
    return out


class Layout:
    """an object laid out in one rectangle a page"""

    def __init__(self, cx, kind, make):
        self.cx, self.kind = cx, kind
        self.pdf = cx.mod('pdf').PDF(page_size=(400, 600), margin=0, font_size=10)
        self.make = lambda: make(self.pdf)
        self.obj = self.make()

    def draw(self, rect, save=False):
        """lays out and draws; gives the position reached"""
        self.pdf.add_page()
        add = {'text': self.pdf._text, 'table': self.pdf._table, 'content': self.pdf._content}[self.kind]
        add(self.obj, rect[0], rect[1], 10, 10)
        return self.obj.get_state() if save else None

    def attempt(self, rect, state, fresh=False):
        """lays out, but takes it back"""
        self.obj.run(10, 590, rect[0], rect[1])
        self.obj.get_state()
        if fresh:
            self.obj = self.make()
        self.obj.set_state(**state)
        self.obj.finished = False

    def rest(self, rects, save=False):
        for r in rects:
            if self.obj.finished:
                return
            self.draw(r, save)
        self.cx.check(self.obj.finished, 'the layout ends')


START = {'text': {'last_part': 0, 'last_word': 0}, 'table': {'current_index': 0, 'delayed': {}},
         'content': {'section_element_index': 0, 'section_delayed': [], 'children_memory': []}}


def compare(cx, kind, make, rects, k, trials, can_fresh):
    a = Layout(cx, kind, make)
    a.rest(rects)
    fresh = cx.bool('fresh') if can_fresh else False
    b = Layout(cx, kind, make)
    state = b.obj.get_state() if kind != 'content' else dict(START['content'])
    for r in rects[:k]:
        if b.obj.finished:
            return
        state = b.draw(r, True)
    if b.obj.finished:
        return
    for i, t in enumerate(trials):
        b.attempt(t, state, fresh and i == len(trials) - 1)
    b.rest(rects[k:], True)
    x, y = draw(cx, a.pdf), draw(cx, b.pdf)
    cx.check(len(x.pages) == len(y.pages), 'the restored layout takes the same rectangles')
    for e, f in zip(x.events, y.events):
        same_events(cx, e, f, 'a layout goes on from a saved position as it would have gone on')


def text(cx, t, p, k):
    kw = PARS[p]

    def make(pdf):
        return cx.mod('text').PDFText(content(TEXTS[t]), 50, 20, 10, 590, fonts=pdf.fonts, pdf=pdf, **kw)
    rects = [(80, cx.real('h1', 0, 40)), (60, cx.real('h2', 0, 40)), (70, 500)]
    trials = [(cx.real('w', 50, 120), cx.choice('ht', [0, 12, 26, 200]))]
    if k == 1 and cx.bool('twice'):
        trials.append((60, 14))
    compare(cx, 'text', make, rects, k, trials, 'list_text' not in kw)


def tables(cx, t, k, deep):
    n = len(TABLES[t][0])

    def make(pdf):
        rows, _ = table(cx, TABLES[t])
        return cx.mod('table').PDFTable(rows, pdf.fonts, 10, 590, 10, 10, style={'s': 10, 'f': 'Helvetica'}, pdf=pdf)
    w = 45 * n
    h = TALL.get(t, 40)
    if k == 0:
        rects = [(w, cx.real('h1', 0, h + 30)), (w, h + 30), (w, 500)]
        trials = [(w, cx.choice('ht', [8, 40, 75, 300]))]
    else:
        rects = [(w, cx.real('h1', 10, 110) if deep else cx.choice('h1', [14, 37, 66])), (w, h + 25), (w, 500), (w, 500)]
        trials = [(w, cx.real('ht', 0, 180))]
    if k or cx.choice('wide', [False, True] if deep else [False]):
        trials.append((w * cx.choice('again', [1, 1.5] if deep else [1]), 70))
    compare(cx, 'table', make, rects, k, trials, True)


def boxes(cx, t, k, deep):
    w = WIDTH[BOXES[t][0]] + (60 if 'nest' in t or t in ('inner', 'deep', 'last', 'two', 'uneven', 'big') else 0)

    def make(pdf):
        d, _ = build(Maker(cx), BOXES[t])
        d['style'] = dict(d.get('style') or {}, s=10, f='Helvetica')
        return cx.mod('content').PDFContent(d, pdf.fonts, 10, 590, 10, 10, pdf)
    if k == 0:
        rects = [(w, cx.real('h1', 0, 60)), (w, 500), (w, 500)]
        trials = [(w, cx.choice('ht', [8, 40, 75, 300]))]
    else:
        rects = [(w, cx.real('h1', 10, 90) if deep else cx.choice('h1', [18, 44])), (w, 55), (w, 500), (w, 500)]
        trials = [(w, cx.real('ht', 0, 120))]
    if k or cx.choice('wide', [False, True] if deep else [False]):
        trials.append((w * cx.choice('again', [1, 1.4] if deep else [1]), 50))
    compare(cx, 'content', make, rects, k, trials, False)


def long(cx, p, k):
    """positions late in a long paragraph"""
    kw = PARS[p]

    def make(pdf):
        return cx.mod('text').PDFText(content(longer(60)), 50, 20, 10, 590, fonts=pdf.fonts, pdf=pdf, **kw)
    rects = [(80 + 10 * (i % 3), 40 + 7 * (i % 4)) for i in range(k)] + [(70, 45), (100, 60), (100, 560)]
    trials = [(cx.real('w', 70, 120), 70), (90, cx.choice('ht', [0, 14, 200]))]
    compare(cx, 'text', make, rects, k, trials, 'list_text' not in kw)


def bigtable(cx, k):
    spec = [[1 + (3 * i + j) % 4 * ((i + j) % 3 == 0) for j in range(4)] for i in range(12)]
    spec[2] = [1, (7, 2, 1), 'I', 1]
    spec[3][1] = None
    spec[4] = [(3, 1, 3), None, None, 9]
    spec[6][0] = 'C5'
    spec[8] = [1, (9, 2, 2), None, 1]
    spec[9][1] = spec[9][2] = None
    spec[10][2] = 'T4'

    def make(pdf):
        rows, _ = table(cx, spec)
        return cx.mod('table').PDFTable(rows, pdf.fonts, 10, 590, 10, 10, style={'s': 10, 'f': 'Helvetica'}, pdf=pdf)
    rects = [(200, 62 + 9 * (i % 4)) for i in range(k)] + [(200, 70), (200, 90), (200, 500), (200, 500)]
    compare(cx, 'table', make, rects, k, [(200, cx.real('ht', 0, 140)), (200, 75)], True)


def bigbox(cx, t, k):
    w = WIDTH[MANY[t][0]] + (0 if t in ('one', 'three') else 100)

    def make(pdf):
        d, _ = build(Maker(cx), MANY[t])
        d['style'] = dict(d.get('style') or {}, s=10, f='Helvetica')
        return cx.mod('content').PDFContent(d, pdf.fonts, 10, 590, 10, 10, pdf)
    rects = [(w, 28 + 7 * (i % 3)) for i in range(k)] + [(w, 60), (w, 90), (w, 500), (w, 500)]
    compare(cx, 'content', make, rects, k, [(w, cx.real('ht', 0, 120)), (w, 50)], False)
