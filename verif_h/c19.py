"""C19: where content boxes place their elements."""
from verif_o.draw import draw
from verif_h.tab import items_of, Maker
from verif_h.box import build, place
from verif_h.c15 import new
from verif_h.c18 import SPECS, WIDTH, MANY

PROPERTY = 'C19'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'boxes': 'content boxes of 1 to 3 columns with up to 7 elements (paragraphs, images, tables, groups), nested up to three levels, over several pages',
          'many': 'boxes with up to 34 elements over many pages, columns inside columns inside boxes; symbolic page height',
          'sizes': 'symbolic page height and width, gap between columns, margins of elements on the four sides (given to the element or inherited), one to three of them at a time'}
PATH_TIMEOUT = 100
TOL = 0.03


def total(t):
    return WIDTH[SPECS[t][0]] + (60 if 'nest' in t or t in ('inner', 'deep', 'last', 'two', 'uneven', 'big') else 0)


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in SPECS:
        if t == 'numbers':
            continue
        out.append(('width', dict(t=t)))
        if not q or t in ('cols2', 'cols3', 'tables', 'group', 'nest', 'nest22'):
            out.append(('height', dict(t=t)))
    out += [('gap', dict(t=t)) for t in (('cols2', 'cols3') if q else ('cols2', 'cols3', 'nest2', 'group', 'image'))]
    out += [('many', dict(t=t)) for t in MANY]
    out += [('margins', dict(cols=c)) for c in (1, 2)]
    out += [('inherited', dict(cols=c)) for c in (1, 2)]
    out += [('wide', dict(cols=c)) for c in (1, 2, 3)]
    out += [('groups', dict(cols=c)) for c in (1, 2)]
    out += [('images', dict(cols=c)) for c in (1, 2)]
    return out


def verify(cx, pdf, leaves, box, left=True):
    """box: the area on every page"""
    x, y, w, h = box
    doc = draw(cx, pdf)
    place(cx, items_of(cx, doc), leaves, x, w)
    for lf in leaves:
        it = lf.it
        rx, rw = lf.region
        ml, mr = lf.style.get('margin_left', 0), lf.style.get('margin_right', 0)
        if lf.kind != 'table':
            cx.check(cx.And(cx.le(rx + ml, it.l, TOL), cx.le(it.r, rx + rw - mr, TOL)), 'elements leave their margins at the sides free', lf.key)
        if left and lf.kind == 'text' and lf is [o for o in leaves if o.owner is lf.owner][0]:
            cx.check(cx.close(it.l, rx + ml, TOL), 'a text starts at the left of its column', lf.key)
        cx.check(cx.And(cx.le(y, it.b, TOL), cx.le(it.t, y + h, TOL)), 'elements lie inside the area of their box', lf.key)
        if lf.kind == 'image':
            cx.check(cx.And(cx.close(it.l, rx + ml, TOL), cx.close(it.r, rx + rw - mr, TOL)), 'an image is as wide as its column', lf.key)
    for evs in doc.events:
        for e in evs:
            if e.kind == 'line':
                for p, q in ((e.x1, e.y1), (e.x2, e.y2)):
                    cx.check(cx.And(cx.le(x - 0.25, p, TOL), cx.le(p, x + w + 0.25, TOL), cx.le(y - 0.25, q, TOL), cx.le(q, y + h + 0.25, TOL)),
                             'borders of tables lie inside the area')
    for i, a in enumerate(leaves):
        for b in leaves[i + 1:]:
            if a.owner is b.owner or a.it.page != b.it.page:
                continue
            k = 0
            while k < min(len(a.boxes), len(b.boxes)) and a.boxes[k] is b.boxes[k]:
                k += 1
            if a.cols[:k] != b.cols[:k]:
                continue
            if len(a.boxes) > k or len(b.boxes) > k:
                # a box and what is beside it in the box around
                hi, lo = (a, b) if bool(a.it.b > b.it.b) else (b, a)
                cx.check(lo.it.t <= hi.it.b + TOL, 'elements do not overlap boxes', (a.key, b.key))
                continue
            # two elements of a box in a column
            hi, lo = (a, b) if bool(a.it.b > b.it.b) else (b, a)
            cx.check(lo.it.t <= hi.it.b + TOL, 'elements do not overlap', (a.key, b.key))
            m = hi.style.get('margin_bottom', 0) + lo.style.get('margin_top', 0)
            cx.check(cx.le(m, hi.it.b - lo.it.t, TOL), 'elements are apart by their margins', (a.key, b.key))
    for a, b in zip(leaves, leaves[1:]):
        # neighbours: not more apart than their margins
        if a.owner is not b.owner and a.it.page == b.it.page and a.boxes[-1] is b.boxes[-1] and a.cols == b.cols \
                and 'table' not in (a.kind, b.kind):
            between = [c for c in leaves if c.it.page == a.it.page and c.owner not in (a.owner, b.owner) and c.cols[:len(a.cols)] == a.cols
                       and bool(cx.And(c.it.t <= a.it.b + TOL, c.it.b >= b.it.t - TOL))]
            if not between:
                m = a.style.get('margin_bottom', 0) + b.style.get('margin_top', 0)
                cx.check(a.it.b - b.it.t - m <= (2 if b.kind == 'text' else TOL), 'elements are not further apart than their margins', (a.key, b.key))
    return doc


def width(cx, t):
    d, leaves = build(Maker(cx), SPECS[t])
    w = cx.real('w', total(t), 2 * total(t))
    pdf = new(cx, w + 12, 92, 6)
    pdf.content(d)
    verify(cx, pdf, leaves, (6, 6, w, 80))


def height(cx, t):
    d, leaves = build(Maker(cx), SPECS[t])
    w = total(t)
    h = cx.real('h', 50, 110)
    pdf = new(cx, w, h, 0)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, h))


def many(cx, t):
    """many elements and pages"""
    d, leaves = build(Maker(cx), MANY[t])
    w = WIDTH[MANY[t][0]] + (0 if t in ('one', 'three') else 100)
    h = cx.real('h', 80, 92)
    pdf = new(cx, w, h, 0)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, h))


def gap(cx, t):
    cols, _, els = SPECS[t]
    g = cx.choice('default', [True, False])
    g = None if g else cx.real('gap', 0, 30)
    d, leaves = build(Maker(cx), (cols, g, els))
    w = 70 * cols if g is not None else cx.choice('w', [110, 160, 300])
    w = max(w, 50 * cols)
    pdf = new(cx, w, 80)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, 80))


def four(cx):
    k = cx.choice('which', ['left', 'right', 'top', 'bottom'])
    return {'margin_' + k: cx.real('margin', 0, 15)}


def margins(cx, cols):
    """margins of one element"""
    els = [2, 1, 3, 1, 2]
    els[2] = (3, dict(four(cx), margin_top=cx.choice('top', [0, 4])))
    d, leaves = build(Maker(cx), (cols, 9, els))
    w = 60 * cols
    pdf = new(cx, w, 75)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, 75))


def inherited(cx, cols):
    """margins of a box hold for its elements"""
    st = four(cx)
    d, leaves = build(Maker(cx), (1, None, [1, ((cols, 9, [2, 1, (1, {'margin_bottom': 1, 'margin_left': 2})]), st), 2]))
    w = 60 * cols
    pdf = new(cx, w, 90)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, 90))


def wide(cx, cols):
    """margins of paragraphs of several lines, in all columns"""
    some = {'margin_' + cx.choice('which', ['left', 'right', 'top', 'bottom']): cx.real('margin', 0, 4)}
    els = [(7, some), (6, dict(some, margin_bottom=3)), 5, (7, {'margin_right': 9, 'margin_left': 4}), 8, (6, {'margin_right': 12})]
    st = cx.choice('around', [{}, {'margin_left': 5}, {'margin_right': 7}])
    d, leaves = build(Maker(cx), (1, None, [((cols, 9, els), st)]))
    for e in d['content'][0]['content']:
        e.setdefault('style', {})['text_align'] = 'r'
    w = 70 * cols
    pdf = new(cx, w, 100)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, 100), False)


def groups(cx, cols):
    """margins of groups and of their elements"""
    own = four(cx)
    k = cx.choice('kind', [2, 'I6', 'T2'])
    els = [1, ([k, 1], own), 2, [1, (2, {'margin_top': 7}), ('I9', {'margin_bottom': 3})], ([1], {'margin_bottom': 2, 'margin_top': 6}), 1]
    d, leaves = build(Maker(cx), (cols, 9, els))
    w = 60 * cols
    h = cx.choice('h', [100, 130])
    pdf = new(cx, w, h)
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, h))


def images(cx, cols):
    """images between paragraphs"""
    d, leaves = build(Maker(cx), (cols, 9, [1, ('I6', dict(four(cx), image_place='normal')), 2, ('I9', {'image_place': 'normal', 'margin_bottom': 2}), 1]))
    w = 60 * cols
    pdf = new(cx, w, cx.choice('h', [70, 100]))
    pdf.content(d)
    verify(cx, pdf, leaves, (0, 0, w, pdf.page_height))
