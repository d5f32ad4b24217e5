"""C18: content boxes print all their elements, in order."""
from verif_o.draw import draw
from verif_h.tab import items_of, Maker
from verif_h.box import build, place, in_order
from verif_h.c15 import new

PROPERTY = 'C18'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'boxes': 'content boxes of 1 to 3 columns with up to 7 elements (paragraphs, numbers, images, tables, groups), nested up to three levels with up to 3 columns each',
          'many': 'boxes with up to 34 elements over many pages, columns inside columns inside boxes; symbolic page height',
          'pages': 'symbolic page width and height; the box starts on a fresh page or after a text of symbolic size'}
PATH_TIMEOUT = 100

SPECS = {
    'flat': (1, None, [3, 2, 1, 4]),
    'numbers': (1, None, [1, 'N', 2, 'N']),
    'cols2': (2, 10, [3, 2, 1, 4, 2]),
    'cols3': (3, 8, [2, 1, 3, 1, 1, 2]),
    'long': (2, 10, [12, 1]),
    'tables': (2, 10, [2, 'T4', 1]),
    'image': (2, 10, [2, 'I9', 3, 'I12', 1]),
    'flow': (2, 10, [2, 'I', 3, 1, 2]),
    'group': (2, 10, [2, [1, 2], 1, [2, 1], 3]),
    'nest': (1, None, [2, (2, 8, [3, 2, 1]), 2]),
    'nest2': (2, 10, [2, (1, None, [3, 1]), 1, (1, None, [2])]),
    'nest22': (2, 10, [1, (2, 6, [2, 2, 1, 2]), 2]),
    'inner': (1, None, [(2, 8, [(2, 6, [2, 1, 2])]), 1]),
    'deep': (1, None, [1, (1, None, [2, (2, 8, [2, 1, 1]), 1]), 2]),
    'last': (2, 10, [1, 2, (2, 6, [2, 1, 1])]),
    'uneven': (1, None, [(2, 8, ['T3', 1]), 1, (2, 8, [(1, {'s': 25}), 1]), 1]),
    'big': (1, None, [(2, 8, [(1, {'s': 25}), 1]), 2, 1]),
    'two': (1, None, [(2, 8, [2, 1, 1]), (3, 8, [1, 1, 1, 1])]),
}


MANY = {
    'one': (1, None, [1 + (3 * i) % 5 for i in range(30)]),
    'three': (3, 8, [1 + (i * i) % 4 for i in range(34)]),
    'mixed': (2, 10, [2, 'T4', (1, None, [2, 1, 3]), 1, (2, 6, [1, 2, 1]), 'N', 3, 'T6', 1, [1, 2], 4, (2, 6, [2, 1]), 'N', 1, 'T2', 9, 2, 2]),
    'stack': (1, None, [(3, 6, [1, 2, 1, 1, 2]), (2, 8, ['T3', 1, 2]), (2, 8, [3, 1, 1]), 2, (3, 6, [1, 1, 1, 1]), 'T3', (2, 8, [2, 2, 4, 1])]),
    'deepest': (1, None, [1, (1, None, [1, (2, 8, [1, (1, None, [1, (2, 6, [1, 1, 1]), 1]), 1]), 1]), 1, (1, None, [(1, None, [(1, None, [2, 1])]), 1]), 1]),
}


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in SPECS:
        out.append(('height', dict(t=t)))
        out.append(('after', dict(t=t)))
        if not q:
            out.append(('width', dict(t=t)))
    out += [('many', dict(t=t)) for t in MANY]
    return out


def verify(cx, pdf, leaves, x, w, extra=()):
    doc = draw(cx, pdf)
    items = [i for i in items_of(cx, doc) if i.key not in extra]
    place(cx, items, leaves, x, w)
    in_order(cx, leaves)
    return doc


WIDTH = {1: 70, 2: 110, 3: 150}


def height(cx, t):
    d, leaves = build(Maker(cx), SPECS[t])
    w = WIDTH[SPECS[t][0]] + (60 if 'nest' in t or t in ('inner', 'deep', 'last', 'two', 'uneven', 'big') else 0)
    pdf = new(cx, w + 10, cx.real('h', 50, 110), 5)
    pdf.content(d)
    verify(cx, pdf, leaves, 5, w)


def width(cx, t):
    d, leaves = build(Maker(cx), SPECS[t])
    w0 = WIDTH[SPECS[t][0]] + (60 if 'nest' in t or t in ('inner', 'deep', 'last', 'two', 'uneven', 'big') else 0)
    w = cx.real('w', w0, 2 * w0)
    pdf = new(cx, w, 80)
    pdf.content(d)
    verify(cx, pdf, leaves, 0, w)


def many(cx, t):
    """many elements and pages"""
    d, leaves = build(Maker(cx), MANY[t])
    w = WIDTH[MANY[t][0]] + (0 if t in ('one', 'three') else 100)
    pdf = new(cx, w + 10, cx.real('h', 90, 104), 5)
    pdf.content(d)
    verify(cx, pdf, leaves, 5, w)


def after(cx, t):
    d, leaves = build(Maker(cx), SPECS[t])
    w = WIDTH[SPECS[t][0]] + (60 if 'nest' in t or t in ('inner', 'deep', 'last', 'two', 'uneven', 'big') else 0)
    pdf = new(cx, w, cx.choice('h', [60, 100]))
    pdf.text({'.': 'before', 'style': {'s': cx.real('size', 6, 50)}})
    pdf.content(d)
    pdf.text('after')
    doc = verify(cx, pdf, leaves, 0, w, ('before', 'after'))
    its = items_of(cx, doc)
    cx.check(its[0].key == 'before' and its[-1].key == 'after', 'text before and after a box is drawn')
    for it in its[1:-1]:
        if it.page == its[0].page:
            cx.check(it.t <= its[0].b + 0.05, 'a box is printed below what comes before it')
        cx.check(it.page <= its[-1].page, 'a box is printed before what follows')
        if it.page == its[-1].page:
            cx.check(its[-1].t <= it.b + 0.05, 'a box is printed above what follows')
