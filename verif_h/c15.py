"""C15: tables print every cell once."""
from verif_o.draw import draw
from verif_h.tab import table, items_of, conserved, above

PROPERTY = 'C15'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'large tables': 'tables of 10 and 26 rows and 5 columns over up to some dozen pages of symbolic height, with cells of 30 words broken over many of them',
          'tables': 'up to 4 rows and 3 columns of paragraphs of up to 8 words, images, content boxes and nested tables, with row and column spans',
          'pages': 'symbolic page width and height; the table starts at the top of a page or after a text of symbolic size, and text follows it',
          'tiny': 'texts of a symbolic size down to half a point, without cell margins', 'settings': 'column weights and cell margins (symbolic one at a time), border widths'}
PATH_TIMEOUT = 100
TOL = 0.03

SPECS = {
    'two': [[3, 2], [1, 4]],
    'tall': [[8, 1], [2, 3], [1, 1]],
    'single': [[6], [1], [5]],
    'wide': [[2, 5, 1], [4, 1, 3]],
    'image': [[1, 'I'], ['I', 4]],
    'content': [[3, 'C3'], ['C2', 1]],
    'nested': [[2, 'T3'], ['T2', 4]],
    'colspan': [[(6, 1, 2), None, 2], [1, (4, 1, 2), None], [2, 2, 1]],
    'rowspan': [[(5, 2, 1), 2], [None, 3], [1, 1]],
    'rowspan2': [[(9, 2, 1), 2], [None, 1], [1, 1]],
    'rowspan3': [[1, (9, 3, 1)], [2, None], [1, None], [2, 2]],
    'both': [[(8, 2, 2), None, 1], [None, None, 2], [1, 2, 1]],
    'both2': [[1, (3, 2, 2), None], [5, None, None], [(2, 1, 3), None, None]],
    'spanimage': [[('I', 2, 1), 2, 5], [None, 3, 1]],
    'imgspan': [[('I', 1, 2), None], [1, 1]],
    'images': [[1, 'I'], [2, 1], ['I', 1], [1, 'I'], [1, 1]],
    'empty': [[0, 3], [0, 0], [2, 0]],
    'deep': [['T4', 'C4'], ['C5', 'T3']],
    'allspan': [[(6, 2, 1), (3, 2, 1)], [None, None], [1, 1]],
    'onespan': [[(5, 2, 1)], [None], [1]],
    'inspan': [[1, 1], [(6, 2, 2), None], [None, None], [1, 2]],
    'stairs': [[(7, 3, 1), 1], [None, (5, 2, 1)], [None, None], [1, 1]],
    'spans': [[('C4', 2, 1), ('T3', 2, 1)], [None, None], [1, 1]],
}
# the height of a page that holds any of the images
TALL = {'image': 60, 'images': 60, 'spanimage': 60, 'imgspan': 110}


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in SPECS:
        out.append(('height', dict(t=t)))
        out.append(('width', dict(t=t)))
        out.append(('after', dict(t=t)))
        if not q:
            out.append(('both', dict(t=t)))
    out += [('many', dict(rows=n, h=h)) for n, h in (((10, 42), (26, 60)) if q else ((10, 42), (10, 50), (10, 60), (26, 60), (26, 75), (26, 100)))]
    out.append(('none', {}))
    out += [('tiny', dict(t=t)) for t in ('two', 'image', 'content', 'nested', 'rowspan', 'empty')]
    out += [('weights', dict(t=t)) for t in (('wide', 'colspan') if q else ('wide', 'colspan', 'both', 'both2'))]
    out += [('margins', dict(t=t)) for t in (('two', 'nested') if q else SPECS)]
    return out


def verify(cx, pdf, cells, cols, x, w, extra=()):
    doc = draw(cx, pdf)
    items = [i for i in items_of(cx, doc) if i.key not in extra]
    if not extra and items:
        cx.check(items[0].page == 0, 'a table on a fresh page starts on that page')
    per_cell = conserved(cx, items, cells)
    edges = [x]
    for c in cols:
        edges.append(edges[-1] + w * c / sum(cols))
    for cell, its in zip(cells, per_cell):
        for it in its:
            cx.check(cx.And(cx.le(edges[cell.c], it.l, TOL), cx.le(it.r, edges[cell.c + cell.cs], TOL)), 'a cell is printed in its columns')
    for a, xs in zip(cells, per_cell):
        for b, ys in zip(cells, per_cell):
            if a.r + a.rs <= b.r and xs and ys:
                cx.check(above(cx, xs[-1], ys[0]), 'rows are printed from top to bottom')
    return doc


def new(cx, w, h, m=0):
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=m, font_size=10)
    pdf.add_page()
    return pdf


def height(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = 45 * n
    pdf = new(cx, w + 10, cx.real('h', TALL.get(t, 40), 130), 5)
    pdf.table(rows)
    verify(cx, pdf, cells, [1] * n, 5, w)


def width(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = cx.real('w', 28 * n, 80 * n)
    pdf = new(cx, w, 90 if t in TALL else cx.choice('h', [36, 70]))
    pdf.table(rows)
    verify(cx, pdf, cells, [1] * n, 0, w)


def both(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = cx.real('w', 28 * n, 80 * n)
    pdf = new(cx, w, cx.real('h', TALL.get(t, 40), 130))
    pdf.table(rows)
    verify(cx, pdf, cells, [1] * n, 0, w)


def many(cx, rows, h):
    """many rows, columns and pages, with cells broken over several of them"""
    spec = [[1] * 5 for _ in range(rows)]
    spec[1] = [2, 24, 'I', 1, 9]
    spec[3] = [1, (3, 1, 4), None, None, None]
    spec[5][4] = 'T7'
    spec[6] = ['C9', 1, 1, 1, 30]
    spec[-2] = [(2, 1, 5)] + [None] * 4
    spec[-1][2] = 17
    rows, cells = table(cx, spec)
    pdf = new(cx, 250, cx.real('h', h, h + 8))
    pdf.table(rows)
    verify(cx, pdf, cells, [1] * 5, 0, 250)


def after(cx, t):
    """with text before and after"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    pdf = new(cx, 45 * n, cx.choice('h', [60, 75]))
    pdf.text({'.': 'before', 's': 1, 'style': {'s': cx.real('size', 6, 50)}})
    pdf.table(rows)
    pdf.text('after')
    doc = verify(cx, pdf, cells, [1] * n, 0, 45 * n, ('before', 'after'))
    its = items_of(cx, doc)
    cx.check(its[0].key == 'before' and its[-1].key == 'after', 'text before and after a table is drawn')
    for it in its[1:-1]:
        cx.check(above(cx, its[0], it), 'a table is printed below what comes before it')
        cx.check(above(cx, it, its[-1]), 'a table is printed above what follows')


def weights(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    ws = [cx.real('weight', 1, 3)] + [1, 2, 1.5][:n - 1]
    pdf = new(cx, 60 * n, 70)
    pdf.table(rows, widths=ws)
    verify(cx, pdf, cells, ws, 0, 60 * n)


def margins(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    pdf = new(cx, 60 * n, 70)
    pdf.table(rows, style={'cell_margin': cx.real('margin', 0, 12), 'border_width': cx.choice('border', [0, 2])})
    verify(cx, pdf, cells, [1] * n, 0, 60 * n)


def tiny(cx, t):
    """very low rows"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    pdf = new(cx, 40 * n, cx.choice('h', [30, 60]))
    pdf.font_size = cx.real('size', 0.5, 6)
    pdf.table(rows, style={'cell_margin': cx.choice('margin', [0, 0.5]), 'border_width': cx.choice('border', [0, 0.2])})
    verify(cx, pdf, cells, [1] * n, 0, 40 * n)


def none(cx):
    """tables without cells"""
    t = cx.choice('table', [[], [[]], [[], []], ()])
    pdf = new(cx, 100, cx.real('h', 30, 80))
    pdf.text({'.': 'before', 's': 1, 'style': {'s': cx.real('size', 6, 25)}})
    where = cx.choice('where', ['page', 'box', 'cell'])
    if where == 'page':
        pdf.table(t)
    elif where == 'box':
        pdf.content({'content': [{'table': t}]})
    else:
        pdf.table([[{'table': t}, '']], style={'cell_margin': 1})
    pdf.text('after')
    doc = draw(cx, pdf)
    cx.check([it.key for it in items_of(cx, doc)] == ['before', 'after'], 'a table without cells prints nothing')
