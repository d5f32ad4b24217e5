"""C16: the grid of a table."""
from verif_o.draw import draw
from verif_h.tab import table, items_of, conserved
from verif_h.c15 import SPECS as ALL, TALL, new

PROPERTY = 'C16'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'spans': 'a cell over any run of six columns of unequal weights, one of them symbolic, with an aligned paragraph, image, content box or table',
          'span pages': 'the same over 2 to 4 of 5 columns of a table of symbolic width, continued on several pages', 'many': 'tables of 16 (thorough: 30) rows and 4 columns of unequal weights over several pages of symbolic height',
          'rectangles': 'tables continued in a rectangle of another, symbolic width',
          'tables': 'up to 4 rows and 3 columns of paragraphs, images, content boxes and nested tables, with row and column spans; on several pages, of rows of row spans only too, that their cells tile the area',
          'sizes': 'symbolic column weights, table width, page height, cell margins (of the table, of the four sides, of a single cell) and border widths, one to three of them at a time'}
PATH_TIMEOUT = 100
TOL = 0.03

SPECS = {k: v for k, v in ALL.items() if k != 'empty'}
# cells over rows that are as tall as they are
OVER = {'highimage': [[('I', 2, 1), 1], [None, 1], [1, 1]], 'hightext': [[1, (9, 2, 1)], [1, None], [1, 1]],
        'highboth': [[1, (12, 2, 2), None], [1, None, None], [1, 1, 1]]}
SPANS = [k for k, v in SPECS.items() if any(isinstance(c, tuple) and c[1] > 1 for row in v for c in row)]
SIDES = ('left', 'right', 'top', 'bottom')


def configs(tier):
    q = tier == 'quick'
    out = [('spans', dict(kind=k)) for k in (1, 'I', 'C1', 'T1')]
    out += [('spanpages', dict(kind=k)) for k in (25, 'C14', 'T9')]
    out += [('many', dict(rows=n)) for n in ((16,) if q else (16, 30))]
    for t in SPECS:
        out.append(('width', dict(t=t)))
        out.append(('tiles' if t in SPANS else 'pages', dict(t=t)))
        if not q or t in ('tall', 'wide', 'deep', 'images', 'rowspan2', 'stairs'):
            out.append(('resized', dict(t=t)))
        if not q or t in ('wide', 'both', 'rowspan3', 'colspan'):
            out.append(('weights', dict(t=t)))
        if not q or t in ('image', 'rowspan', 'content', 'colspan'):
            out.append(('margins', dict(t=t)))
            out.append(('cell', dict(t=t)))
        if not q or t in ('two', 'both2', 'nested'):
            out.append(('borders', dict(t=t)))
        if not q or t in ('image', 'imgspan', 'colspan', 'rowspan', 'both'):
            out.append(('rules', dict(t=t)))
    out += [('rules', dict(t=t)) for t in OVER]
    out += [('borders', dict(t=t)) for t in OVER]
    return out


def gray(r, c):
    return round(0.05 + 0.007 * (6 * r + c), 3) if r < 2 else round(0.05 + 0.007 * (4 * r + c + 4), 3)


def fills(rows):
    return [{'pos': '%d;%d' % (r, c), 'color': gray(r, c)} for r, row in enumerate(rows) for c, x in enumerate(row) if x is not None]


def verify(cx, pdf, rows, cells, ws, box, margin, border=0.5):
    """box: left, bottom, width, height of the area on every page; margin(cell)
    -> left, right, top, bottom"""
    doc = draw(cx, pdf)
    per_cell = conserved(cx, items_of(cx, doc), cells)
    x, y, w, h = box
    edges = [x]
    for c in ws:
        edges.append(edges[-1] + w * c / sum(ws))
    own = border if callable(border) else None
    if own:
        border = max(v for c in cells for v in own(c))
    for evs in doc.events:
        for e in evs:
            if e.kind == 'line':
                cx.check(cx.And(cx.le(x - border / 2, e.x1, TOL), cx.le(e.x2, x + w + border / 2, TOL)), 'no border lies beside the table')
                cx.check(cx.And(*[cx.And(cx.le(y - border / 2, v, TOL), cx.le(v, y + h + border / 2, TOL)) for v in (e.y1, e.y2)]),
                         'no border lies above or below the area')
    where = {}
    for p, evs in enumerate(doc.events):
        for e in evs:
            if e.kind == 'fill':
                k = [c for c in cells if abs(e.color[1][0] - gray(c.r, c.c)) < 0.003]
                cx.check(len(k) == 1, 'fills have the colors given')
                cx.check((p, k[0].r, k[0].c) not in where, 'a cell is filled once on a page')
                where[p, k[0].r, k[0].c] = e
    for p in range(len(doc.events)):
        top = y + h
        for r in range(len(rows)):
            mine = [c for c in cells if c.r == r and (p, r, c.c) in where]
            for c in mine:
                e = where[p, c.r, c.c]
                cx.check(cx.close(e.y + e.h, top, TOL), 'rows follow each other')
                cx.check(cx.And(cx.close(e.x, edges[c.c], TOL), cx.close(e.x + e.w, edges[c.c + c.cs], TOL)), 'columns are as wide as their weights say')
            ends = [c for c in cells if c.r + c.rs - 1 == r and (p, c.r, c.c) in where]
            if not ends:
                # of cells that span more rows, or not on this page
                cx.check(all(c.rs > 1 for c in mine), 'every row has cells')
                continue
            bottom = where[p, ends[0].r, ends[0].c].y
            for c in ends:
                cx.check(cx.close(where[p, c.r, c.c].y, bottom, TOL), 'the cells of a row end together')
            cx.check(cx.le(bottom, top, TOL), 'rows do not overlap')
            top = bottom
        cx.check(cx.le(y, top, TOL), 'a table stays inside its area')
    # content
    tight = {}
    for c, its in zip(cells, per_cell):
        ml, mr, mt, mb = margin(c)
        for it in its:
            cx.check((it.page, c.r, c.c) in where, 'content is printed on the page of its cell')
            e = where[it.page, c.r, c.c]
            bl, br, bt, bb = [v / 2 for v in (own(c) if own else (border,) * 4)]
            cx.check(cx.And(cx.le(e.x + ml + bl, it.l, TOL), cx.le(it.r, e.x + e.w - mr - br, TOL)),
                     'content leaves the cell margins at the sides free')
            cx.check(cx.And(cx.le(e.y + mb + bb, it.b, TOL), cx.le(it.t, e.y + e.h - mt - bt, TOL)),
                     'content leaves the cell margins above and below free')
            if it is its[-1]:
                low = it.b - mb - bb
                tight.setdefault((it.page, c.r + c.rs - 1), []).append((c, low, e.y))
        if its:
            it = its[0]
            e = where[it.page, c.r, c.c]
            if c.kind != 'table':
                cx.check(e.y + e.h - mt - bt - it.t <= (3 if c.kind != 'image' else TOL), 'content starts at the top of its cell')
            if c.kind == 'image':
                cx.check(cx.And(cx.close(it.l, e.x + ml + bl, TOL), cx.close(it.r, e.x + e.w - mr - br, TOL)), 'an image fills the width of its cell')
            elif c.element.get('style', {}).get('text_align') == 'r':
                if len(its) == 1:
                    cx.check(cx.close(it.r, e.x + e.w - mr - br, TOL), 'content aligned right ends at the right of its cell')
            elif c.kind != 'table':
                cx.check(cx.close(it.l, e.x + ml + bl, TOL), 'content starts at the left of its cell')
    for (p, r), ends in tight.items():
        complete = all((p, c.r, c.c) in where for c in cells if c.r <= r < c.r + c.rs) and len(doc.events) == 1
        if complete and not any(c.kind == 'table' for c in cells if c.r <= r < c.r + c.rs):
            cx.check(cx.Or(*[cx.close(low, b, TOL) for _, low, b in ends]), 'a row is as tall as its tallest cell')




def spans(cx, kind):
    """cells of many columns"""
    n = 6
    first = cx.choice('first', list(range(n)))
    span = cx.choice('span', list(range(1, n - first + 1)))
    row = [1] * first + [(kind, 1, span)] + [None] * (span - 1) + [1] * (n - first - span)
    rows, cells = table(cx, [[1] * n, row])
    target = [c for c in cells if c.r == 1 and c.c == first][0]
    if kind in (1, 'C1'):
        target.element['style'] = {'text_align': 'r'}
    ws = [1, 1.5, 1, 2, 1.2, cx.real('weight', 0.8, 2)]
    pdf = new(cx, 400, 500)
    pdf.table(rows, widths=ws, fills=fills(rows))
    verify(cx, pdf, rows, cells, ws, (0, 0, 400, 500), lambda c: (5, 5, 5, 5))
    if kind == 'T1':
        doc = draw(cx, pdf)
        x = [400 * sum(ws[:i]) / sum(ws) for i in (first, first + span)]
        rules = [e for evs in doc.events for e in evs if e.kind == 'line' and cx.And(e.x1 > x[0] + 1, e.x2 < x[1] - 1)]
        cx.check(len(rules) > 0, 'a table in a cell has borders')
        cx.check(cx.Or(*[cx.And(cx.close(e.x1, x[0] + 2, 0.6), cx.close(e.x2, x[1] - 2, 0.6)) for e in rules]), 'a table in a cell has the width of the cell')


def spanpages(cx, kind):
    """cells of many columns that continue on other pages"""
    n = 5
    first = cx.choice('first', [0, 1])
    span = cx.choice('span', [2, 3, 4])
    row = [1] * first + [(kind, 1, span)] + [None] * (span - 1) + [3] * (n - first - span)
    rows, cells = table(cx, [[1] * n, row, [1] * n])
    target = [c for c in cells if c.r == 1 and c.c == first][0]
    if kind != 'T9':
        target.element['style'] = {'text_align': cx.choice('align', ['l', 'r'])}
    ws = [1, 1.5, 1, 2, 1.2]
    w, h = cx.real('w', 196, 204), cx.choice('h', [50, 66])
    pdf = new(cx, w, h)
    pdf.table(rows, widths=ws, fills=fills(rows))
    verify(cx, pdf, rows, cells, ws, (0, 0, w, h), lambda c: (5, 5, 5, 5))
    # every line of the cell on every page
    doc = draw(cx, pdf)
    edge = [w * sum(ws[:i]) / sum(ws) for i in (first, first + span)]
    its = [i for i in items_of(cx, doc) if i.key in target.keys]
    lines = {}
    for it in its:
        k = [k for k in lines if k[0] == it.page and bool(cx.close(k[1], it.b, 0.02))]
        lines.setdefault(k[0] if k else (it.page, it.b), []).append(it)
    for ws_ in lines.values():
        l, r = ws_[0].l, ws_[-1].r
        if kind == 'T9':
            continue
        if target.element['style']['text_align'] == 'r':
            cx.check(cx.close(r, edge[1] - 5.25, TOL), 'content aligned right ends at the right of its cell', (r, edge[1], [(i.key, i.page, i.l, i.r) for i in its]))
        else:
            cx.check(cx.close(l, edge[0] + 5.25, TOL), 'content starts at the left of its cell')
        if kind == 25 and ws_[-1] is not its[-1]:
            cx.check(r - l >= edge[1] - edge[0] - 10.5 - 20, 'text fills the width of its cell')


def many(cx, rows):
    """many rows over several pages"""
    spec = [[1 + (3 * i + j) % 4 * ((i + j) % 3 == 0) for j in range(4)] for i in range(rows)]
    spec[2] = [1, 7, 'I', 1]
    spec[4] = [(3, 1, 3), None, None, 2]
    spec[7][0] = 'C5'
    spec[9] = [1, (9, 1, 2), None, 1]
    spec[11][2] = 'T4'
    rows, cells = table(cx, spec)
    h = cx.real('h', 100, 108)
    ws = [2, 3, 2.5, 2]
    pdf = new(cx, 254, h + 14, 7)
    pdf.table(rows, widths=ws, fills=fills(rows))
    verify(cx, pdf, rows, cells, ws, (7, 7, 240, h), lambda c: (5, 5, 5, 5))


def width(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = cx.real('w', 30 * n, 80 * n)
    pdf = new(cx, w + 14, 500, 7)
    pdf.table(rows, fills=fills(rows))
    verify(cx, pdf, rows, cells, [1] * n, (7, 7, w, 486), lambda c: (5, 5, 5, 5))


def pages(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = cx.choice('w', [35, 60]) * n
    h = cx.real('h', TALL.get(t, 40) if w < 60 * n else max(50, 1.4 * TALL.get(t, 0)), 190)
    pdf = new(cx, w + 14, h + 14, 7)
    pdf.table(rows, fills=fills(rows))
    verify(cx, pdf, rows, cells, [1] * n, (7, 7, w, h), lambda c: (5, 5, 5, 5))


def tiles(cx, t):
    """on every page the cells, with row spans too, fill a rectangle without
    gaps or overlaps, borders around it, and contain what is printed in them"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = cx.choice('w', [35, 60]) * n
    h = cx.real('h', TALL.get(t, 40) if w < 60 * n else max(50, 1.4 * TALL.get(t, 0)), 190)
    pdf = new(cx, w + 14, h + 14, 7)
    pdf.table(rows, style={'cell_fill': 0.9}, fills=fills(rows))
    pdf.text('end')
    doc = draw(cx, pdf)
    its = items_of(cx, doc)
    per_cell = conserved(cx, [i for i in its if i.key != 'end'], cells)
    edges = [7 + w * i / n for i in range(n + 1)]
    for p, evs in enumerate(doc.events):
        where = {}
        every = []
        for e in evs:
            if e.kind == 'fill':
                every.append(e)
                k = [c for c in cells if abs(e.color[1][0] - gray(c.r, c.c)) < 0.003]
                if k:
                    cx.check(k[0] not in where, 'a cell is filled once on a page')
                    where[k[0]] = e
                else:
                    # where nothing is left of a cell of the page before
                    cx.check(p > 0 and abs(e.color[1][0] - 0.9) < 0.003, 'a cell is filled in its color')
        low = 7 + h
        for c, e in where.items():
            cx.check(cx.And(cx.close(e.x, edges[c.c], TOL), cx.close(e.x + e.w, edges[c.c + c.cs], TOL)), 'columns are as wide as their weights say')
        for e in every:
            cx.check(cx.And(cx.le(7, e.y, TOL), cx.le(e.y + e.h, 7 + h, TOL)), 'a table stays inside its area')
            if e.y < low:
                low = e.y
        area = 0
        for e in every:
            area = area + e.w * e.h
        cx.check(cx.close(area, w * (7 + h - low), TOL * w * n), 'the cells of a page fill the area of the table on it')
        for i, a in enumerate(every):
            for b in every[i + 1:]:
                cx.check(cx.Or(cx.le(a.x + a.w, b.x, TOL), cx.le(b.x + b.w, a.x, TOL), cx.le(a.y + a.h, b.y, TOL), cx.le(b.y + b.h, a.y, TOL)),
                         'cells do not overlap')
        for c, mine in zip(cells, per_cell):
            for it in mine:
                if it.page == p:
                    cx.check(c in where, 'content is printed on the page of its cell')
                    e = where[c]
                    cx.check(cx.And(cx.le(e.x + 5.25, it.l, TOL), cx.le(it.r, e.x + e.w - 5.25, TOL)), 'content leaves the cell margins at the sides free')
                    cx.check(cx.And(cx.le(e.y + 5.25, it.b, TOL), cx.le(it.t, e.y + e.h - 5.25, TOL)), 'content leaves the cell margins above and below free')
        for it in its:
            if it.key == 'end' and it.page == p:
                cx.check(cx.le(it.t, low, TOL), 'what follows a table is below it')
        ls = [e for e in evs if e.kind == 'line' and bool(cx.And(cx.close(e.y1, low, TOL), cx.close(e.y2, low, TOL)))]
        if every:
            cx.check(cx.And(cx.Or(*[cx.close(e.x1, 6.75, TOL) for e in ls]), cx.Or(*[cx.close(e.x2, 7.25 + w, TOL) for e in ls])), 'a line ends the table on every page')
        for e in evs:
            if e.kind == 'line':
                cx.check(cx.And(cx.le(low - 0.25, e.y1, TOL), cx.le(low - 0.25, e.y2, TOL)), 'no border lies below the table')


def resized(cx, t):
    """a table continued in a rectangle of another width"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    w = [60 * n, cx.real('w', 36 * n, 70 * n)]
    h = [cx.choice('h', [48, 70]), 400]
    pdf = cx.mod('pdf').PDF(page_size=(400, 450), margin=0, font_size=10)
    pdf.add_page()
    obj = pdf._table(rows, w[0], h[0], 10, 420, fills=fills(rows), style={'cell_fill': 0.9})
    k = 1
    while not obj.finished:
        cx.check(k < 4, 'a table ends')
        pdf.add_page()
        obj = pdf._table(obj, w[1], h[1], 10, 420)
        k += 1
    doc = draw(cx, pdf)
    its = items_of(cx, doc)
    conserved(cx, its, cells)
    for p, evs in enumerate(doc.events):
        ww = w[0] if p == 0 else w[1]
        for e in evs:
            if e.kind == 'line':
                cx.check(cx.And(cx.le(9.75, e.x1, TOL), cx.le(e.x2, 10.25 + ww, TOL)), 'no border lies beside the table')
        for c in cells:
            for it in its:
                if it.page == p and it.key in c.keys:
                    l, r = 10 + ww * c.c / n, 10 + ww * (c.c + c.cs) / n
                    cx.check(cx.And(cx.le(l + 5.25, it.l, TOL), cx.le(it.r, r - 5.25, TOL)), 'content leaves the cell margins at the sides free')
                    if c.kind == 'image':
                        cx.check(cx.And(cx.close(l + 5.25, it.l, TOL), cx.close(it.r, r - 5.25, TOL)), 'an image fills the width of its cell')


def weights(cx, t):
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    ws = [cx.real('weight', 1, 3)] + [1.5, 2, 1][:n - 1]
    pdf = new(cx, 64 * n, 500)
    pdf.table(rows, widths=ws, fills=fills(rows))
    verify(cx, pdf, rows, cells, ws, (0, 0, 64 * n, 500), lambda c: (5, 5, 5, 5))


def margins(cx, t):
    """margins of all cells"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    m = cx.real('margin', 0, 9)
    one = cx.choice('side', [None] + list(SIDES))
    style = {'cell_margin': m}
    v = m
    if one is not None:
        v = cx.real('one', 0, 12)
        style['cell_margin_' + one] = v
    pdf = new(cx, 60 * n, 500)
    pdf.table(rows, style=style, fills=fills(rows))
    verify(cx, pdf, rows, cells, [1] * n, (0, 0, 60 * n, 500), lambda c: tuple(v if s == one else m for s in SIDES))


def cell(cx, t):
    """margins of one cell"""
    rows, cells = table(cx, SPECS[t])
    n = len(rows[0])
    which = cx.choice('cell', list(range(len(cells))))
    v = cx.real('margin', 0, 14)
    one = cx.choice('side', [None] + list(SIDES))
    target = cells[which]
    target.element['style'] = {'cell_margin' if one is None else 'cell_margin_' + one: v}
    pdf = new(cx, 60 * n, 500)
    pdf.table(rows, fills=fills(rows))
    verify(cx, pdf, rows, cells, [1] * n, (0, 0, 60 * n, 500),
           lambda c: tuple(v if c is target and one in (None, s) else 5 for s in SIDES))


def borders(cx, t):
    """border widths count in the size of the cells"""
    rows, cells = table(cx, (OVER if t in OVER else SPECS)[t])
    n = len(rows[0])
    b = cx.real('border', 0.1, 6)
    pdf = new(cx, 60 * n + 20, 500, 10)
    pdf.table(rows, style={'border_width': b, 'cell_margin': 3}, fills=fills(rows))
    verify(cx, pdf, rows, cells, [1] * n, (10, 10, 60 * n, 480), lambda c: (3, 3, 3, 3), b)


def rules(cx, t):
    """a border of its own width between two columns or rows counts in the
    cells on both of its sides, in all the columns a cell spans"""
    rows, cells = table(cx, (OVER if t in OVER else SPECS)[t])
    n = len(rows[0])
    vert = cx.bool('vertical')
    at = cx.choice('at', list(range((n if vert else len(rows)) + 1)))
    b = cx.real('border', 0, 8)
    pdf = new(cx, 60 * n + 20, 500, 10)
    pdf.table(rows, style={'border_width': 1, 'cell_margin': 3}, fills=fills(rows), borders=[{'pos': 'v;%d' % at if vert else 'h%d' % at, 'width': b}])

    def own(c):
        if vert:
            return (b if c.c == at else 1, b if c.c + c.cs == at else 1, 1, 1)
        return (1, 1, b if c.r == at else 1, b if c.r + c.rs == at else 1)
    verify(cx, pdf, rows, cells, [1] * n, (10, 10, 60 * n, 480), lambda c: (3, 3, 3, 3), own)
