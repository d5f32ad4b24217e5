"""C17: borders, fills and spans of tables."""
from verif_o.draw import draw
from verif_o.para import same_color, color_of
from verif_h.tab import table, items_of, conserved
from verif_h.c15 import new

PROPERTY = 'C17'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'tables': '3 x 3 cells of a word or two, without spans and with 7 arrangements of spans (up to 4 rows and columns), on one page; tables inside content boxes of two columns; filled cells with tables and content boxes inside',
          'large': 'a table of 7 x 7 cells with five spans and four or five rules, of which one has symbolic positions',
          'rules': 'up to 3 border or fill rules on positions written as numbers, lists, slices with steps and negative numbers (16 forms for both directions; slices with symbolic digits), later rules over earlier ones',
          'looks': 'symbolic border widths and colors, all dash styles, no borders, cell fills of the table, of rules and of cells'}
PATH_TIMEOUT = 100
TOL = 0.03

SPANS = {
    'none': [[1, 1, 1], [1, 2, 1], [1, 1, 1]],
    'col': [[(2, 1, 2), None, 1], [1, (1, 1, 2), None], [1, 1, 1]],
    'row': [[1, (1, 2, 1), 1], [1, None, (2, 2, 1)], [1, 1, None]],
    'both': [[1, (2, 2, 2), None], [1, None, None], [1, 1, 1]],
    'all': [[1, 1, 1], [1, (1, 1, 2), None], [1, 1, 1], [(2, 1, 3), None, None]],
    'beside': [[(2, 2, 2), None, 1, 1], [None, None, (1, 1, 2), None], [1, (1, 1, 3), None, None]],
    'stairs': [[(2, 3, 1), 1, 1], [None, (2, 2, 1), 1], [None, None, 1], [1, (1, 1, 2), None]],
    'corner': [[1, 1, 1], [(2, 2, 2), None, 1], [None, None, 1]],
}

POS = ['0', '1', '-1', '-2', '-3,-1', '0,2', '', ':', '1:', ':2', '::2', '1:3', '-2:', ':-1', '2:0:-1', '::-1']


def picks(text, count):
    """the positions a text selects, as a Python list would"""
    text = text.strip() or ':'
    if ':' in text:
        return list(range(count))[slice(*[int(x) if x.strip() else None for x in text.split(':')])]
    return [list(range(count))[int(x)] for x in text.split(',')]


def configs(tier):
    q = tier == 'quick'
    out = []
    for s in SPANS:
        out.append(('plain', dict(s=s)))
        out.append(('rule', dict(s=s, v='h')))
        out.append(('rule', dict(s=s, v='v')))
        out.append(('fill', dict(s=s)))
    for s in (('none', 'both') if q else SPANS):
        out += [('rules', dict(s=s)), ('slices', dict(s=s, what='h')), ('slices', dict(s=s, what='v')), ('slices', dict(s=s, what='f'))]
        out.append(('fills', dict(s=s)))
    out += [('positions', dict(what=w)) for w in 'hvf']
    out.append(('inner', {}))
    out += [('large', dict(what=w)) for w in 'hvf']
    out += [('boxed', dict(s=s)) for s in (('none', 'both') if q else SPANS)]
    return out


DASH = {'solid': [], 'dashed': None, 'dotted': None}


def expected(rows, cells, default, rules):
    """edges -> border"""
    R, C = len(rows), len(rows[0])
    h = {(i, j): default for i in range(R + 1) for j in range(C)}
    v = {(i, j): default for i in range(R) for j in range(C + 1)}
    for kind, (ri, ci), b in rules:
        es, counts = (h, (R + 1, C)) if kind == 'h' else (v, (R, C + 1))
        for i in picks(ri, counts[0]):
            for j in picks(ci, counts[1]):
                es[i, j] = dict(default, **b)
    for c in cells:
        for i in range(c.r, c.r + c.rs):
            for j in range(c.c, c.c + c.cs):
                if i > c.r:
                    h[i, j] = None
                if j > c.c:
                    v[i, j] = None
    return h, v


def like(cx, e, b):
    style = b['style']
    if style == 'solid':
        d = not e.dash[0]
    else:
        d = bool(e.dash[0]) and (e.cap == 1) == (style == 'dotted')
    return d and cx.And(cx.close(e.width, b['width'], 0.002), same_color(cx, e.color, color_of(b['color'])))


def borders(cx, events, xs, ys, h, v):
    """every declared edge is drawn once, with its look, and nothing else"""
    widest = 0
    for b in list(h.values()) + list(v.values()):
        if b is not None and bool(b['width'] > widest):
            widest = b['width']
    left = {('h',) + k: b for k, b in h.items() if b is not None and bool(b['width'] > 0)}
    left.update({('v',) + k: b for k, b in v.items() if b is not None and bool(b['width'] > 0)})
    for e in events:
        if e.kind != 'line':
            continue
        if bool(cx.close(e.y1, e.y2, TOL)):
            at = [i for i, y in enumerate(ys) if bool(cx.close(y, e.y1, TOL))]
            a, b, grid, kind = e.x1, e.x2, xs, 'h'
        else:
            cx.check(cx.close(e.x1, e.x2, TOL), 'borders are level or upright')
            at = [i for i, x in enumerate(xs) if bool(cx.close(x, e.x1, TOL))]
            # from the top
            a, b, grid, kind = -e.y1, -e.y2, [-y for y in ys], 'v'
            if bool(a > b):
                a, b = b, a
        cx.check(len(at) == 1, 'borders lie on the grid')
        first = [k for k, g in enumerate(grid) if bool(cx.And(a <= g + widest / 2 + TOL, a >= g - widest / 2 - TOL))]
        last = [k for k, g in enumerate(grid) if bool(cx.And(b <= g + widest / 2 + TOL, b >= g - widest / 2 - TOL))]
        cx.check(len(first) == 1 and len(last) == 1 and first[0] < last[0], 'borders lead from grid line to grid line')
        for k in range(first[0], last[0]):
            key = (kind, at[0], k) if kind == 'h' else (kind, k, at[0])
            cx.check(key in left, 'a border is drawn that was not declared, or twice', key)
            cx.check(like(cx, e, left[key]), 'a border has its width, color and style', key)
            del left[key]
    cx.check(not left, 'every border is drawn', sorted(left))


def corners(cx, events, xs, ys, h, v, w):
    """borders of one width leave no gap where they meet"""
    lines = [e for e in events if e.kind == 'line']
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            if not (h.get((i, j)) or h.get((i, j - 1))) or not (v.get((i, j)) or v.get((i - 1, j))):
                continue
            for e in lines:
                if bool(cx.close(e.y1, e.y2, TOL)):
                    ok, a, b, m = cx.close(e.y1, y, TOL), e.x1, e.x2, x
                else:
                    ok, a, b, m = cx.close(e.x1, x, TOL), e.y1, e.y2, y
                if not bool(ok):
                    continue
                if bool(a > b):
                    a, b = b, a
                ok = cx.And(cx.le(a, m - w / 2, TOL), cx.le(m + w / 2, b, TOL))
                if bool(ok):
                    break
            else:
                cx.fail('borders that meet leave no gap', (i, j))


GRAYS = [0.5, 0.6, 0.7]


def gray(r, c):
    return round(0.05 + 0.018 * (7 * r + c), 3)


def grid_fills(rows):
    return [{'pos': '%d;%d' % (r, c), 'color': gray(r, c)} for r, row in enumerate(rows) for c, x in enumerate(row) if x is not None]


def row_lines(cx, events, rows, cells, top):
    """the rows, from the fills of all cells"""
    where = {}
    for e in events:
        if e.kind == 'fill':
            k = [c for c in cells if abs(e.color[1][0] - gray(c.r, c.c)) < 0.004]
            cx.check(len(k) == 1 and k[0] not in where, 'every cell is filled once, in its own color')
            where[k[0]] = e
    cx.check(len(where) == len(cells), 'every cell is filled')
    ys = [top]
    for r in range(len(rows)):
        c = [c for c in cells if c.r + c.rs - 1 == r][0]
        ys.append(where[c].y)
    return where, ys


def covers(cx, e, c, xs, ys):
    return cx.And(cx.close(e.x, xs[c.c], TOL), cx.close(e.x + e.w, xs[c.c + c.cs], TOL),
                  cx.close(e.y, ys[c.r + c.rs], TOL), cx.close(e.y + e.h, ys[c.r], TOL))


def columns(rows, x=0):
    n = len(rows[0])
    return [x + 60 * i for i in range(n + 1)]


def verify(cx, pdf, rows, cells, default, rules):
    doc = draw(cx, pdf)
    cx.check(len(doc.pages) == 1, 'the table fits on a page')
    its = conserved(cx, items_of(cx, doc), cells)
    where, ys = row_lines(cx, doc.events[0], rows, cells, 600)
    xs = columns(rows)
    for c in cells:
        cx.check(covers(cx, where[c], c, xs, ys), 'a fill covers its cell')
    for c, ws in zip(cells, its):
        for it in ws:
            e = where[c]
            cx.check(cx.And(e.x <= it.l, it.r <= e.x + e.w, e.y <= it.b, it.t <= e.y + e.h), 'the content of a cell is in the cell')
    h, v = expected(rows, cells, default, rules)
    borders(cx, doc.events[0], xs, ys, h, v)
    if not rules and bool(default['width'] > 0):
        corners(cx, doc.events[0], xs, ys, h, v, default['width'])


def look(cx, n=''):
    """a border of any look"""
    return {'width': cx.real('width' + n, 0.2, 5), 'color': cx.choice('color' + n, [0, 0.5, [1, 0, 0.5]]),
            'style': cx.choice('style' + n, ['solid', 'dashed', 'dotted'])}


def plain(cx, s):
    """borders of the style of the table"""
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    d = look(cx)
    if cx.bool('none'):
        d['width'] = 0
    pdf.table(rows, style={'border_width': d['width'], 'border_color': d['color'], 'border_style': d['style']}, fills=grid_fills(rows))
    verify(cx, pdf, rows, cells, d, [])


DEFAULT = {'width': 0.5, 'color': 0, 'style': 'solid'}


def put(cx, pdf, rows, cells, rules, default=DEFAULT):
    style = {} if default is DEFAULT else {'border_width': default['width']}
    pdf.table(rows, style=style, fills=grid_fills(rows),
              borders=[dict(b, pos=k + ri + ';' + ci) for k, (ri, ci), b in rules])
    verify(cx, pdf, rows, cells, default, rules)


def rule(cx, s, v):
    """one rule that changes some of width, color and style, at any single edge"""
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    n = len(rows) + (v == 'h')
    m = len(rows[0]) + (v == 'v')
    b = cx.choice('what', [{'width': cx.real('width', 0, 4)}, {'color': 0.7}, {'style': 'dotted'}, {'width': 0}])
    put(cx, pdf, rows, cells, [(v, (str(cx.choice('i', list(range(n)))), str(cx.choice('j', list(range(m))))), b)],
        dict(DEFAULT, width=cx.choice('all', [0.5, 0])))


def rules(cx, s):
    """rules over rules"""
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    rs = [('h', ('', ''), {'width': cx.real('w1', 0, 3)}),
          ('v', (cx.choice('p1', ['1:', '0,2']), ':'), {'width': 2, 'style': 'dashed'}),
          (cx.choice('k', ['h', 'v']), (cx.choice('p2', ['1', '-1']), cx.choice('p3', ['::2', '1'])), {'color': [0, 1, 0]})]
    put(cx, pdf, rows, cells, rs)


def positions(cx, what):
    """all ways of writing positions"""
    rows, cells = table(cx, SPANS['none'])
    pdf = new(cx, 60 * len(rows[0]), 600)
    a, b = cx.choice('rows', POS), cx.choice('columns', POS)
    if what == 'f':
        check_fills(cx, pdf, rows, cells, [((a, b), 0.9)])
    else:
        put(cx, pdf, rows, cells, [(what, (a, b), {'width': 2})])


def slices(cx, s, what):
    """slices of any two digits"""
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    a, b = cx.int('from', 0, 4), cx.int('to', -3, 4)
    pos = (str(a) + ':' + str(b), '1')
    if cx.bool('across'):
        pos = ('1', str(a) + ':' + str(b))
    if what == 'f':
        check_fills(cx, pdf, rows, cells, [(pos, 0.9)])
    else:
        put(cx, pdf, rows, cells, [(what, pos, {'width': 2})])


LARGE = [[1, 1, (2, 1, 3), None, None, 1, 1],
         [1, (1, 3, 2), None, 1, 1, 1, 1],
         [1, None, None, 1, (1, 2, 1), 1, 1],
         [1, None, None, 1, None, 1, 1],
         [1, 1, 1, 1, 1, 1, 1],
         [(2, 1, 6), None, None, None, None, None, 1],
         [1, 1, 1, 1, 1, (1, 1, 2), None]]


def large(cx, what):
    """many rows and columns"""
    rows, cells = table(cx, LARGE)
    pdf = new(cx, 60 * len(rows[0]), 600)
    a, b = cx.choice('from', [0, 3, -5]), cx.int('to', -8, 8)
    pos = (str(a) + ':' + str(b), cx.choice('other', ['1,4,6', '2', ':', '5:0:-2']))
    if cx.bool('across'):
        pos = pos[::-1]
    if what == 'f':
        check_fills(cx, pdf, rows, cells, [(('::2', ':'), 0.7), ((':', '4'), 0.3), (pos, 0.9), (('6', '5:'), [1, 0, 1])], (20, [0.5, 0.25, 1]), 0.8)
    else:
        put(cx, pdf, rows, cells, [('h', ('::3', ':'), {'width': 1, 'color': 0.5}), ('v', (':', '1,3,7'), {'style': 'dotted'}),
                                   (what, pos, {'width': 2}), ('h', ('3:5', '4'), {'width': 0}), ('v', ('0', '6'), {'color': [1, 0, 0]})])


def check_fills(cx, pdf, rows, cells, rules, own=None, default=None):
    """fills of the style of the table, of rules and of cells"""
    style = {'border_width': 1}
    if default is not None:
        style['cell_fill'] = default
    want = {}
    for c in cells:
        color = default
        for (ri, ci), v in rules:
            if c.r in picks(ri, len(rows)) and c.c in picks(ci, len(rows[0])):
                color = v
        if own is not None and cells.index(c) == own[0]:
            color = own[1]
            c.element['style'] = {'cell_fill': own[1]}
        if color is not None:
            want[c] = color
    pdf.table(rows, style=style, fills=[{'pos': ri + ';' + ci, 'color': v} for (ri, ci), v in rules])
    doc = draw(cx, pdf)
    cx.check(len(doc.pages) == 1, 'the table fits on a page')
    ys = []
    for e in doc.events[0]:
        if e.kind == 'line' and bool(cx.close(e.y1, e.y2, TOL)):
            if not any(bool(cx.close(e.y1, y, TOL)) for y in ys):
                ys.append(e.y1)
    cx.check(len(ys) == len(rows) + 1, 'every row has its border')
    ys = sorted(ys, key=float, reverse=True)
    xs = columns(rows)
    fs = [e for e in doc.events[0] if e.kind == 'fill']
    for c, color in want.items():
        hit = [e for e in fs if bool(covers(cx, e, c, xs, ys))]
        cx.check(len(hit) == 1, 'a fill covers its cell', (c.r, c.c))
        cx.check(same_color(cx, hit[0].color, color_of(color)), 'a fill has its color', (c.r, c.c))
        fs.remove(hit[0])
    cx.check(not fs, 'no cell is filled that was not to be')


def fill(cx, s):
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    own = (cx.choice('cell', list(range(len(cells)))), cx.choice('color', [[0.5, 0.25, 1], 0, 'black']))
    check_fills(cx, pdf, rows, cells, [], own, cx.choice('default', [None, 0.8, 0]))


def fills(cx, s):
    rows, cells = table(cx, SPANS[s])
    pdf = new(cx, 60 * len(rows[0]), 600)
    rs = [((cx.choice('p1', ['', '1', '::2']), ''), cx.choice('first', [0.9, 0])), ((cx.choice('p2', ['0,2', '-1']), cx.choice('p3', ['1:', '0'])), [1, 1, 0])]
    own = (cx.choice('cell', [0, 2]), [0.5, 0.25, 1]) if cx.bool('own') else None
    check_fills(cx, pdf, rows, cells, rs, own, cx.choice('default', [None, 0.8]))


def inner(cx):
    """the fill and margins of a cell are not those of the elements inside"""
    pdf = new(cx, 200, 300)
    kind = cx.choice('kind', ['table', 'content', 'both'])
    t = {'table': [['aa', 'bb'], ['cc', {'.': 'dd', 'style': {'cell_fill': 0.25}}]]}
    cell = {'table': dict(t), 'content': {'content': ['ee', 'ff']}, 'both': {'content': ['gg', dict(t), 'hh']}}[kind]
    how = cx.choice('how', ['own', 'rule', 'all'])
    color = cx.choice('color', [0.75, [1, 0, 0.5], 0])
    k = {}
    if how == 'own':
        cell['style'] = {'cell_fill': color}
    elif how == 'rule':
        k['fills'] = [{'pos': '0;0', 'color': color}]
    else:
        k['style'] = {'cell_fill': color}
    pdf.table([[cell, 'xx'], ['yy', 'zz']], **k)
    doc = draw(cx, pdf)
    fs = [e for e in doc.events[0] if e.kind == 'fill']
    cx.check(len(fs) == (4 if how == 'all' else 1) + (kind != 'content'), 'a fill is drawn for each cell that has one')
    mine = [e for e in fs if same_color(cx, e.color, color_of(color))]
    cx.check(len(mine) == (4 if how == 'all' else 1), 'a fill has its color')
    own = [e for e in fs if e not in mine]
    for it in items_of(cx, doc):
        if it.key == 'dd':
            cx.check(len(own) == 1 and same_color(cx, own[0].color, color_of(0.25)), 'a fill has its color')
            cx.check(cx.And(own[0].x <= it.l, it.r <= own[0].x + own[0].w, own[0].y <= it.b, it.t <= own[0].y + own[0].h), 'a fill covers its cell')
        if it.key in ('aa', 'cc', 'ee', 'gg'):
            e = mine[0]
            cx.check(cx.And(cx.close(e.x, 0, TOL), cx.close(e.w, 100, TOL), cx.close(e.y + e.h, 300, TOL)), 'a fill covers its cell')
            cx.check(cx.And(e.x <= it.l, it.r <= e.x + e.w, e.y <= it.b, it.t <= e.y + e.h), 'a fill covers its cell')


def boxed(cx, s):
    """a table in a content box: balancing the columns draws nothing twice"""
    rows, cells = table(cx, SPANS[s])
    w = cx.real('w', 330, 420)
    pdf = new(cx, w, cx.choice('h', [300, 400]))
    pdf.content({'content': ['xx', {'table': rows, 'fills': grid_fills(rows), 'borders': [{'pos': 'h1;:', 'width': 2}]}, 'yy', 'zz'],
                 'cols': {'count': 2, 'gap': 10}})
    doc = draw(cx, pdf)
    cx.check(len(doc.pages) == 1, 'the table fits on a page')
    evs = doc.events[0]
    seen = []
    for e in evs:
        if e.kind == 'fill':
            c = [c for c in cells if abs(e.color[1][0] - gray(c.r, c.c)) < 0.004]
            cx.check(len(c) == 1, 'no fill is drawn that was not declared')
            cx.check(not any(bool(cx.And(cx.close(e.x, o.x, TOL), cx.close(e.y, o.y, TOL))) for o in seen), 'a fill is drawn once')
            if seen and bool(cx.close(e.x, seen[0].x, TOL)):
                pass
            seen.append(e)
    cx.check(len(seen) <= len(cells) + 3, 'a fill is drawn once')
    for it in items_of(cx, doc):
        if it.key in ('xx', 'yy', 'zz'):
            continue
        c = [c for c in cells if it.key in c.keys][0]
        cx.check(any(abs(e.color[1][0] - gray(c.r, c.c)) < 0.004
                     and bool(cx.And(e.x <= it.l, it.r <= e.x + e.w, e.y <= it.b, it.t <= e.y + e.h)) for e in seen),
                 'the content of a cell is in the cell')
    lines = []
    for e in evs:
        if e.kind == 'line':
            for o in lines:
                cx.check(cx.Not(cx.And(*[cx.close(getattr(e, k), getattr(o, k), TOL) for k in ('x1', 'y1', 'x2', 'y2')])), 'a border is drawn once')
            lines.append(e)
