"""C09: lines and filled rectangles."""
from verif_o.content import Interp
from verif_o.pdfread import ReadError

PROPERTY = 'C09'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'drawings': 'every sequence of up to 3 (quick) / 4 (thorough) lines and fills',
          'many': 'sequences of 24 drawings of which one has any kind, position, size and color',
          'values': 'coordinates any real in [-2000, 2000], line widths in [0.01, 50], gray or rgb components in [0, 1]; solid, dashed, dotted'}
PATH_TIMEOUT = 60
KINDS = ['fill', 'solid', 'dashed', 'dotted']


def configs(tier):
    out = [('sequence', dict(kinds=[k])) for k in KINDS]
    out += [('sequence', dict(kinds=[k, None])) for k in KINDS]
    out += [('sequence', dict(kinds=[k, l, None])) for k in KINDS for l in KINDS]
    if tier == 'thorough':
        out += [('sequence', dict(kinds=[k, l, m, None])) for k in KINDS for l in KINDS for m in KINDS]
    out += [('many', {}), ('empty', {}), ('document', {}), ('unknown', {})]
    return out


def color(cx, name, rgb):
    if rgb:
        return [cx.real('%s_%d' % (name, j), 0, 1) for j in range(3)]
    return [cx.real(name, 0, 1)]


def make(cx, i, kind, prev):
    P = cx.mod('color').PDFColor
    co = lambda n: cx.real('%s%d' % (n, i), -2000, 2000)
    # the color is that of the drawing before or one of its own
    if prev is not None and len(prev) > 0 and cx.bool('same%d' % i):
        c = prev
    else:
        c = color(cx, 'c%d' % i, cx.bool('rgb%d' % i) if i < 2 else False)
    if kind == 'fill':
        w, h = cx.real('w%d' % i, 0, 2000), cx.real('h%d' % i, 0, 2000)
        return {'type': 'fill', 'x': co('x'), 'y': co('y'), 'width': w, 'height': h, 'color': P(list(c))}, c
    return {'type': 'line', 'x1': co('x'), 'y1': co('y'), 'x2': co('xx'), 'y2': co('yy'),
            'width': cx.real('lw%d' % i, 0.01, 50), 'color': P(list(c), True), 'style': kind}, c


def judge_event(cx, e, g, c):
    t = 0.002
    if g['type'] == 'fill':
        cx.check(e.kind == 'fill', 'drawings appear in the given order')
        for a, b in ((e.x, g['x']), (e.y, g['y']), (e.w, g['width']), (e.h, g['height'])):
            cx.check(cx.close(a, b, t), 'a filled rectangle has its position and size')
    else:
        cx.check(e.kind == 'line', 'drawings appear in the given order')
        for a, b in ((e.x1, g['x1']), (e.y1, g['y1']), (e.x2, g['x2']), (e.y2, g['y2'])):
            cx.check(cx.close(a, b, t), 'a line has its end points')
        w = g['width']
        cx.check(cx.close(e.width, w, t), 'a line has its width')
        pattern, phase = e.dash
        if g['style'] == 'solid':
            cx.check(len(pattern) == 0, 'a solid line is solid')
        elif g['style'] == 'dashed':
            cx.check(e.cap == 0 and len(pattern) == 2 and cx.And(
                cx.close(pattern[0], 3 * w, t), cx.close(pattern[1], 1.5 * w, t), cx.close(phase, 0, t)),
                'a dashed line is dashed in proportion to its width')
        else:
            cx.check(e.cap == 1 and len(pattern) == 2 and cx.And(
                cx.close(pattern[0], 0, t), cx.close(pattern[1], 2 * w, t), cx.close(phase, 0.5 * w, t)),
                'a dotted line is dotted in proportion to its width')
    kind, vals = e.color
    if len(vals) != len(c):
        vals = vals * 3 if len(vals) == 1 else vals
        c = c * 3 if len(c) == 1 else c
    for a, b in zip(vals, c):
        cx.check(cx.close(a, b, 0.001), 'a drawing has its color')


def sequence(cx, kinds):
    gs, cs, prev = [], [], None
    for i, k in enumerate(kinds):
        g, c = make(cx, i, k or cx.choice('kind%d' % i, KINDS), prev)
        gs.append(g)
        cs.append(c)
        prev = c
    before = cx.choice('before', ['', ' 0.3 g 0.6 0.1 0.2 RG 7 w 1 J [5 1] 2 d']) if len(kinds) < 3 else \
        ' 0.3 g 0.6 0.1 0.2 RG 7 w 1 J [5 1] 2 d'
    probe = ' 1 2 3 4 re f 1 2 m 3 4 l S'
    stream = cx.mod('utils').create_graphics(gs)
    try:
        ev = Interp(cx, cx.units(before + stream + probe)).run()
        ref = Interp(cx, cx.units(before + probe)).run()
    except ReadError as ex:
        cx.fail('the drawing operators cannot be interpreted: %s' % ex)
    cx.check(len(ev) == len(gs) + 2, 'every drawing appears once')
    for e, g, c in zip(ev, gs, cs):
        judge_event(cx, e, g, c)
    for a, b in zip(ev[-2:], ref):
        cx.check(a.color == b.color, 'nothing of a drawing is left behind')
    a, b = ev[-1], ref[-1]
    cx.check(a.width == b.width and a.cap == b.cap and a.dash == b.dash, 'nothing of a drawing is left behind')


def many(cx):
    """long sequences"""
    P = cx.mod('color').PDFColor
    at = cx.choice('at', [2, 9, 17, 23])
    gs, cs = [], []
    for i in range(24):
        if i == at:
            g, c = make(cx, i, cx.choice('kind', KINDS), cs[-1])
        else:
            c = [[0.5], [1, 0, 0.25], [0.5], [0.5], [0]][i % 5]
            kind = KINDS[(i * i + i // 3) % 4]
            if kind == 'fill':
                g = {'type': 'fill', 'x': 3 * i, 'y': 100 - i, 'width': 10, 'height': i, 'color': P(list(c))}
            else:
                g = {'type': 'line', 'x1': i, 'y1': 2 * i, 'x2': 50, 'y2': 60 - i, 'width': 1 + i // 6, 'color': P(list(c), True), 'style': kind}
        gs.append(g)
        cs.append(c)
    try:
        ev = Interp(cx, cx.units(cx.mod('utils').create_graphics(gs))).run()
    except ReadError as ex:
        cx.fail('the drawing operators cannot be interpreted: %s' % ex)
    cx.check(len(ev) == len(gs), 'every drawing appears once')
    for e, g, c in zip(ev, gs, cs):
        judge_event(cx, e, g, c)


def empty(cx):
    cx.check(cx.mod('utils').create_graphics([]) == '', 'no drawings, no operators')


def unknown(cx):
    w = cx.real('w', 0.1, 5)
    style = cx.choice('style', ['wavy', '', None, 'Solid'])
    try:
        cx.mod('utils').create_graphics([{'type': 'line', 'x1': 0, 'y1': 0, 'x2': 1, 'y2': 1, 'width': w,
                                          'color': cx.mod('color').PDFColor(0, True), 'style': style}])
    except Exception as ex:
        if type(ex).__module__.startswith('symx'):
            raise
        cx.check(True, 'refused')
        return
    cx.fail('an unknown line style is refused')


def document(cx):
    """two lists of drawings on one page"""
    from verif_o.draw import draw
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    gs, cs = [], []
    for i in range(2):
        g, c = make(cx, i, cx.choice('kind%d' % i, KINDS), None)
        pdf._add_graphics([g])
        gs.append(g)
        cs.append(c)
    ev = draw(cx, pdf).events[0]
    cx.check(len(ev) == 2, 'every drawing appears once')
    for e, g, c in zip(ev, gs, cs):
        judge_event(cx, e, g, c)
