"""C12: paragraphs stay in their rectangle."""
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens
from verif_h.par import TEXTS, DEFAULTS, paragraph, lines, max_size, longer, content

PROPERTY = 'C12'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '100 (thorough: 400) words in fragments of all kinds, the first rectangle of symbolic width, over dozens of others',
          'texts': '8 paragraphs of up to 6 words in up to 6 fragments; two words of one symbolic character of printable ASCII (thorough: two small letters); symbolic font sizes',
          'rectangles': 'symbolic width 15..120, height 5..90 and position, followed by a second rectangle',
          'pages': 'texts that continue on pages of another (symbolic) size or with other (symbolic) margins', 'settings': 'symbolic rises -1..3, all four alignments, symbolic indent 0..10 and line height 1..3, list markers with symbolic list indent and with a style of their own'}
PATH_TIMEOUT = 100
TOL = 0.02
ALPHA = {1: [(33, 126)], 2: [(97, 122)]}


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in TEXTS:
        for a in 'lrcj':
            if not q or t in ('mixed', 'joined') or (a in 'lj' and t != 'one'):
                out.append(('width', dict(t=t, align=a)))
        out.append(('height', dict(t=t)))
    out += [('long', dict(n=n, align=a)) for n in ((100,) if q else (100, 400)) for a in 'lrcj']
    out += [('letters', dict(align=a, k=k)) for a in ('lj' if q else 'lrcj') for k in ((1,) if q else (1, 2))]
    out += [('sizes', dict(align=a)) for a in ('lr' if q else 'lrcj')]
    out += [('listed', dict(align=a)) for a in 'lrcj']
    out += [('raised', dict(align=a)) for a in ('l' if q else 'lrcj')]
    out += [('pages', dict(what=w)) for w in ('size', 'margin')]
    return out


def verify(cx, ls, x, y, w, h, lh, toks, indent=0, marker=None, left=0, pos=0):
    pos = match(cx, ls, toks, pos, partial=True)
    prev = None
    for i, ln in enumerate(ls):
        above = y if prev is None else prev
        for e in {id(c.ev): c.ev for c in ln.visible()}.values():
            if bool(e.rise > 0):
                cx.check(cx.le(ln.y + e.rise + e.size, above, TOL), 'raised text stays below the line before and the top of the rectangle')
        vis = ln.visible()
        if marker is not None and i == 0:
            vis = vis[marker:]
        alone = not any(c.code == 32 for c in vis)
        l, r = vis[0].x, vis[-1].x + vis[-1].w
        if not alone:
            cx.check(cx.le(x + left, l, TOL), 'no line starts left of its rectangle')
            cx.check(cx.le(r, x + w, TOL), 'no line ends right of its rectangle')
        elif len(vis):
            cx.check(cx.Or(r - l >= w - left - indent - 0.1, cx.And(cx.le(x + left, l, TOL), cx.le(r, x + w, TOL))),
                     'only a word wider than its rectangle reaches out of it')
        size = ln.size()
        cx.check(cx.le(y - h, ln.y, TOL), 'no line lies below its rectangle')
        cx.check(cx.le(ln.y + size, y, TOL), 'no line reaches above its rectangle')
        if prev is not None:
            cx.check(cx.le(lh * size, prev - ln.y, TOL), 'lines are a line height apart')
        prev = ln.y
    return pos


def settings(cx, align):
    k = {'text_align': align}
    return k


def width(cx, t, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 15, 120)
    x, y = cx.choice('x', [0, 33.5]), 400
    indent = cx.choice('indent', [0, 6]) if align in 'lj' else 0
    frags = TEXTS[t]
    p = paragraph(cx, pdf, frags, w, 300, x, y, text_align=align, indent=indent)
    verify(cx, lines(cx, pdf, p), x, y, w, 300, 1.1, tokens(cx, frags), indent)
    cx.check(cx.close(p.result['width'], w, 0.001) and p.finished, 'the paragraph fits')


def height(cx, t):
    pdf = cx.mod('pdf').PDF()
    h, h2 = cx.real('h', 5, 90), cx.choice('h2', [12, 27, 60])
    x, y = cx.real('x', -50, 500), cx.real('y', 0, 800)
    lh = cx.choice('lh', [1, 1.5, 2.2])
    w = cx.choice('w', [40, 66])
    frags = TEXTS[t]
    toks = tokens(cx, frags)
    p = paragraph(cx, pdf, frags, w, h, x, y, line_height=lh, text_align=cx.choice('align', ['l', 'j']))
    pos = verify(cx, lines(cx, pdf, p), x, y, w, h, lh, toks)
    cx.check(cx.le(p.result['height'], h, 0.001), 'the paragraph is no taller than its rectangle')
    if not p.finished:
        p.run(0, 100, w, h2)
        verify(cx, lines(cx, pdf, p), 0, 100, w, h2, lh, toks, pos=pos)
        cx.check(cx.le(p.result['height'], h2, 0.001), 'the paragraph is no taller than its rectangle')


def long(cx, n, align):
    """many words over many rectangles"""
    pdf = cx.mod('pdf').PDF()
    frags = longer(n)
    toks = tokens(cx, frags)
    w, h = cx.real('w', 80, 82), 140
    p = paragraph(cx, pdf, frags, w, h, 3, 400, text_align=align, line_height=1.3)
    pos = verify(cx, lines(cx, pdf, p), 3, 400, w, h, 1.3, toks)
    for i in range(n):
        if p.finished:
            break
        w, h = 70 + 9 * (i % 5), 14 + 13 * (i * 5 % 7)
        p.run(i, 300 - i, w, h)
        pos = verify(cx, lines(cx, pdf, p), i, 300 - i, w, h, 1.3, toks, pos=pos)
        cx.check(cx.le(p.result['height'], h, 0.001), 'the paragraph is no taller than its rectangle')
    cx.check(p.finished, 'the paragraph ends')


def letters(cx, align, k):
    """letters of any width"""
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 15, 60)
    frags = [('aa ' + cx.str('u', k, ALPHA[k]) + ' ', {}), (cx.str('v', k, ALPHA[k]) + ' bb', {'b': True})]
    p = paragraph(cx, pdf, frags, w, 300, 0, 0, text_align=align)
    verify(cx, lines(cx, pdf, p), 0, 0, w, 300, 1.1, tokens(cx, frags))


def sizes(cx, align):
    pdf = cx.mod('pdf').PDF()
    a, b = cx.real('a', 3, 30), cx.real('b', 3, 30)
    w = cx.choice('w', [30, 70])
    h = 70
    frags = [('aa b', {'s': a}), ('b cc', {'s': b}), (' dd', {})]
    p = paragraph(cx, pdf, frags, w, h, 0, 0, text_align=align, line_height=cx.choice('lh', [1, 1.4]))
    verify(cx, lines(cx, pdf, p), 0, 0, w, h, p.line_height, tokens(cx, frags))


def raised(cx, align):
    """text that is raised or lowered by any amount"""
    pdf = cx.mod('pdf').PDF()
    a, b = cx.real('a', -1, 3), cx.choice('b', [-0.6, 0.4])
    w = cx.choice('w', [30, 70])
    frags = [('aa b', {'r': a}), ('b cc', {'r': b}), (' dd ', {}), ('ee', {'r': a, 's': 6})]
    toks = tokens(cx, frags)
    p = paragraph(cx, pdf, frags, w, cx.choice('h', [70, 400]), 0, 0, text_align=align, line_height=cx.choice('lh', [1, 1.4]))
    pos = verify(cx, lines(cx, pdf, p), 0, 0, w, p.height, p.line_height, toks)
    if not p.finished:
        p.run(0, 0, w, 400)
        verify(cx, lines(cx, pdf, p), 0, 0, w, 400, p.line_height, toks, pos=pos)


def pages(cx, what):
    """a text that continues on a page with another size or other margins"""
    frags = longer(30)
    first = {}
    W, H, M = 150, 90, (10, 10, 10, 10)
    if what == 'size':
        first = {'page_size': (cx.real('w', 90, 94) if cx.bool('width') else 150, cx.real('h', 50, 140))}
    else:
        first = {'margin': {cx.choice('side', ['top', 'right', 'bottom', 'left']): cx.real('m', 0, 30)}}
    pdf = cx.mod('pdf').PDF(page_size=(W, H), margin=10)
    pdf.add_page(**first)
    pdf.text(content(frags))
    doc = draw(cx, pdf)
    toks = tokens(cx, frags)
    pos = 0
    for i, evs in enumerate(doc.events):
        w, h = first.get('page_size', (W, H)) if i == 0 else (W, H)
        m = dict({'top': 10, 'right': 10, 'bottom': 10, 'left': 10}, **(first.get('margin', {}) if i == 0 else {}))
        ls = lines_of(cx, evs)
        pos = verify(cx, ls, m['left'], h - m['top'], w - m['left'] - m['right'], h - m['top'] - m['bottom'], 1.1, toks, pos=pos)
    cx.check(pos >= len(toks), 'the whole text is printed')


def listed(cx, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 35, 120)
    h = cx.choice('h', [30, 200])
    left = cx.real('list', 8, 20)
    st = cx.choice('style', [{}, {'s': 18}])
    frags = cx.choice('t', [TEXTS['mixed'], TEXTS['breaks']])
    toks = tokens(cx, [('#', st)] + frags)
    indent = cx.choice('indent', [0, 5]) if align == 'l' else 0
    p = paragraph(cx, pdf, frags, w, h, 0, 0, text_align=align, list_text='#', list_indent=left, list_style=dict(st), indent=indent)
    pos = verify(cx, lines(cx, pdf, p), 0, 0, w, h, 1.1, toks, indent, 1, left)
    if not p.finished:
        p.run(0, 0, w, 200)
        verify(cx, lines(cx, pdf, p), 0, 0, w, 200, 1.1, toks, 0, None, left, pos=pos)
