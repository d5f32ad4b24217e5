"""C13: alignment and indentation."""
from verif_o.content import METRICS
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens
from verif_h.par import TEXTS, DEFAULTS, paragraph, lines, longer

PROPERTY = 'C13'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '100 (thorough: 400) words in fragments of all kinds, the first rectangle of symbolic width, over dozens of others',
          'texts': '8 paragraphs of up to 6 words in up to 6 fragments; two words of one symbolic character (printable ASCII); symbolic font sizes',
          'rectangles': 'symbolic width 15..120 and position; the rest in one or two further rectangles of other widths',
          'neighbours': 'paragraphs after a justified one that ends in a stretched line, in a table of symbolic width, with a list marker of two words', 'settings': 'all four alignments, symbolic indent -12..12, list markers with given (symbolic) or default list indent'}
ASSUMPTIONS = ['the indent of right aligned and centered paragraphs is not claimed to shift their first line', 'texts do not end in a space']
PATH_TIMEOUT = 100
TOL = 0.03


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in [t for t in TEXTS if t != 'one']:
        for a in 'lrcj':
            out.append(('width', dict(t=t, align=a)))
            if not q or t in ('mixed', 'breaks'):
                out.append(('resumed', dict(t=t, align=a)))
                out.append(('listed', dict(t=t, align=a)))
    out += [('long', dict(n=n, align=a)) for n in ((100,) if q else (100, 400)) for a in 'lrcj']
    out += [('letters', dict(align=a)) for a in ('rj' if q else 'lrcj')]
    out += [('sizes', dict(align=a)) for a in ('cj' if q else 'lrcj')]
    out += [('neighbour', dict(align=a)) for a in 'ljrc']
    return out


def ends(cx, ls, toks, start=0):
    """for each line: whether the paragraph or a line break ends it"""
    out = []
    pos = start
    for ln in ls:
        pos = match(cx, [ln], toks, pos, partial=True)
        k = pos
        while k < len(toks) and toks[k][0] == ' ':
            k += 1
        out.append(k >= len(toks) or toks[k][0] == '\n')
    return out, pos


def verify(cx, ls, x, w, align, toks, indent=0, left=0, marker=0, pos=0):
    """left: list indent; marker: characters of the list marker on the first line"""
    last, pos = ends(cx, ls, toks, pos)
    for i, ln in enumerate(ls):
        vis = ln.visible()
        if i == 0 and marker:
            cx.check(cx.close(vis[0].x, x, TOL), 'a list marker starts at the left edge')
            vis = vis[marker:]
        l, r = vis[0].x, vis[-1].x + vis[-1].w
        x0 = x + left + (indent if i == 0 and align in 'lj' else 0)
        x1 = x + w
        if align == 'l':
            cx.check(cx.close(l, x0, TOL), 'a left aligned line starts at the left edge')
        elif align == 'r':
            cx.check(cx.close(r, x1, TOL), 'a right aligned line ends at the right edge')
        elif align == 'c':
            cx.check(cx.close(l - (x + left), x1 - r, 2 * TOL), 'a centered line has equal space on both sides')
        else:
            cx.check(cx.close(l, x0, TOL), 'a justified line starts at the left edge')
            if not last[i] and any(c.code == 32 for c in vis):
                cx.check(cx.close(r, x1, TOL), 'a justified line ends at the right edge')
        if align != 'j' or last[i]:
            gaps(cx, vis, align)
    return pos


def gaps(cx, vis, align):
    """spaces have their own width where nothing is stretched"""
    if align == 'j':
        return
    for a, b in zip(vis, vis[1:]):
        if a.ev is not b.ev:
            cx.check(cx.close(a.x + a.w, b.x, TOL), 'the fragments of a line follow each other')
        if a.code == 32:
            cx.check(cx.close(a.ev.tw, 0, 0.001), 'spaces are not stretched')


def width(cx, t, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 15, 120)
    x = cx.real('x', -20, 300)
    indent = cx.real('indent', -12, 12) if align in 'lj' else cx.choice('indent', [0, 7])
    frags = TEXTS[t]
    p = paragraph(cx, pdf, frags, w, 400, x, 0, text_align=align, indent=indent)
    verify(cx, lines(cx, pdf, p), x, w, align, strip(tokens(cx, frags)), indent)


def strip(toks):
    while toks and toks[-1][0] == ' ':
        toks.pop()
    return toks


def resumed(cx, t, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.choice('w', [30, 52])
    w2, w3 = cx.real('w2', 15, 90), 64
    indent = cx.choice('indent', [0, 7, -6] if align in 'lj' else [0, 7])
    frags = TEXTS[t]
    toks = strip(tokens(cx, frags))
    p = paragraph(cx, pdf, frags, w, cx.choice('h1', [5, 12, 28]), 0, 0, text_align=align, indent=indent)
    pos = 0
    first = True
    for ww, h in ((w2, cx.choice('h2', [13, 40])), (w3, 400), (None, None)):
        ls = lines(cx, pdf, p)
        if ls:
            pos = verify(cx, ls, p.x, p.width, align, toks, indent if first else 0, pos=pos)
            first = False
        if p.finished:
            break
        p.run(10, 0, ww, h)
    cx.check(p.finished, 'the paragraph ends')


def long(cx, n, align):
    """many words over many rectangles"""
    pdf = cx.mod('pdf').PDF()
    frags = longer(n)
    toks = strip(tokens(cx, frags))
    p = paragraph(cx, pdf, frags, cx.real('w', 80, 82), 140, 3, 400, text_align=align, indent=8)
    pos = verify(cx, lines(cx, pdf, p), 3, p.width, align, toks, 8)
    for i in range(n):
        if p.finished:
            break
        p.run(i, 300 - i, 80 + 9 * (i % 5), 14 + 13 * (i * 5 % 7))
        ls = lines(cx, pdf, p)
        if ls:
            pos = verify(cx, ls, i, p.width, align, toks, 0, pos=pos)
    cx.check(p.finished, 'the paragraph ends')


def listed(cx, t, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 35, 100)
    given = cx.bool('given')
    left = cx.real('list', 8, 20) if given else None
    st = cx.choice('style', [{}, {'s': 16, 'b': True}])
    frags = TEXTS[t]
    toks = strip(tokens(cx, [('-#', st)] + frags))
    indent = cx.choice('indent', [0, 5, -4]) if align in 'lj' else 0
    p = paragraph(cx, pdf, frags, w, cx.choice('h', [18, 400]), 0, 0, text_align=align, list_text='-#', list_indent=left,
                  list_style=dict(st), indent=indent)
    pos = 0
    ls = lines(cx, pdf, p)
    if ls:
        if not given:
            left = ls[0].chars[0].w + ls[0].chars[1].w
        pos = verify(cx, ls, 0, w, align, toks, indent, left, 2)
        if not p.finished:
            p.run(5, 0, w, 400)
            verify(cx, lines(cx, pdf, p), 5, w, align, toks, 0, left, 0, pos)


def letters(cx, align):
    pdf = cx.mod('pdf').PDF()
    w = cx.real('w', 15, 60)
    frags = [('aa ' + cx.str('u', 1, [(33, 126)]) + ' ', {}), (cx.str('v', 1, [(33, 126)]) + ' bb', {'b': True}), ('c dd', {})]
    p = paragraph(cx, pdf, frags, w, 300, 0, 0, text_align=align)
    verify(cx, lines(cx, pdf, p), 0, w, align, tokens(cx, frags))


def sizes(cx, align):
    pdf = cx.mod('pdf').PDF()
    a, b = cx.real('a', 3, 30), cx.real('b', 3, 30)
    w = cx.choice('w', [50, 90])
    frags = [('aa b', {'s': a}), ('b cc', {'s': b}), (' dd', {})]
    p = paragraph(cx, pdf, frags, w, 400, 0, 0, text_align=align)
    verify(cx, lines(cx, pdf, p), 0, w, align, tokens(cx, frags))


def neighbour(cx, align):
    """what comes before a paragraph does not change it"""
    w = cx.real('w', 60, 90)
    pdf = cx.mod('pdf').PDF(page_size=(2 * w, 60), margin=0)
    pdf.add_page()
    before = {'.': 'aa bb cc dd ee ff gg hh ii jj kk ll mm nn oo pp qq rr ss tt', 'style': {'text_align': 'j', 's': 10, 'f': 'Times', 'c': 0.5, 'r': 0.2}}
    text = 'uu vv ww xx yy zz'
    marker = cx.choice('marker', ['', 'a b '])
    st = {'text_align': align, 's': 9, 'r': 0, 'f': 'Helvetica', 'c': 0}
    if marker:
        st['list_text'] = marker
    pdf.table([[before, {'.': text, 'style': st}]], style={'cell_margin': 0, 'border_width': 0})
    doc = draw(cx, pdf)
    evs = [e for e in doc.events[0] if e.kind == 'text' and len(e.codes) and bool(e.x >= w - 1)]
    ls = lines_of(cx, evs)
    base = 'Helvetica'
    if marker:
        ch = ls[0].chars[:4]
        x = w
        for c, want in zip(ch, 'a b '):
            cx.check(c.code == ord(want), 'a list marker is drawn as given')
            cx.check(cx.close(c.x, x, TOL), 'a list marker is not stretched')
            x = x + METRICS[base]['widths'][c.code] * 9 / 1000
        left = x - w
        ls[0].chars = ls[0].chars[4:]
    else:
        left = 0
    verify(cx, ls, w, w, align, tokens(cx, [(text, {})]), 0, left)
    for ln in ls:
        for c in ln.chars:
            cx.check(c.ev.font.base == base and bool(c.ev.size == 9) and bool(c.ev.rise == 0), 'text is not changed by its neighbours')
