"""C11: paragraphs over several rectangles."""
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens, check_style
from verif_h.par import TEXTS, DEFAULTS, paragraph, lines, content, max_size, longer

PROPERTY = 'C11'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '100 (thorough: 400) words in fragments of all kinds over dozens of rectangles, two of them of symbolic size',
          'texts': '8 paragraphs of up to 6 words in up to 6 fragments (joined words, line breaks, words wider than the rectangle, raised and lowered text)',
          'rectangles': 'two rectangles of symbolic width and height (one of both symbolic at a time in quick) followed by one that is large enough; pages of symbolic size',
          'alignments': 'all four, with indent and with list markers'}
PATH_TIMEOUT = 100


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in TEXTS:
        out.append(('rects', dict(t=t, vary='h', align='l')))
        if not q or t in ('mixed', 'joined', 'breaks'):
            out.append(('rects', dict(t=t, vary='w', align='j')))
            out.append(('listed', dict(t=t)))
    if not q:
        out += [('rects', dict(t=t, vary=v, align=a)) for t in TEXTS for v in ('h', 'w', 'both') for a in 'lrcj'
                if (v, a) not in (('h', 'l'), ('w', 'j'))]
    else:
        out += [('rects', dict(t='breaks', vary='h', align=a)) for a in 'rc']
    out += [('long', dict(n=n, align=a)) for n in ((100,) if q else (100, 400)) for a in ('lj' if q else 'lrcj')]
    out += [('pages', dict(t=t)) for t in (('mixed', 'breaks') if q else TEXTS)]
    return out


def run_all(cx, pdf, t, frags, rects, prefix=None):
    """prints t in the rectangles; checks conservation and the end"""
    toks = tokens(cx, frags if prefix is None else [(prefix, {})] + list(frags))
    size = max_size(frags)
    pos = 0
    n = 0
    k = 0
    while True:
        ls = lines(cx, pdf, t)
        pos = match(cx, ls, toks, pos, partial=True)
        for ln in ls:
            for ch in ln.chars:
                if ch.style is not None and not (prefix is not None and n == 0 and ch.code == 35):
                    check_style(cx, ch, DEFAULTS)
        n += len(ls)
        left = [x for x in toks[pos:] if x[0] not in (' ', '\n')]
        cx.check(t.finished == (not left), 'a paragraph is finished when all of it has been printed')
        if t.finished:
            return
        h = rects[k][1]
        room = h >= 2.5 * size + 3
        cx.check(cx.Implies(room, len(ls) > 0), 'a rectangle with room for a line gets one')
        k += 1
        cx.check(k < len(rects), 'a rectangle large enough for all the text takes it')
        w, h = rects[k]
        t.run(0, 0, w, h)


def rects(cx, t, vary, align):
    pdf = cx.mod('pdf').PDF()
    frags = TEXTS[t]
    hs = (5, 70)
    ws = (15, 110)
    if vary == 'h':
        rs = [(40, cx.real('h1', *hs)), (cx.choice('w2', [40, 60]), cx.real('h2', *hs))]
    elif vary == 'w':
        rs = [(cx.real('w1', *ws), 26), (cx.real('w2', *ws), cx.choice('h2', [8, 30]))]
    else:
        rs = [(cx.real('w1', *ws), cx.real('h1', *hs)), (cx.real('w2', *ws), cx.real('h2', *hs))]
    rs.append((50, 1000))
    p = paragraph(cx, pdf, frags, *rs[0], text_align=align, indent=cx.choice('indent', [0, 7]))
    run_all(cx, pdf, p, frags, rs)


def listed(cx, t):
    pdf = cx.mod('pdf').PDF()
    frags = TEXTS[t]
    rs = [(cx.choice('w1', [35, 60]), cx.real('h1', 5, 60)), (50, cx.real('h2', 5, 60)), (70, 1000)]
    p = paragraph(cx, pdf, frags, *rs[0], text_align=cx.choice('align', ['l', 'j', 'c']), list_text='#')
    run_all(cx, pdf, p, frags, rs, '#')


def long(cx, n, align):
    """many words over many rectangles of different sizes"""
    pdf = cx.mod('pdf').PDF()
    frags = longer(n)
    rs = [(60 + 9 * (i % 5), 5 + 11 * (i * 5 % 7)) for i in range(3 * n)]
    i = cx.choice('at', [0, 4, 9])
    rs[i] = (80, cx.real('h', 5, 70))
    rs[i + 1] = (cx.real('w', 60, 63), 50)
    p = paragraph(cx, pdf, frags, *rs[0], text_align=align, indent=7, list_text=cx.choice('list', [None, '#']))
    run_all(cx, pdf, p, frags, rs, '#' if p.list_text else None)


def pages(cx, t):
    """the same over the pages of a document"""
    frags = TEXTS[t]
    w = cx.choice('w', [40, 65])
    h = cx.real('h', 34, 90) if w == 65 else cx.real('h', 34, 40)
    if w == 40:
        frags = frags + [('\n' * 8 + ' ', {})] + frags
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=0)
    first = cx.choice('first', [{}, {'page_size': (70, 120)}, {'page_size': (w, 45), 'margin': [5, 0, 3, 9]}])
    pdf.add_page(**first)
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'j']))
    pdf.text('end')
    doc = draw(cx, pdf)
    ls = [ln for evs in doc.events for ln in lines_of(cx, evs)]
    match(cx, ls, tokens(cx, frags + [('\nend', {'s': pdf.font_size, 'c': pdf.font_color})]))
    for i, evs in enumerate(doc.events):
        for ln in lines_of(cx, evs):
            m = first.get('margin', [0] * 4) if i == 0 else [0] * 4
            top = (first.get('page_size', (w, h))[1] if i == 0 else h) - m[0]
            cx.check(cx.And(cx.le(m[2], ln.y, 0.02), cx.le(ln.y + ln.size(), top, 0.02), cx.le(m[3], ln.chars[0].x, 0.02)), 'text is printed inside its page')
    for ln in ls:
        for ch in ln.chars:
            if ch.style is not None:
                check_style(cx, ch, DEFAULTS)
