"""C14: links, references, underlines and backgrounds."""
from verif_o.draw import draw
from verif_o.para import lines_of, match, tokens, same_color, color_of
from verif_o.pdfread import PStr, ReadError
from verif_h.par import DEFAULTS, content, paragraph, events, longer

PROPERTY = 'C14'
BUDGET = {'quick': 150, 'thorough': 900}
BOUNDS = {'long texts': '90 (thorough: 300) words in fragments of all kinds, on pages of symbolic width',
          'texts': 'paragraphs of up to 6 words in up to 6 fragments with links, references, underlines and backgrounds, alone, next to each other, nested, starting or ending inside a word; symbolic sizes and rises; link addresses of up to 3 symbolic characters',
          'places': 'pages of symbolic width, broken over lines and pages, all alignments, indent, list paragraphs, content boxes and table cells'}
PATH_TIMEOUT = 100
TOL = 0.03

TEXTS = {
    'link': [('aa ', {}), ('bb cc', {'uri': 'U1'}), (' dd ', {}), ('ee ff gg', {'ref': 'L'}), (' hh', {})],
    'word': [('aa b', {}), ('b', {'uri': 'U1'}), ('c dd', {'u': True, 'uri': 'U2'}), (' ee', {})],
    'both': [('aa', {'ref': 'L'}), (' bb ', {'u': True, 'bg': 0.9, 'uri': 'U1'}), ('cc dd', {'bg': [1, 0.5, 0], 's': 13}), (' ee', {'u': True, 'c': 0.6})],
    'breaks': [('aa ', {}), ('bb\ncc dd', {'uri': 'U1', 'u': True}), ('\nee', {'bg': 0.8}), (' ff ', {}), ('gg hh\nii', {'ref': 'L'})],
    'raised': [('a ', {'u': True}), ('bb', {'r': 0.4, 'u': True, 'bg': 0.9}), (' cc', {'uri': 'U1', 'r': -0.5}), (' dd', {'u': True, 's': 16})],
    'same': [('aa bb', {'u': True, 'c': [0, 0, 1]}), (' ', {}), ('cc dd', {'u': True, 'c': [0, 0, 1]}), (' ee', {'u': True, 'bg': 0.9})],
}


def configs(tier):
    q = tier == 'quick'
    out = []
    for t in TEXTS:
        for a in 'lrcj':
            if not q or a == 'j' or t in ('link', 'both') or (a == 'r' and t == 'breaks'):
                out.append(('width', dict(t=t, align=a)))
    out += [('pages', dict(t=t)) for t in (('both', 'breaks') if q else TEXTS)]
    out += [('listed', dict(t=t)) for t in (('both',) if q else TEXTS)]
    out += [('long', dict(n=n, align=a)) for n in ((90,) if q else (90, 300)) for a in ('lj' if q else 'lrcj')]
    out += [('sizes', {}), ('address', {}), ('places', dict(how='content')), ('places', dict(how='table')), ('nested', {})]
    return out


def runs(ln, key):
    """maximal runs of characters of one fragment with the property on a line"""
    out = []
    for ch in ln.visible():
        st = ch.style
        if st is not None and st.get(key) not in (None, False):
            if out and out[-1][-1].style is st and out[-1][-1] is prev:
                out[-1].append(ch)
            else:
                out.append([ch])
        prev = ch
    return out


def ink(run):
    cs = [c for c in run if c.code != 32]
    return cs[0].x, cs[-1].x + cs[-1].w


def starts(cx, x, run):
    """white space at the ends of the text may be left out"""
    return cx.And(cx.le(run[0].x, x, TOL), cx.le(x, ink(run)[0], TOL))


def cover(cx, pieces, run, ends, msg):
    """takes the pieces, side by side, that cover the text of the run;
    ends(piece) -> left, right"""
    out = [pieces.pop(0)]
    cx.check(starts(cx, ends(out[0])[0], run), msg)
    last = run[-1].x + run[-1].w
    while not bool(cx.le(ink(run)[1], ends(out[-1])[1], TOL)):
        cx.check(len(pieces) > 0, msg, 'text left uncovered')
        p = pieces.pop(0)
        cx.check(cx.close(ends(p)[0], ends(out[-1])[1], TOL), msg, 'pieces apart')
        out.append(p)
    cx.check(cx.le(ends(out[-1])[1], last, TOL), msg, 'beyond the text')
    return out


def blank(run):
    return all(c.code == 32 for c in run)


def verify(cx, lines, evs):
    """underlines and backgrounds among the events of a page"""
    fills = [e for e in evs if e.kind == 'fill']
    strokes = [e for e in evs if e.kind == 'line']
    for ln in lines:
        for run in runs(ln, 'bg'):
            if blank(run):
                continue
            cx.check(len(fills) > 0, 'every background is drawn')
            base = ln.y + run[0].ev.rise
            size = run[0].ev.size
            for e in cover(cx, fills, run, lambda e: (e.x, e.x + e.w), 'a background spans its text'):
                cx.check(cx.And(cx.le(e.y, base, 0.01), cx.le(base - 0.5 * size, e.y, 0.01), cx.le(base + 0.7 * size, e.y + e.h, 0.01),
                                cx.le(e.y + e.h, base + 1.4 * size, 0.01)), 'a background covers the height of its text')
                cx.check(same_color(cx, e.color, color_of(run[0].style['bg'])), 'a background has its color')
        for run in runs(ln, 'u'):
            if blank(run):
                continue
            cx.check(len(strokes) > 0, 'every underline is drawn')
            base = ln.y + run[0].ev.rise
            size = run[0].ev.size
            for e in cover(cx, strokes, run, lambda e: (e.x1, e.x2), 'an underline spans its text'):
                cx.check(cx.And(cx.close(e.y1, e.y2, 0.001), cx.le(e.y1, base, 0.01), cx.le(base - 0.25 * size, e.y1, 0.01)),
                         'an underline lies under its text')
                cx.check(cx.And(cx.le(0.01 * size, e.width, 0.001), cx.le(e.width, 0.15 * size, 0.001)), 'an underline is a thin line')
                cx.check(same_color(cx, e.color, run[0].ev.color), 'an underline has the color of its text')
    cx.check(not fills, 'no background is drawn that was not asked for')
    cx.check(not strokes, 'no underline is drawn that was not asked for')


def links(cx, doc, page, lines):
    """annotations of a page"""
    f = doc.file
    ans = [f.get(a) for a in (f.get(doc.pages[page].get('Annots')) or [])]
    left = []
    for a in ans:
        cx.check(a.get('Subtype') == 'Link', 'annotations are links')
        rect = f.get(a.get('Rect'))
        if 'Dest' in a:
            key, target = 'ref', f.get(a['Dest'])
        else:
            act = f.get(a.get('A'))
            cx.check(act.get('S') == 'URI', 'a link has an address')
            key, target = 'uri', f.get(act.get('URI'))
        cx.check(isinstance(target, PStr), 'the target of a link is a string')
        left.append((key, target.codes, rect))
    for ln in lines:
        for key in ('uri', 'ref'):
            for run in runs(ln, key):
                if blank(run):
                    continue
                base = ln.y + run[0].ev.rise
                size = run[0].ev.size
                want = cx.units(run[0].style[key])
                # the rectangles of this link on this line, from left to right
                mine = []
                for i, (k, target, rect) in enumerate(left):
                    if k == key and len(target) == len(want) and bool(cx.eqcodes(target, want)) \
                            and bool(cx.le(base - 0.5 * size, rect[1], 0.01)) and bool(cx.le(rect[3], base + 1.5 * size, 0.01)) \
                            and bool(cx.le(rect[1], base, 0.01)) and bool(cx.le(base + 0.5 * size, rect[3], 0.01)) \
                            and bool(cx.le(run[0].x, rect[0], TOL)) and bool(cx.le(rect[2], run[-1].x + run[-1].w, TOL)):
                        mine.append(rect)
                cx.check(len(mine) > 0, 'every link has a clickable rectangle on its text')
                used = cover(cx, mine, run, lambda r: (r[0], r[2]), 'the clickable rectangle of a link spans its text')
                left = [x for x in left if not any(x[2] is u for u in used)]
    cx.check(not left, 'there is no clickable rectangle without a link')


def document(cx, pdf, frags, gap=None):
    doc = draw(cx, pdf)
    per_page = [lines_of(cx, evs, gap) for evs in doc.events]
    match(cx, [ln for ls in per_page for ln in ls], tokens(cx, frags))
    try:
        for i, (ls, evs) in enumerate(zip(per_page, doc.events)):
            verify(cx, ls, evs)
            links(cx, doc, i, ls)
    except ReadError as ex:
        cx.fail('the file cannot be read: %s' % ex)


def new(cx, w, h):
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=cx.choice('margin', [0, 8]))
    pdf.add_page()
    return pdf


def width(cx, t, align):
    pdf = new(cx, cx.real('w', 40, 150), 400)
    frags = TEXTS[t]
    pdf.text(content(frags), text_align=align, indent=cx.choice('indent', [0, 9]))
    document(cx, pdf, frags)


def pages(cx, t):
    pdf = new(cx, cx.choice('w', [60, 90]), cx.real('h', 52, 110))
    frags = TEXTS[t]
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'c']), indent=5)
    document(cx, pdf, frags)


def listed(cx, t):
    pdf = new(cx, cx.real('w', 50, 120), cx.choice('h', [400, 55]))
    frags = TEXTS[t]
    pdf.text(content(frags), list_text='#', text_align=cx.choice('align', ['l', 'r', 'j']))
    document(cx, pdf, [('#', {})] + frags)


def long(cx, n, align):
    """many links, underlines and backgrounds over lines and pages"""
    frags = longer(n, True)
    pdf = new(cx, cx.real('w', 100, 102), 130)
    pdf.text(content(frags), text_align=align, indent=5)
    document(cx, pdf, frags)


def sizes(cx):
    """symbolic size and rise"""
    pdf = new(cx, cx.choice('w', [40, 90]), 400)
    s = cx.real('size', 3, 40)
    r = cx.choice('rise', [0, 0.4, -0.4])
    frags = [('aa ', {'u': True}), ('bb c', {'s': s, 'r': r, 'u': True, 'bg': 0.9, 'uri': 'U1'}), ('c dd', {'uri': 'U2'})]
    pdf.text(content(frags), text_align=cx.choice('align', ['l', 'c']))
    document(cx, pdf, frags)


def address(cx):
    """addresses are carried as they are; equal ones are shared"""
    pdf = new(cx, 200, 400)
    k = cx.choice('n', [1, 2, 3])
    a = cx.str('a', k, [(33, 126)])
    b = cx.str('b', k, [(33, 126)]) if k < 3 else 'zz'
    frags = [('aa', {'uri': a}), (' x ', {}), ('bb', {'uri': b}), (' y ', {}), ('cc', {'ref': a}), (' z ', {}), ('dd', {'uri': a})]
    pdf.text(content(frags))
    document(cx, pdf, frags)


def places(cx, how):
    pdf = new(cx, cx.real('w', 130, 220), 400)
    frags = TEXTS['both']
    if how == 'content':
        pdf.content({'content': [content(frags)], 'cols': {'count': 2, 'gap': 10}} if cx.bool('cols') else {'content': [content(frags)]})
    else:
        pdf.table([[content(frags)]], borders=[], style={'border_width': 0})
    document(cx, pdf, frags, 5)


def nested(cx):
    """parts of a link in styles of their own"""
    pdf = new(cx, cx.real('w', 40, 150), 400)
    u = {'uri': 'U1', 'u': True}
    pdf.text({'.': ['aa ', {'.': ['bb ', {'.b:1;c:0.5': 'cc dd'}, ' ee'], 'uri': 'U1', 'style': {'u': True}}, ' ff'],
              'style': dict(DEFAULTS)}, text_align=cx.choice('align', ['l', 'j']))
    document(cx, pdf, [('aa ', {}), ('bb ', dict(u)), ('cc dd', dict(u)), (' ee', dict(u)), (' ff', {})])
