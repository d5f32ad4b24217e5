"""C25: page numbers."""
from verif_o.draw import draw

PROPERTY = 'C25'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'roman': 'every number from 1 to 3999; every integer outside is refused',
          'pages': 'up to 3 (quick) / 5 (thorough) pages, offset any integer from -2 to 1200, numbering changed between pages; 24 pages with an offset of a range of 13 to 21'}
PATH_TIMEOUT = 60


def configs(tier):
    out = [('roman', dict(lo=1 + 250 * k, hi=min(3999, 250 * (k + 1)))) for k in range(16)]
    out += [('outside', {})]
    ranges = [(-1, 12), (85, 101)] if tier == 'quick' else [(-1, 30), (80, 130), (985, 1010)]
    for lo, hi in ranges:
        out += [('pages', dict(n=2, lo=lo, hi=hi, style=s)) for s in ('arabic', 'roman')]
    out += [('many', dict(lo=lo, hi=hi)) for lo, hi in (((30, 48),) if tier == 'quick' else ((0, 12), (30, 48), (80, 98), (380, 400)))]
    out += [('changes', dict(n=2 if tier == 'quick' else 3, first=s)) for s in ('arabic', 'roman')]
    out += [('sections', dict(n=2 if tier == 'quick' else 3, first=s)) for s in ('keep', 'reset', 'offset')]
    return out


VAL = {'I': 1, 'V': 5, 'X': 10, 'L': 50, 'C': 100, 'D': 500, 'M': 1000}
SUBTRACT = ('IV', 'IX', 'XL', 'XC', 'CD', 'CM')


def denoted(text):
    """the number a Roman numeral denotes, None if it is not a standard one"""
    if any(c not in VAL for c in text) or text == '':
        return None
    total, i, last = 0, 0, 10 ** 9
    run = 0
    while i < len(text):
        pair = text[i:i + 2]
        if pair in SUBTRACT:
            v, w, limit = VAL[pair[1]] - VAL[pair[0]], 2, VAL[pair[0]]
        else:
            v, w, limit = VAL[text[i]], 1, VAL[text[i]]
        if v > last:
            return None
        run = run + 1 if v == prev_v(text, i, w) else 1
        total += v
        # after V, L, D and after a pair only smaller symbols than its smallest may follow
        last = limit - 1 if w == 2 or text[i] in 'VLD' else v
        i += w
    for c in 'IXCM':
        if c * 4 in text:
            return None
    return total


def prev_v(text, i, w):
    return None


def roman(cx, lo, hi):
    n = cx.int('n', lo, hi)
    text = cx.mod('utils').to_roman(n)
    v = denoted(cx.concrete(text))
    cx.check(v is not None, 'a Roman numeral follows the standard subtractive rules')
    cx.check(n == v, 'a Roman numeral denotes its number')


def outside(cx):
    n = cx.int('n', -100000, 100000)
    cx.assume(cx.Or(n <= 0, n >= 4000))
    try:
        cx.mod('utils').to_roman(n)
    except Exception as ex:
        if type(ex).__module__.startswith('symx'):
            raise
        cx.check(True, 'refused')
        return
    cx.fail('there is no Roman numeral for a number below 1 or above 3999')


def shown(cx, doc, page, mark):
    """the number printed behind the mark on a page, and its notation"""
    text = []
    for e in doc.events[page]:
        if e.kind == 'text':
            text += e.codes
    text = [c for c in text if cx.issym(c) or c != 32]
    out = []
    i = 0
    m = ord(mark)
    while i < len(text):
        if not cx.issym(text[i]) and text[i] == m:
            j = i + 1
            while j < len(text) and (cx.issym(text[j]) or chr(text[j]) not in 'pqz'):
                j += 1
            out.append(text[i + 1:j])
            i = j
        else:
            i += 1
    return out


def judge(cx, codes, number, style):
    cx.check(len(codes) > 0, 'the page number is printed')
    if style == 'roman':
        cs = [cx.concrete(c) for c in codes]
        v = denoted(''.join(chr(c) for c in cs))
        cx.check(v is not None, 'the page number is a Roman numeral')
        cx.check(number == v, 'the Roman page number is position plus offset')
        return
    neg = not cx.issym(codes[0]) and codes[0] == 45
    v = 0
    for c in codes[1:] if neg else codes:
        cx.check(cx.And(c >= 48, c <= 57), 'the page number is an Arabic number')
        v = v * 10 + (c - 48)
    if len(codes) > 1 + neg:
        cx.check(codes[1 if neg else 0] != 48, 'the page number has no leading zero')
    cx.check((-v if neg else v) == number, 'the page number is position plus offset')


def footer():
    return {'content': [{'.': ['p', {'var': '$page'}, 'z']}]}


def pages(cx, n, lo, hi, style):
    """numbers in a running section and in the text of every page"""
    off = cx.int('offset', max(lo, 0) if style == 'roman' else lo, hi)
    pdf = cx.mod('pdf').PDF(page_size=(300, 300), margin=20, page_numbering_offset=off, page_numbering_style=style)
    pdf.add_running_section(footer(), 200, 30, 20, 270)
    for i in range(n):
        pdf.add_page()
        pdf.text(['q', {'var': '$page'}, 'z'])
    doc = draw(cx, pdf)
    cx.check(len(doc.pages) == n, 'every page is written')
    for i in range(n):
        for mark in 'pq':
            got = shown(cx, doc, i, mark)
            cx.check(len(got) == 1, 'the page number is printed where it is asked for')
            judge(cx, got[0], i + 1 + off, style)


def many(cx, lo, hi):
    """many pages, some of which change the numbering"""
    n = 24
    off, style = cx.int('offset', lo, hi), cx.choice('style', ['arabic', 'roman'])
    pdf = cx.mod('pdf').PDF(page_size=(300, 300), margin=20, page_numbering_offset=off, page_numbering_style=style)
    pdf.add_running_section(footer(), 200, 30, 20, 270)
    exp = []
    for i in range(n):
        if i == 8:
            style = 'roman' if style == 'arabic' else 'arabic'
            pdf.page_numbering_style = style
        if i == 14:
            off += 1000
            pdf.page_numbering_offset = off
        if i == 19:
            off = -i
            pdf.page_numbering_offset = off
        pdf.add_page()
        pdf.text(['q', {'var': '$page'}, 'z'])
        exp.append((i + 1 + off, style))
    doc = draw(cx, pdf)
    cx.check(len(doc.pages) == n, 'every page is written')
    for i, (num, st) in enumerate(exp):
        for mark in 'pq':
            got = shown(cx, doc, i, mark)
            cx.check(len(got) == 1, 'the page number is printed where it is asked for')
            judge(cx, got[0], num, st)


def changes(cx, n, first):
    """numbering changed between pages, earlier pages visited again"""
    style, off = first, 0
    pdf = cx.mod('pdf').PDF(page_size=(300, 300), margin=20, page_numbering_style=first)
    exp = []
    for i in range(n):
        if cx.bool('style%d' % i):
            style = 'roman' if style == 'arabic' else 'arabic'
            pdf.page_numbering_style = style
        if cx.bool('shift%d' % i):
            off = cx.int('offset%d' % i, 0, 10 if n > 2 else 4)
            pdf.page_numbering_offset = off
        pdf.add_page()
        pdf.text(['q', {'var': '$page'}, 'z'])
        exp.append([(i + 1 + off, style)])
    back = cx.choice('back', list(range(n)))
    pdf.page_index = back
    pdf.text(['q', {'var': '$page'}, 'z'])
    exp[back].append((back + 1 + off, style))
    doc = draw(cx, pdf)
    for i in range(n):
        got = shown(cx, doc, i, 'q')
        cx.check(len(got) == len(exp[i]), 'the page number is printed where it is asked for')
        for g, (num, st) in zip(got, exp[i]):
            judge(cx, g, num, st)


def sections(cx, n, first):
    """numbering set by the sections of a document"""
    off, style = 0, 'arabic'
    secs, exp, at = [], [], 0
    for i in range(n):
        kind = first if i == 0 else cx.choice('kind%d' % i, ['keep', 'reset', 'offset'])
        st = {}
        if kind == 'reset':
            st['page_numbering_reset'] = True
            off = -at
        elif kind == 'offset':
            off = cx.int('off%d' % i, 0, 9 if n > 2 else 2)
            st['page_numbering_offset'] = off
        s = cx.choice('style%d' % i, [None, 'roman', 'arabic'] if n > 2 or i == 1 else ['roman', None])
        if s is not None:
            st['page_numbering_style'] = style = s
        long_ = cx.bool('long%d' % i)
        words = ['q', {'var': '$page'}, 'z']
        content = [words, words] if long_ else [words]
        content = [{'.': list(w), 'style': {'margin_bottom': 50}} for w in content]
        secs.append({'style': st, 'running_sections': ['foot'], 'content': content})
        for k in range(len(content)):
            exp.append((at + 1 + off, style))
            at += 1
    document = {
        'style': {'page_size': (300, 100), 'margin': 40, 's': 11},
        'running_sections': {'foot': dict(footer(), x=0, y=80, height=20, width=300)},
        'sections': secs,
    }
    D = cx.mod('document').PDFDocument(document)
    D.run()
    doc = draw(cx, D)
    cx.check(len(doc.pages) == len(exp), 'the sections fill the expected pages')
    for i, (num, st) in enumerate(exp):
        for mark in 'pq':
            got = shown(cx, doc, i, mark)
            cx.check(len(got) == 1, 'the page number is printed where it is asked for')
            judge(cx, got[0], num, st)
