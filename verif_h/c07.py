"""C07: the outline tree."""
from verif_o.draw import draw
from verif_o.pdfread import ReadError, PStr, Ref
from verif_o.type0 import utf16
from verif_h.c06 import lookup, at

PROPERTY = 'C07'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'entries': 'up to 5 (quick) / 7 (thorough) entries over all level sequences in which no level is skipped, every configured depth 0..4, labelled or not, given separately, in one paragraph, or nested',
          'many': 'documents of 44 entries over up to 6 pages, up to 7 levels deep, one of which has any level, with any configured depth 0..8',
          'wide titles': '1 or 2 symbolic characters of all of Unicode (thorough: also 3 of each of three ranges), alone or after a given one, given by the entry',
          'titles': '1 symbolic character of printable Latin-1, or 2 (quick) or 3 (thorough) of printable ASCII, taken from the entry or from the text; otherwise fixed',
          'breaks': 'paragraphs of outlined fragments on pages of symbolic width and height, in content boxes with 1 or 2 columns and in tables'}
PATH_TIMEOUT = 100


def configs(tier):
    ns = [1, 2, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7]
    out = [('levels', dict(n=n)) for n in ns]
    out += [('titles', dict(k=k)) for k in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    out += [('wide', dict(k=k, part=p)) for k in ((1, 2) if tier == 'quick' else (1, 2, 3)) for p in range(len(CHARS) if k < 3 else 3)]
    out += [('wide', dict(k=2, part=len(CHARS)))]
    out += [('broken', dict(how=h)) for h in ('text', 'content', 'columns', 'table')]
    out += [('nested', {})]
    out += [('many', dict(pattern=p)) for p in (LONG if tier == 'thorough' else ['stairs', 'deep'])]
    return out


def nesting(entries):
    """[(level, ...)] -> the tree they describe"""
    root = []
    for e in entries:
        at = root
        for _ in range(e['level'] - 1):
            at = at[-1]['kids']
        at.append(dict(e, kids=[]))
    return root


def visible(tree, depth):
    """how many entries show when the first `depth` levels of the tree are open"""
    return sum(1 + (visible(t['kids'], depth - 1) if depth > 1 else 0) for t in tree)


def verify(cx, pdf, entries, depth):
    try:
        doc = draw(cx, pdf)
        f = doc.file
        cat = f.get(f.trailer['Root'])
        if not entries:
            cx.check('Outlines' not in cat, 'a document without outlines has no outline tree')
            return
        ref = cat.get('Outlines')
        cx.check(isinstance(ref, Ref), 'the catalog has an outline tree')
        root = f.get(ref)
        tree = nesting(entries)
        seen = []

        def walk(pref, parent, kids, level):
            cx.check(isinstance(parent.get('First'), Ref) and isinstance(parent.get('Last'), Ref),
                     'an entry with children has first and last')
            ref, prev = parent['First'], None
            for i, k in enumerate(kids):
                cx.check(ref is not None, 'no outline entry is lost')
                cx.check(ref.n not in seen, 'an outline entry is in the tree once')
                seen.append(ref.n)
                d = f.get(ref)
                cx.check(d.get('Parent') == pref, 'an outline entry points at its parent')
                if prev is None:
                    cx.check('Prev' not in d, 'a first entry has none before it')
                else:
                    cx.check(d.get('Prev') == prev, 'an outline entry points at the one before it')
                cx.check(isinstance(d.get('Title'), PStr) and cx.eqcodes(text_of(d['Title'].codes), cx.units(k['title'])),
                         'an outline entry has its title')
                key = f.get(d.get('Dest'))
                cx.check(isinstance(key, PStr), 'an outline entry has a named destination')
                dest = lookup(cx, f, key.codes)
                cx.check(isinstance(dest, list), 'the destination of an outline entry exists')
                if k.get('page') is not None:
                    cx.check(f.get(dest[0]) is doc.pages[k['page']], 'an outline entry leads to the page of its element')
                if k.get('label') is not None:
                    cx.check(cx.eqcodes(key.codes, cx.units(k['label'])), 'a labelled outline entry leads to the label')
                if k['kids']:
                    walk(ref, d, k['kids'], level + 1)
                    below = visible(k['kids'], max(1, depth - level))
                    cx.check(d.get('Count') == (below if level < depth else -below),
                             'the count of an outline entry is the number of entries below it')
                else:
                    cx.check('First' not in d and 'Last' not in d and d.get('Count', 0) == 0,
                             'an entry without children declares none')
                prev = ref
                ref = d.get('Next')
            cx.check(ref is None, 'no outline entry is added')
            cx.check(parent['Last'] == prev, 'the last entry is the last one')
        walk(ref, root, tree, 1)
        if 'Count' in root:
            cx.check(root['Count'] == visible(tree, max(1, depth)), 'the count of the tree is the number of its open entries')
    except ReadError as ex:
        cx.fail('the file cannot be read: %s' % ex)


# PDFDocEncoding (ISO 32000-1, annex D) where it differs from Latin-1
DOC = dict(zip(range(0x80, 0x9f), [
    0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203a, 0x2212, 0x2030, 0x201e, 0x201c, 0x201d, 0x2018,
    0x2019, 0x201a, 0x2122, 0xfb01, 0xfb02, 0x141, 0x152, 0x160, 0x178, 0x17d, 0x131, 0x142, 0x153, 0x161, 0x17e]))
DOC.update(zip(range(0x18, 0x20), [0x2d8, 0x2c7, 0x2c6, 0x2d9, 0x2dd, 0x2db, 0x2da, 0x2dc]))
DOC[0xa0] = 0x20ac
DOC.update({0x7f: None, 0x9f: None, 0xad: None})


def text_of(codes):
    """the characters of a text string: UTF-16 after a byte order mark, or
    PDFDocEncoding"""
    if len(codes) > 1 and bool(codes[0] == 254) and bool(codes[1] == 255):
        if len(codes) % 2:
            raise ReadError('an odd number of bytes in UTF-16')
        return utf16([codes[i] * 256 + codes[i + 1] for i in range(2, len(codes), 2)])
    if len(codes) > 2 and bool(codes[0] == 239) and bool(codes[1] == 187) and bool(codes[2] == 191):
        raise ReadError('UTF-8 text strings are of PDF 2.0')
    out = []
    for c in codes:
        if not (bool(c >= 32) and bool(c < 127)) and not (bool(c > 0xa0) and bool(c != 0xad)):
            for k, v in DOC.items():
                if bool(c == k):
                    c = v
                    break
        out.append(c)
    return out


def level_sequence(cx, n):
    out = [1]
    for i in range(1, n):
        out.append(cx.choice('level%d' % i, list(range(1, out[-1] + 2))))
    return out


def new(cx, depth, **k):
    pdf = cx.mod('pdf').PDF(outlines_level=depth, **k)
    pdf.add_page()
    return pdf


def levels(cx, n):
    depth = cx.choice('depth', [0, 1, 2, 3, 4] if n > 1 else [1])
    pdf = new(cx, depth)
    how = cx.choice('how', ['separate', 'together'])
    entries, parts = [], []
    for i, lv in enumerate(level_sequence(cx, n)):
        e = {'level': lv, 'title': 'T%d' % i, 'page': 0}
        o = {} if lv == 1 and i % 2 else {'level': lv}
        p = {'.': 'T%d' % i, 'outline': o}
        if i % 3 == 1:
            p['label'] = e['label'] = 'lab%d' % i
        if i % 3 == 2:
            o['text'] = e['title'] = 'own %d' % i
        entries.append(e)
        parts.append(p)
    if how == 'separate':
        for i, p in enumerate(parts):
            if i == 3:
                pdf.add_page()
            if i >= 3:
                entries[i]['page'] = 1
            pdf.text(p)
    else:
        pdf.text(['intro ', *parts])
    verify(cx, pdf, entries, depth)


LONG = {'stairs': [1, 2, 3, 4, 3, 2, 3, 4, 5, 6, 7, 1, 2, 2, 2, 3, 3, 1, 1, 2, 3, 1] * 2,
        'deep': [1] + [2, 3, 4, 5, 6, 7, 5, 6, 6, 6, 6, 3, 4] * 3 + [2, 3, 1, 2],
        'wide': [1] + [2] * 30 + [3] * 10 + [2, 1, 1],
        'flat': [1] * 44}


def many(cx, pattern):
    """long outlines"""
    depth = cx.choice('depth', list(range(9)))
    at = cx.choice('at', [3, 16, 30, 43])
    lv = list(LONG[pattern])
    lv[at] = cx.choice('level', [x for x in range(1, lv[at - 1] + 2) if at + 1 == len(lv) or lv[at + 1] <= x + 1])
    pdf = new(cx, depth)
    entries = []
    for i, x in enumerate(lv):
        if i % 8 == 7:
            pdf.add_page()
        e = {'level': x, 'title': 'entry %d' % (i % 40), 'page': (i + 1) // 8}
        p = {'.': e['title'], 'outline': {'level': x} if x > 1 or i % 2 else {}}
        if i % 5 == 4:
            p['label'] = e['label'] = 'l%d' % i
        entries.append(e)
        pdf.text(p)
    verify(cx, pdf, entries, depth)


CHARS = [[(32, 126), (160, 255)], [(256, 0x2fff)], [(0x3000, 0xd7ff), (0xe000, 0xffff)], [(0x10000, 0x10ffff)]]


def wide(cx, k, part):
    """titles of any characters"""
    pdf = new(cx, 1)
    t = cx.choice('before', ['', 'a', chr(0xe9), chr(0x1f600)]) + cx.str('title', k, CHARS[part] if part < len(CHARS) else sum(CHARS, []))
    pdf.text({'.': 'some text', 'outline': {'text': t}})
    pdf.text({'.': 'other', 'outline': {'level': 2, 'text': 'b'}})
    verify(cx, pdf, [{'level': 1, 'title': t, 'page': 0}, {'level': 2, 'title': 'b'}], 1)


def titles(cx, k):
    pdf = new(cx, 1)
    t = cx.str('title', k, [(33, 126), (161, 255)] if k == 1 else [(33, 126)])
    if k == 2 and cx.bool('spaced'):
        t = 'm' + cx.str('blanks', 2, [(32, 33)]) + t[:1] + '  n'
    if cx.bool('own'):
        pdf.text({'.': 'some text', 'outline': {'text': t}})
    else:
        pdf.text({'.': t, 'outline': {'level': 1}})
    pdf.text({'.': 'other', 'outline': {'level': 2}})
    verify(cx, pdf, [{'level': 1, 'title': t, 'page': 0}, {'level': 2, 'title': 'other'}], 1)


def broken(cx, how):
    """outlined fragments that continue in the next line, column or page"""
    w, h = (cx.real('w', 30, 120), cx.real('h', 16, 60)) if how == 'text' else (120, cx.real('h', 30, 100))
    pdf = new(cx, 2, page_size=(w, h), margin=0, font_size=10)
    words = [('AA aa aa', 1), ('BB bb bb', 2), ('CC cc', 2)]
    parts = [{'.': t, 'outline': {'level': lv}} for t, lv in words]
    if how == 'text':
        pdf.text([parts[0], ' ', parts[1], ' ', parts[2]])
    else:
        els = [['x ', parts[0], ' y'], [parts[1]], [parts[2]]]
        els = [{'.': e} for e in els]
        if how == 'table':
            pdf.table([[els[0], els[1]], [els[2], '']], widths=[1, 2])
        else:
            c = {'content': els}
            if how == 'columns':
                c['cols'] = {'count': 2, 'gap': 5}
            pdf.content(c)
    doc = draw(cx, pdf)
    where = {}
    for i, evs in enumerate(doc.events):
        for e in evs:
            for c in (e.codes if e.kind == 'text' else []):
                where.setdefault(chr(c), i)
    for c in 'ABC':
        cx.check(c in where, 'the outlined texts are drawn')
    verify(cx, pdf, [{'level': lv, 'title': t, 'page': where[t[0]]} for t, lv in words], 2)


def nested(cx):
    """outlined fragments made of parts, inside other fragments"""
    depth = cx.choice('depth', [1, 2])
    pdf = new(cx, depth)
    kind = cx.choice('kind', ['parts', 'number', 'style', 'inner', 'labels', 'running', 'none'])
    if kind == 'parts':
        pdf.text({'.': ['one ', {'.b:1': 'two'}, ' three'], 'outline': {}})
        entries = [{'level': 1, 'title': 'one two three'}]
    elif kind == 'number':
        pdf.text({'.': 42, 'outline': {}})
        entries = [{'level': 1, 'title': '42'}]
    elif kind == 'style':
        pdf.text({'.i:1;s:14': ['styled', ' text'], 'outline': {}, 'label': 'x'})
        entries = [{'level': 1, 'title': 'styled text', 'label': 'x'}]
    elif kind == 'inner':
        pdf.text({'.': ['out ', {'.': 'in', 'outline': {'level': 2}}, ' side'], 'outline': {'text': 'O'}})
        entries = [{'level': 1, 'title': 'O'}, {'level': 2, 'title': 'in'}]
    elif kind == 'labels':
        # inside a labelled fragment, which begins elsewhere
        own = cx.choice('label', [{}, {'label': 'y'}])
        pdf.text({'.': ['out\nside\n', dict({'.': 'in', 'outline': {}}, **own), ' end'], 'label': 'x'})
        doc = draw(cx, pdf)
        e = [e for e in doc.events[0] if e.kind == 'text' and list(e.codes[:2]) == [105, 110]]
        cx.check(len(e) == 1, 'the outlined text is drawn')
        f = doc.file
        root = f.get(f.get(f.trailer['Root'])['Outlines'])
        dest = lookup(cx, f, f.get(f.get(root['First'])['Dest']).codes)
        at(cx, dest, e[0])
        return
    elif kind == 'running':
        pdf.text({'.': 'first', 'outline': {}})
        pdf.add_page()
        pdf.text({'.': 'first', 'outline': {}})
        entries = [{'level': 1, 'title': 'first', 'page': 0}, {'level': 1, 'title': 'first', 'page': 1}]
    else:
        pdf.text({'.': 'plain', 'label': 'l'})
        entries = []
    verify(cx, pdf, entries, depth)
