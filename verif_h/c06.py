"""C06: labels and references."""
from verif_o.draw import draw
from verif_o.pdfread import File, ReadError, PStr, Ref
from verif_o.sink import written

PROPERTY = 'C06'
BUDGET = {'quick': 120, 'thorough': 900}
BOUNDS = {'labels': 'up to 3 labels of 0..2 (quick) / 4 labels (thorough) symbolic Latin-1 characters; 1..9, 15, 50, 60 (quick) / up to 400 (thorough) labels in several orders with a symbolic one among them',
          'places': 'fragments of paragraphs on pages of symbolic width with symbolic font size, broken over lines and pages, in content boxes and tables'}
PATH_TIMEOUT = 100


def configs(tier):
    out = [('symbolic', dict(n=1, k=2)), ('symbolic', dict(n=2, k=1)), ('symbolic', dict(n=3, k=1))]
    if tier == 'thorough':
        out += [('symbolic', dict(n=2, k=2)), ('symbolic', dict(n=4, k=1))]
    ns = [1, 2, 6, 7, 8, 9, 14, 15, 49, 50, 60] if tier == 'quick' else list(range(1, 61)) + [343, 344, 400]
    out += [('many', dict(n=n, step=s)) for n in ns for s in ((1,) if n > 100 else (1, 11, -1))]
    out += [('earlier', {}), ('place', {}), ('broken', {}), ('boxes', {}), ('references', {}), ('crossed', {})]
    return out


def less(cx, a, b):
    """strict order of code lists"""
    i = 0
    while True:
        if i >= len(b):
            return False
        if i >= len(a):
            return True
        if a[i] == b[i]:
            i += 1
            continue
        return bool(a[i] < b[i])


def leq(cx, a, b):
    return not less(cx, b, a)


def entries(cx, f):
    """every entry of the name tree, its structure checked"""
    cat = f.get(f.trailer.get('Root'))
    names = f.get(cat.get('Names'))
    cx.check(isinstance(names, dict) and 'Dests' in names, 'the document has a name tree of destinations')
    out = []

    def walk(ref, root):
        d = f.get(ref)
        cx.check(isinstance(d, dict), 'name tree nodes are dictionaries')
        cx.check(('Names' in d) != ('Kids' in d), 'a name tree node has names or kids')
        keys = []
        if 'Names' in d:
            ns = f.get(d['Names'])
            cx.check(len(ns) % 2 == 0 and len(ns) > 0, 'names come in pairs')
            for i in range(0, len(ns), 2):
                cx.check(isinstance(ns[i], PStr), 'keys are strings')
                keys.append(ns[i].codes)
                out.append((ns[i].codes, f.get(ns[i + 1])))
        else:
            kids = f.get(d['Kids'])
            cx.check(len(kids) > 0, 'a name tree node has kids')
            for k in kids:
                keys += walk(k, False)
        if root:
            cx.check('Limits' not in d, 'the root of a name tree has no limits')
        else:
            lim = f.get(d.get('Limits'))
            cx.check(isinstance(lim, list) and len(lim) == 2, 'a name tree node has limits')
            cx.check(cx.eqcodes(lim[0].codes, keys[0]), 'the lower limit is the least key')
            cx.check(cx.eqcodes(lim[1].codes, keys[-1]), 'the upper limit is the greatest key')
        return keys
    keys = walk(names['Dests'], True)
    for a, b in zip(keys, keys[1:]):
        cx.check(less(cx, a, b), 'the keys of a name tree are in lexical order')
    return out


def lookup(cx, f, key):
    """binary search by limits, as a reader does it"""
    cat = f.get(f.trailer.get('Root'))
    names = f.get(cat.get('Names'))
    if not isinstance(names, dict) or 'Dests' not in names:
        return None
    d = f.get(names['Dests'])
    while 'Kids' in d:
        nxt = None
        for k in f.get(d['Kids']):
            c = f.get(k)
            lo, hi = f.get(c.get('Limits'))
            if leq(cx, lo.codes, key) and leq(cx, key, hi.codes):
                nxt = c
                break
        if nxt is None:
            return None
        d = nxt
    ns = f.get(d['Names'])
    for i in range(0, len(ns), 2):
        if cx.eqcodes(ns[i].codes, key):
            return f.get(ns[i + 1])
    return None


def page_refs(f):
    out = []

    def walk(ref):
        d = f.get(ref)
        if d.get('Type') == 'Page':
            out.append(ref)
        else:
            for k in f.get(d['Kids']):
                walk(k)
    walk(f.get(f.trailer['Root'])['Pages'])
    return out


def verify(cx, pdf, labels, doc=None):
    """labels: (text, page index or None, place or None)"""
    try:
        if doc is None:
            doc = draw(cx, pdf)
        f = doc.file
        found = entries(cx, f) if labels else []
        cx.check(len(found) == len(labels), 'no label is lost or duplicated')
        pages = page_refs(f)
        for text, page, place in labels:
            dest = lookup(cx, f, cx.units(text))
            cx.check(dest is not None, 'every label is found by binary search')
            cx.check(isinstance(dest, list) and len(dest) == 5 and isinstance(dest[0], Ref) and dest[1] == 'XYZ',
                     'a destination is a page and a position')
            if page is None:
                continue
            cx.check(dest[0] == pages[page], 'a label leads to the page of its element')
            if place is not None:
                at(cx, dest, place(doc))
    except ReadError as ex:
        cx.fail('the file cannot be read: %s' % ex)
    return doc


def at(cx, dest, e):
    """the destination is the upper left corner of the text e"""
    cx.check(cx.close(dest[2], e.x, 0.02), 'a label leads to the left end of its element')
    y = e.y + e.rise
    cx.check(cx.And(cx.le(y + 0.5 * e.size, dest[3], 0.01), cx.le(dest[3], y + 1.5 * e.size, 0.01)),
             'a label leads to the top of its element')


def first_of(char, page):
    def place(doc):
        for e in doc.events[page]:
            if e.kind == 'text' and len(e.codes) > 0 and e.codes[0] == ord(char):
                return e
        doc.cx.fail('the labelled text is drawn')
    return place


def symbolic(cx, n, k):
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    labels = []
    for i in range(n):
        m = cx.choice('len%d' % i, list(range(k + 1))) if n < 3 else k
        x = cx.str('label%d' % i, m, [(0, 255)])
        for y in labels:
            if len(y) == len(x):
                cx.assume(cx.Not(cx.eqcodes(cx.units(x), cx.units(y))))
        labels.append(x)
        pdf.text({'.': ['x', {'.': 'L', 'label': x}]})
    verify(cx, pdf, [(x, 0, None) for x in labels])


def many(cx, n, step):
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    names = []
    for i in range(n - 1):
        j = i if step == 1 else n - 1 - i if step == -1 else (i * step) % (n - 1) if (n - 1) % step else i
        names.append('k%03d' % (2 * j))
    x = 'k' + cx.str('label', 3 if n < 100 else 1, '0123456789') if n > 1 else cx.str('label', 2, [(32, 126)])
    for y in names:
        if len(y) == len(x):
            cx.assume(cx.Not(cx.eqcodes(cx.units(x), cx.units(y))))
    where = cx.choice('where', [0, n - 1, n // 2] if n > 1 else [0])
    names.insert(where, x)
    for i, y in enumerate(names):
        pdf.text({'.': 'L', 'label': y})
        if i % 40 == 39:
            pdf.add_page()
    verify(cx, pdf, [(y, i // 40, None) for i, y in enumerate(names)] if n < 38 else [(y, None, None) for y in names])


def place(cx):
    w = cx.real('w', 60, 300)
    size = cx.real('size', 5, 15)
    pdf = cx.mod('pdf').PDF(page_size=(w, 400), margin=cx.choice('margin', [0, 20]), font_size=10)
    pdf.add_page()
    n = cx.choice('before', [0, 1, 3])
    pre = 'aa ' * n
    pdf.text([pre, {'.': 'LL', 'style': {'s': size}, 'label': 'here'}, ' post'] if n else
             [{'.': 'LL', 'style': {'s': size}, 'label': 'here'}, ' post'])
    verify(cx, pdf, [('here', 0, first_of('L', 0))])


def broken(cx):
    """a labelled text over several lines or pages"""
    w, h = cx.real('w', 30, 200), cx.real('h', 16, 80)
    pdf = cx.mod('pdf').PDF(page_size=(w, h), margin=0, font_size=10)
    pdf.add_page()
    pdf.text([{'.': 'aa aa ', 'label': 'before'}, {'.': 'LL bb bb bb', 'label': 'here'}, {'.': ' zz', 'label': 'after'}])
    doc = draw(cx, pdf)
    pages = {}
    for i, evs in enumerate(doc.events):
        for e in evs:
            for c in e.codes:
                pages.setdefault(c, (i, e))
    labels = [('before', 'a'), ('here', 'L'), ('after', 'z')]
    for name, c in labels:
        cx.check(ord(c) in pages, 'the labelled text is drawn')
    verify(cx, pdf, [(name, pages[ord(c)][0], lambda d, e=pages[ord(c)][1]: e) for name, c in labels], doc)


def boxes(cx):
    """labels in content boxes and tables, over columns and pages"""
    h = cx.real('h', 60, 200)
    pdf = cx.mod('pdf').PDF(page_size=(200, h), margin=10, font_size=10)
    pdf.add_page()
    kind = cx.choice('kind', ['content', 'columns', 'table'])
    els = [{'.': c + ' text', 'label': 'l' + c} for c in 'ABCDEF']
    if kind == 'content':
        pdf.content({'content': els})
    elif kind == 'columns':
        pdf.content({'content': els, 'cols': {'count': 2}})
    else:
        pdf.table([[els[i], els[i + 1]] for i in (0, 2, 4)])
    doc = draw(cx, pdf)
    where = {}
    for i, evs in enumerate(doc.events):
        for e in evs:
            if e.kind == 'text' and len(e.codes) and e.codes[0] in range(65, 71):
                where[chr(e.codes[0])] = (i, e)
    cx.check(sorted(where) == list('ABCDEF'), 'the labelled texts are drawn')
    verify(cx, pdf, [('l' + c, i, lambda d, e=e: e) for c, (i, e) in where.items()], doc)


def references(cx):
    """references lead to their labels, before and after them"""
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    name = cx.str('label', 2, [(32, 126)])
    wide = cx.bool('wide')
    if wide:
        # characters that a string in a PDF does not have
        name = 'a' * cx.choice('before', [0, 1]) + cx.str('wide label', 1, [(128, 0xd7ff), (0xe000, 0x10ffff)])
        for other in ('\xff', chr(0x3b1)):
            cx.assume(cx.Not(cx.eqcodes(cx.units(name), cx.units(other))))
        pdf.text({'.': 'M', 'label': '\xff'})
        pdf.add_page()
        pdf.text({'.': 'N', 'label': chr(0x3b1)})
    order = cx.bool('order')
    target = {'.': 'L', 'label': name}
    source = {'.': ['see ', {'.': 'R', 'ref': name}]}
    for i, x in enumerate((target, source) if order else (source, target)):
        pdf.text(x)
        if i == 0 and cx.bool('newpage'):
            pdf.add_page()
    try:
        doc = draw(cx, pdf)
        f = doc.file
        annots = [f.get(a) for p in doc.pages for a in (f.get(p.get('Annots')) or [])]
        cx.check(len(annots) == 1, 'a reference is an annotation')
        a = annots[0]
        cx.check(a.get('Subtype') == 'Link', 'a reference is a link')
        d = f.get(a.get('Dest'))
        cx.check(isinstance(d, PStr), 'a reference names its label')
        if not wide:
            cx.check(cx.eqcodes(d.codes, cx.units(name)), 'a reference names its label')
        cx.check(len(entries(cx, f)) == (3 if wide else 1), 'no label is lost or duplicated')
        dest = lookup(cx, f, d.codes)
        cx.check(dest is not None, 'a reference is resolvable')
        for i, evs in enumerate(doc.events):
            for e in evs:
                if e.kind == 'text' and list(e.codes) == [76]:
                    cx.check(f.get(dest[0]) is doc.pages[i], 'a reference leads to the page of its label')
                    at(cx, dest, e)
    except ReadError as ex:
        cx.fail('the file cannot be read: %s' % ex)


def crossed(cx):
    """fragments with both a label and a reference, inside others that have"""
    pdf = cx.mod('pdf').PDF(font_size=10)
    pdf.add_page()
    inner = cx.choice('inner', [{}, {'label': 'n'}, {'ref': 'a'}, {'label': 'n', 'ref': 'a'}, {'uri': 'http://x'}, {'label': 'n', 'uri': 'http://x'}])
    outer = cx.choice('outer', [{'label': 'm'}, {'ref': 'a'}, {'label': 'm', 'ref': 'a'}, {'label': 'm', 'outline': {}}])
    parts = ['p'] * cx.choice('lead', [0, 1])
    pdf.text({'.': [*parts, dict({'.b': 'Q'}, **inner), 'R'], **outer})
    pdf.text({'.': 'S', 'label': 'a', 'ref': 'm'})
    doc = draw(cx, pdf)
    f = doc.file
    at_ = {}
    for i, evs in enumerate(doc.events):
        for e in evs:
            if e.kind == 'text':
                for c in e.codes:
                    at_.setdefault(chr(c), (i, e))
    want = [('a', 'S')]
    if 'label' in outer:
        want.append(('m', 'p' if parts else 'Q'))
    if 'label' in inner:
        want.append(('n', 'Q'))
    found = [k for k, v in entries(cx, f)]
    if 'outline' not in outer:
        cx.check(len(found) == len(want), 'no label is lost or duplicated')
    for k, c in want:
        dest = lookup(cx, f, cx.units(k))
        cx.check(isinstance(dest, list), 'every label is found by binary search', k)
        at(cx, dest, at_[c][1])
    annots = [f.get(a) for p in doc.pages for a in (f.get(p.get('Annots')) or [])]
    refs = [f.get(a.get('Dest')) for a in annots if a.get('Dest') is not None]
    cx.check(any(cx.eqcodes(r.codes, [109]) for r in refs), 'a fragment with a label has its reference too')
    if 'ref' in inner or 'ref' in outer:
        cx.check(any(cx.eqcodes(r.codes, [97]) for r in refs), 'a reference is an annotation')


def earlier(cx):
    """labels on a page that is made current again"""
    h = cx.real('h', 60, 200)
    pdf = cx.mod('pdf').PDF(page_size=(200, h), margin=10, font_size=10)
    for i in range(3):
        pdf.add_page()
        if cx.bool('text%d' % i):
            pdf.text({'.': 'ABC'[i] + ' text', 'label': 'l' + 'ABC'[i]})
    pdf.page_index = cx.choice('back', [0, 1, 2])
    kind = cx.choice('kind', ['text', 'table', 'content'])
    e = {'.': 'D text', 'label': 'lD'}
    if kind == 'text':
        pdf.text(e)
    elif kind == 'table':
        pdf.table([[e, 'x']])
    else:
        pdf.content({'content': [e]})
    doc = draw(cx, pdf)
    where = {}
    for i, evs in enumerate(doc.events):
        for t in evs:
            if t.kind == 'text' and len(t.codes) and t.codes[0] in range(65, 69):
                where[chr(t.codes[0])] = (i, t)
    cx.check('D' in where and where['D'][0] == pdf.page_index, 'the labelled texts are drawn')
    verify(cx, pdf, [('l' + c, i, lambda d, e=e: e) for c, (i, e) in where.items()], doc)
