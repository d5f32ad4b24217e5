"""C03: header, objects, cross-reference table and trailer of every file."""
from verif_o.pdfread import File, ReadError, Stream, Ref, Name, PStr
from verif_o.sink import written

PROPERTY = 'C03'
BUDGET = {'quick': 90, 'thorough': 900}
BOUNDS = {'objects': 'up to 3 (quick) / 4 (thorough) objects of 8 kinds added in any order and 12 objects of one kind (two digit object numbers)',
          'sizes': 'opaque data of symbolic length 0..5000000 (one of up to 20 MB), integers of symbolic value, strings of symbolic characters',
          'empty': 'documents of 2 or 3 pages some of which have no contents, empty streams, dictionaries and lists',
          'documents': 'PDF documents with up to 2 pages and page content of symbolic length, written once and twice'}
PATH_TIMEOUT = 60
KINDS = ['blob', 'int', 'str', 'dictref', 'rawbytes', 'listref', 'flate', 'real']


FEW = ['blob', 'int', 'dictref', 'flate']


def configs(tier):
    out = [('objects', dict(n=1)), ('objects', dict(n=2)), ('objects', dict(n=3)), ('many', dict(n=11)),
           ('document', dict(pages=1)), ('document', dict(pages=2)),
           ('labelled', dict(n=2)), ('bare', dict(pages=2)), ('bare', dict(pages=3)), ('trailer', {}), ('large', {})]
    if tier == 'thorough':
        out += [('objects', dict(n=4)), ('many', dict(n=101)), ('labelled', dict(n=8))]
    return out


def make(cx, i, kind, prev):
    if kind == 'blob':
        return {'__stream__': cx.blob('data%d' % i, 0, 5000000, i)}
    if kind == 'flate':
        return {'Filter': b'/FlateDecode', '__stream__': cx.blob('data%d' % i, 0, 5000000, i)}
    if kind == 'int':
        return cx.int('int%d' % i, -10**8, 10**8)
    if kind == 'real':
        return cx.real('real%d' % i, -10**5, 10**5)
    if kind == 'str':
        return cx.choice('start%d' % i, ['', '\r', '\n\n ', ' end']) + cx.str('str%d' % i, 1, [(0, 255)])
    if kind == 'rawbytes':
        return cx.choice('raw%d' % i, [b'/SomeName', b'(a\r\nb\n\nc)', b'[ 1 2 \t\n ]', b'(\xe9\xff \x80)'])
    if kind == 'dictref':
        return {'Type': b'/Thing', 'To': prev, 'V': cx.int('int%d' % i, 0, 10**6)}
    return [prev, prev, 'x']


def skeleton(cx, data, count=None):
    """reads the whole file, checks the structure; returns the File"""
    try:
        f = File(cx, data)
        cx.check(bool(f.first == 0), 'the cross-reference table starts with object 0')
        cx.check(f.entries[0][2] == 'f' and bool(f.entries[0][1] == 65535), 'object 0 heads the list of free objects')
        if count is not None:
            cx.check(len(f.entries) == count + 1, 'every object has one cross-reference entry')
        cx.check(bool(f.trailer['Size'] == len(f.entries)), 'trailer Size is the number of entries')
        ids = f.trailer.get('ID')
        cx.check(isinstance(ids, list) and len(ids) == 2 and all(isinstance(x, PStr) and len(x.codes) > 0 for x in ids),
                 'the trailer has a file identifier of two strings')
        refs = f.all_refs(f.trailer, [])
        for n in sorted(f.entries):
            if n != 0:
                cx.check(f.entries[n][2] == 'n', 'every object is in use')
                f.all_refs(f.object(n), refs)
        for r in refs:
            cx.check(r.n in f.entries and r.n != 0, 'every reference resolves to an object')
        # no two objects share bytes and nothing but objects is in between
        spans = sorted(f.spans)
        for a, b in zip(spans, spans[1:]):
            cx.check(a[1] <= b[0], 'objects do not overlap')
            f.r.i = a[1]
            f.r.ws()
            cx.check(f.r.i == b[0], 'only white space lies between two objects')
        if spans:
            f.r.i = spans[-1][1]
            f.r.ws()
            cx.check(bool(cx.close(f.pos[f.r.i], f.startxref, 0)), 'the cross-reference table follows the last object')
    except ReadError as ex:
        cx.fail('the file cannot be read: ' + str(ex))
    return f


def objects(cx, n):
    base = cx.mod('base').PDFBase()
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    prev = root.id
    for i in range(n):
        o = base.add(make(cx, i, cx.choice('kind%d' % i, KINDS if n < 3 else FEW), prev))
        prev = o.id
    d1 = written(base)
    f = skeleton(cx, d1, n + 1)
    cx.check(isinstance(f.trailer.get('Root'), Ref) and f.get(f.trailer['Root']).get('Type') == 'Catalog', 'Root is the catalog')
    cx.observe('size', f.size if not cx.sym or n == 1 else 0) if False else None
    d2 = written(base)
    f2 = skeleton(cx, d2, n + 1)
    cx.check(len(cx.units(d1)) == len(cx.units(d2)), 'writing a document again gives the same file')
    cx.check(cx.eqcodes(cx.units(d1), cx.units(d2)), 'writing a document again gives the same file')


def many(cx, n):
    base = cx.mod('base').PDFBase()
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    for i in range(n):
        base.add({'__stream__': cx.blob('data%d' % i, 0, 100000, i), 'Back': root.id})
    skeleton(cx, written(base), n + 1)


def large(cx):
    """a large file"""
    base = cx.mod('base').PDFBase()
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    base.add({'__stream__': cx.blob('data', 9 * 10**6, 2 * 10**7, 1), 'Back': root.id})
    base.add(cx.int('v', 0, 10**3))
    base.add({'__stream__': cx.blob('more', 0, 1000, 2), 'Back': root.id})
    base.add(b'/Name')
    skeleton(cx, written(base), 5)


def trailer(cx):
    k = cx.choice('own', [0, 1])
    t = {'Info': 'x', 'ID': ['ab', 'cd']} if k else None
    base = cx.mod('base').PDFBase(cx.choice('version', ['1.5', '1.7']), t)
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    base.add(cx.int('v', 0, 10**6))
    d = written(base)
    f = skeleton(cx, d, 2)
    if k:
        cx.check(cx.eqcodes(f.trailer['ID'][0].codes, cx.units('ab')), 'a given file identifier is kept')
        cx.check(cx.eqcodes(f.trailer['Info'].codes, cx.units('x')), 'trailer entries given by the user are kept')


def document(cx, pages):
    pdf = cx.mod('pdf').PDF()
    for i in range(pages):
        pdf.add_page()
        pdf.page.add(cx.blob('content%d' % i, 0, 100000, i))
        pdf.page.add(b' q Q')
    for again in (1, 2):
        f = skeleton(cx, written(pdf))
        cat = f.get(f.trailer.get('Root'))
        cx.check(isinstance(cat, dict) and cat.get('Type') == 'Catalog', 'Root is the catalog')
        cx.check('Pages' in cat, 'the catalog has a page tree')


def bare(cx, pages):
    """documents some pages of which have no contents"""
    pdf = cx.mod('pdf').PDF()
    for i in range(pages):
        pdf.add_page()
        if cx.bool('full%d' % i):
            pdf.text('x' if i else {'.': 'y', 'label': 'l'})
    pdf.base.add({'__stream__': b'', 'Length': 0} if cx.bool('length') else {'__stream__': b''})
    pdf.base.add({})
    pdf.base.add([])
    for again in (1, 2):
        f = skeleton(cx, written(pdf))
        cat = f.get(f.trailer.get('Root'))
        tree = f.get(cat.get('Pages'))
        for kid in f.get(tree.get('Kids')):
            c = f.get(f.get(kid).get('Contents'))
            cx.check(isinstance(c, Stream), 'the contents of a page are a stream')


def labelled(cx, n):
    """destinations, links and outlines add objects behind the pages"""
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    pdf.text({'.': [{'.': 'ab ', 'label': 'l%d' % i, 'uri': 'http://x/%d' % i,
                     'outline': {'text': 'o'}} for i in range(n)]})
    pdf.page.add(cx.blob('content', 0, 100000))
    for again in (1, 2):
        skeleton(cx, written(pdf))
