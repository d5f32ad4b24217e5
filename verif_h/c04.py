"""C04: stream data, Length and Filter."""
from verif_o.pdfread import File, ReadError, Stream
from verif_o.sink import written

PROPERTY = 'C04'
BUDGET = {'quick': 90, 'thorough': 900}
BOUNDS = {'data': 'up to 3 parts, each symbolic bytes (0..2, quick; 0..4, thorough) or opaque data of symbolic length 0..200000',
          'many': 'streams of 9 to 101 parts of which two are symbolic', 'variants': 'with and without FlateDecode, pre-encoded, whole or in parts, written once or twice, other entries in the dictionary, every filter name of the specification'}
PATH_TIMEOUT = 60


def configs(tier):
    k = 2 if tier == 'quick' else 4
    out = [('direct', dict(parts=p, nbytes=k)) for p in (0, 1, 2, 3)]
    out += [('page', dict(parts=p)) for p in (1, 2, 3)] + [('many', {}), ('changed', {})] + [('filters', {}), ('encoder', dict(n=k))]
    return out


def piece(cx, i, nbytes):
    k = cx.choice('form%d' % i, list(range(nbytes + 2)))
    if k == nbytes + 1:
        return cx.blob('blob%d' % i, 0, 200000, i)
    return cx.bytes('bytes%d' % i, k)


def judge(cx, data, n, expect, filtered, preencoded):
    try:
        f = File(cx, data)
        s = f.object(n)
        cx.check(isinstance(s, Stream), 'a stream is written as a stream')
        filt = s.dict.get('Filter')
        cx.check(filt == 'FlateDecode' if filtered else filt is None, 'the declared filter is the given one')
        got = s.data if preencoded else f.stream_data(s)
    except ReadError as ex:
        cx.fail('the stream cannot be read: %s' % ex)
    cx.check(cx.eqcodes(got, cx.units(expect)), 'the stream carries exactly the given data')
    return s


def direct(cx, parts, nbytes):
    base = cx.mod('base').PDFBase()
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    d = {}
    ps = [piece(cx, i, nbytes) for i in range(max(1, parts))]
    expect = b''.join(ps)
    mode = cx.choice('mode', ['plain', 'filter', 'skip', 'skipnofilter'])
    if mode in ('filter', 'skip'):
        d['Filter'] = b'/FlateDecode'
    # parts == 0: one bytes object; otherwise a dict of parts
    d['__stream__'] = ps[0] if parts == 0 else dict((i, p) for i, p in enumerate(ps))
    if mode.startswith('skip'):
        d['__skip_filter__'] = True
    if cx.bool('extra'):
        d['Subtype'] = b'/Form'
    o = base.add(d)
    after = base.add({'Type': b'/Next'})
    first = written(base)
    s = judge(cx, first, o.id, expect, mode in ('filter', 'skip'), mode.startswith('skip'))
    cx.check(sorted(s.dict.keys()) == sorted([k for k in d if not k.startswith('__') and k != 'Length'] + ['Length']),
             'the stream dictionary has the given entries and its length')
    second = written(base)
    judge(cx, second, o.id, expect, mode in ('filter', 'skip'), mode.startswith('skip'))
    cx.check(cx.eqcodes(cx.units(first), cx.units(second)), 'writing a stream again gives the same bytes')


def page(cx, parts):
    pdf = cx.mod('pdf').PDF()
    pdf.add_page()
    expect = []
    for i in range(parts):
        k = cx.choice('kind%d' % i, ['bytes', 'str', 'blob'])
        if k == 'bytes':
            x = cx.bytes('b%d' % i, 2)
            expect.append(x)
        elif k == 'str':
            x = cx.str('s%d' % i, 2, [(0, 255)])
            expect.append(x.encode('latin'))
        else:
            x = cx.blob('blob%d' % i, 0, 100000, i)
            expect.append(x)
        pdf.page.add(x)
    ref = pdf.page.stream.id
    data = written(pdf)
    judge(cx, data, ref, b''.join(expect), True, False)


def many(cx):
    """parts are joined in the order they were added, however many there are"""
    n = cx.choice('parts', [9, 11, 12, 25, 101])
    how = cx.choice('how', ['page', 'numbers', 'names'])
    a, b = cx.bytes('a', 1), cx.bytes('b', 2)
    ps = [b'%d ' % i for i in range(n)]
    ps[cx.choice('at', [1, 2, 8])] = a
    ps[-1] = b
    if how == 'page':
        pdf = cx.mod('pdf').PDF()
        pdf.add_page()
        for p in ps:
            pdf.page.add(p)
        base, ref = pdf, pdf.page.stream.id
    else:
        base = cx.mod('base').PDFBase()
        base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
        ref = base.add({'Filter': b'/FlateDecode', '__stream__': dict(('part%d' % (n - i) if how == 'names' else i, p) for i, p in enumerate(ps))}).id
    judge(cx, written(base), ref, b''.join(ps), True, False)


def filters(cx):
    """a filter that is not implemented is refused, never written wrongly"""
    name = cx.choice('filter', ['ASCIIHexDecode', 'ASCII85Decode', 'LZWDecode', 'RunLengthDecode',
                                'CCITTFaxDecode', 'JBIG2Decode', 'DCTDecode', 'JPXDecode', 'Crypt', 'Other'])
    base = cx.mod('base').PDFBase()
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    data = cx.bytes('data', 2)
    skip = cx.bool('skip')
    d = {'Filter': ('/' + name).encode(), '__stream__': data}
    if skip:
        d['__skip_filter__'] = True
    o = base.add(d)
    try:
        out = written(base)
    except Exception as ex:
        cx.check(not skip, 'pre-encoded data can be written with any filter')
        cx.check(True, 'refused')
        return
    try:
        s = File(cx, out).object(o.id)
    except ReadError as ex:
        cx.fail('the stream cannot be read')
    cx.check(skip, 'an unsupported filter is refused')
    cx.check(s.dict.get('Filter') == name, 'the filter is declared')
    cx.check(cx.eqcodes(s.data, cx.units(data)), 'pre-encoded data is copied')


def encoder(cx, n):
    data = piece(cx, 0, n)
    out = cx.mod('encoders').encode_stream(data, b'/FlateDecode')
    back = cx.inflate(cx.units(out))
    cx.check(cx.eqcodes(cx.units(back), cx.units(data)), 'encoded data decodes to the data')


def changed(cx):
    """what is added or replaced after writing is in the next file"""
    how = cx.choice('how', ['page', 'parts', 'replace', 'inplace', 'remove', 'twopages'])
    a, b, c = cx.bytes('a', 1), cx.bytes('b', 2), cx.bytes('c', 1)
    if how in ('page', 'twopages'):
        base = cx.mod('pdf').PDF()
        base.add_page()
        base.page.add(a)
        ref = base.page.stream.id
        expect = [a]
        if how == 'twopages':
            base.add_page()
            base.page.add(c)
        base.page.add(b) if how == 'page' else base.pages[0].add(b)
        expect.append(b)
        judge(cx, written(base), ref, b''.join(expect), True, False)
        if how == 'twopages':
            judge(cx, written(base), base.pages[1].stream.id, c, True, False)
        base.pages[0].add(c)
        judge(cx, written(base), ref, b''.join(expect + [c]), True, False)
        return
    filtered = cx.bool('filter')
    base = cx.mod('base').PDFBase()
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    d = {'__stream__': {0: a, 1: b} if how != 'replace' else a}
    if filtered:
        d['Filter'] = b'/FlateDecode'
    o = base.add(d)
    judge(cx, written(base), o.id, a + b if how != 'replace' else a, filtered, False)
    if how == 'parts':
        d['__stream__'][2] = c
        expect = a + b + c
    elif how == 'replace':
        o['__stream__'] = b
        expect = b
    elif how == 'inplace':
        d['__stream__'][0] = c
        expect = c + b
    else:
        del d['__stream__'][0]
        expect = b
    judge(cx, written(base), o.id, expect, filtered, False)
    judge(cx, written(base), o.id, expect, filtered, False)
