"""C23: page sizes and margins in every notation."""
from verif_o.content import pages_of
from verif_o.pdfread import File, ReadError
from verif_o.sink import written

PROPERTY = 'C23'
BUDGET = {'quick': 60, 'thorough': 300}
BOUNDS = {'numbers': 'any real: sizes in [1, 5000], margins in [0, 500]',
          'notations': 'number, numeric string, string / list / tuple of one to four numbers, dict of any subset of sides; sizes by name, number, list, tuple',
          'strings': 'one comma or one blank between two numbers'}
PATH_TIMEOUT = 60
SIDES = ('top', 'right', 'bottom', 'left')
NAMES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'a3': (841.89, 1190.551), 'b5': (498.898, 708.661),
         'b4': (708.661, 1000.63), 'jis-b5': (515.906, 728.504), 'jis-b4': (728.504, 1031.812), 'letter': (612, 792),
         'legal': (612, 1008), 'ledger': (792, 1224)}
DEF = 56.693
# which of the given numbers each of top, right, bottom, left takes
RULE = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}


def configs(tier):
    return [('margins', dict(where=w)) for w in ('direct', 'document', 'page')] + \
        [('sizes', {}), ('rejected', {})]


def margin_value(cx):
    """a margin in some notation, and what each side then is (None: not given)"""
    form = cx.choice('form', ['number', 'str', 'list', 'tuple', 'dict'])
    n = 1 if form == 'number' else cx.choice('n', [1, 2, 3, 4]) if form != 'dict' else 4
    m = [cx.real('m%d' % i, 0, 500) for i in range(n)]
    if form == 'dict':
        d = {s: v for s, v in zip(SIDES, m) if cx.bool('has_' + s)}
        return d, [d.get(s) for s in SIDES]
    exp = [m[k] for k in RULE[n]]
    if form == 'number':
        return m[0], exp
    if form == 'list':
        return list(m), exp
    if form == 'tuple':
        return tuple(m), exp
    sep = cx.choice('sep', [',', ' '])
    return sep.join([str(v) for v in m]), exp


def margins(cx, where):
    value, exp = margin_value(cx)
    if where == 'direct':
        got = cx.mod('utils').parse_margin(value)
        got = [got.get(s) for s in SIDES]
        whole = None
    else:
        P = cx.mod('pdf').PDF
        if where == 'document':
            cx.assume(not isinstance(value, dict) or len(value) == 4)
            pdf = P(page_size=(2000, 3000), margin=value)
            pdf.add_page()
        else:
            base = [cx.real('d%d' % i, 0, 500) for i in range(4)]
            pdf = P(page_size=(2000, 3000), margin=list(base))
            pdf.add_page(margin=value)
            exp = [b if e is None else e for e, b in zip(exp, base)]
        p = pdf.page
        got = [p.margin_top, p.margin_right, p.margin_bottom, p.margin_left]
        cx.check(cx.And(cx.close(p.content_width, 2000 - exp[1] - exp[3], 0.001),
                        cx.close(p.content_height, 3000 - exp[0] - exp[2], 0.001)),
                 'the content area is the page less its margins')
        cx.check(cx.And(cx.close(p.x, exp[3], 0.001), cx.close(p.y, exp[0], 0.001)),
                 'writing starts at the corner of the content area')
        if where == 'page':
            # the margins of one page do not change the following page
            pdf.add_page()
            q = pdf.page
            for g, e in zip([q.margin_top, q.margin_right, q.margin_bottom, q.margin_left], base):
                cx.check(cx.close(g, e, 0.0001), 'the margins of one page do not change those of the next')
    for g, e in zip(got, exp):
        if e is None:
            cx.check(g is None, 'a side that was not given is not invented')
        else:
            cx.check(g is not None and cx.close(g, e, 0.0001), 'each side has its margin')


def sizes(cx):
    form = cx.choice('form', ['name', 'number', 'list', 'tuple'])
    if form == 'name':
        name = cx.choice('name', sorted(NAMES))
        value, exp = name, NAMES[name]
    elif form == 'number':
        w = cx.real('w', 1, 5000)
        value, exp = w, (w, w)
    else:
        w, h = cx.real('w', 1, 5000), cx.real('h', 1, 5000)
        value, exp = ([w, h] if form == 'list' else (w, h)), (w, h)
    where = cx.choice('where', ['direct', 'document', 'page'])
    if where == 'direct':
        got = cx.mod('utils').get_page_size(value)
        cx.check(len(got) == 2, 'a page size is a width and a height')
    else:
        P = cx.mod('pdf').PDF
        pdf = P(page_size=value) if where == 'document' else P()
        if where == 'document':
            pdf.add_page()
        else:
            pdf.add_page(page_size=value)
        got = (pdf.width, pdf.height)
        try:
            f = File(cx, written(pdf))
            box = [f.get(x) for x in f.get(pages_of(f)[0]['MediaBox'])]
        except ReadError as ex:
            cx.fail('the file cannot be read: %s' % ex)
        cx.check(cx.And(box[0] == 0, box[1] == 0, cx.close(box[2], exp[0], 0.001), cx.close(box[3], exp[1], 0.001)),
                 'the media box is the page size')
    cx.check(cx.And(cx.close(got[0], exp[0], 0.0001), cx.close(got[1], exp[1], 0.0001)),
             'a page has the size it was given')


def rejected(cx):
    """what is no size or margin is refused"""
    u = cx.mod('utils')
    what = cx.choice('what', ['size', 'margin', 'text'])
    try:
        if what == 'size':
            u.get_page_size(cx.choice('v', [None, {}, 'a99', object()]))
        elif what == 'margin':
            u.parse_margin(cx.choice('v', [None, object(), b'1']))
        else:
            u.parse_margin(cx.choice('v', ['x', '1,x', '1 2 y']))
    except Exception:
        cx.check(True, 'rejected')
        return
    cx.fail('what is no size or margin is refused')
